//! Generator of AsciiDoc documents as structured lines. Every word is unique, so
//! lost, duplicated or misplaced content is visible in the output.
use crate::rt::Choices;

#[derive(Debug, Clone, PartialEq)]
pub struct L {
  pub text: String,
  /// a section heading (its `=` run is subject to leveloffset)
  pub head: bool,
  /// never separate this line from the previous one
  pub glue: bool,
  /// inside a verbatim (listing/literal) block body
  pub verb: bool,
}

impl L {
  pub fn t(s: impl Into<String>) -> L {
    L { text: s.into(), head: false, glue: false, verb: false }
  }
  pub fn h(s: impl Into<String>) -> L {
    L { text: s.into(), head: true, glue: false, verb: false }
  }
  pub fn v(s: impl Into<String>) -> L {
    L { text: s.into(), head: false, glue: false, verb: true }
  }
  pub fn g(s: impl Into<String>) -> L {
    L { text: s.into(), head: false, glue: true, verb: false }
  }
}

pub const F_INLINE: u32 = 1;
pub const F_LISTS: u32 = 2;
pub const F_VERB: u32 = 4;
pub const F_DELIM: u32 = 8;
pub const F_TABLE: u32 = 16;
pub const F_ATTRS: u32 = 32;
pub const F_XREF: u32 = 64;
pub const F_META: u32 = 128;
pub const F_COMMENT: u32 = 256;
pub const F_COUNTER: u32 = 512;
pub const F_FOOT: u32 = 1024;
pub const F_MISC: u32 = 2048;
pub const F_COND: u32 = 4096;
pub const F_ALL: u32 = 8191;

pub struct DocGen<'a> {
  pub ch: &'a mut Choices,
  pub feat: u32,
  pub n: u32,
  pub level: usize,
  pub ids: Vec<String>,
  pub attrs: Vec<String>,
  pub max_level: usize,
}

impl<'a> DocGen<'a> {
  pub fn new(ch: &'a mut Choices, feat: u32) -> Self {
    DocGen { ch, feat, n: 0, level: 1, ids: Vec::new(), attrs: Vec::new(), max_level: 5 }
  }

  pub fn has(&self, f: u32) -> bool {
    self.feat & f != 0
  }

  pub fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  pub fn words(&mut self) -> String {
    let k = self.ch.range(1, 3);
    let mut v = Vec::new();
    for _ in 0..k {
      v.push(self.word());
    }
    v.join(" ")
  }

  pub fn inline(&mut self) -> String {
    let mut parts = vec![self.words()];
    let extra = if self.has(F_INLINE) { self.ch.below(3) } else { 0 };
    for _ in 0..extra {
      let w = self.word();
      let kind = self.ch.below(20);
      let p = match kind {
        0 => w,
        1 => format!("*{w}*"),
        2 => format!("_{w}_"),
        3 => format!("`{w}`"),
        4 => format!("#{w}#"),
        5 => format!("https://example.org/{w}[{w}]"),
        6 => format!("{w} & <{w}>"),
        7 => format!("\"`{w}`\""),
        8 => format!("{w}--{w}"),
        9 => format!("{w} (C) {w}..."),
        10 => format!("+{w}+"),
        11 => format!("[.r{w}]#{w}#"),
        12 if self.has(F_FOOT) => format!("{w}footnote:[{w} note]"),
        13 if self.has(F_FOOT) => format!("{w}footnote:n{w}[{w} note] footnote:n{w}[]"),
        14 if self.has(F_COUNTER) => {
          let c = self.ch.below(2);
          format!("{w} {{counter:cnt{c}}}")
        }
        15 if self.has(F_XREF) && !self.ids.is_empty() => {
          let i = self.ch.idx(self.ids.len());
          format!("{w} <<{}>>", self.ids[i])
        }
        16 if self.has(F_ATTRS) && !self.attrs.is_empty() => {
          let i = self.ch.idx(self.attrs.len());
          format!("{w} {{{}}}", self.attrs[i])
        }
        17 if self.has(F_MISC) => format!("image:{w}.png[{w}]"),
        18 if self.has(F_MISC) => format!("pass:[<u>{w}</u>]"),
        19 if self.has(F_XREF) => {
          let id = format!("anch-{w}");
          self.ids.push(id.clone());
          format!("[[{id},{w} text]]{w}")
        }
        _ => format!("*{w}*"),
      };
      parts.push(p);
    }
    if extra > 0 {
      parts.push(self.word());
    }
    parts.join(" ")
  }

  pub fn para(&mut self) -> Vec<L> {
    let k = self.ch.range(1, 3);
    (0..k).map(|_| L::t(self.inline())).collect()
  }

  pub fn heading(&mut self) -> Vec<L> {
    let lv = self.ch.range(1, (self.level as u64 + 1).min(self.max_level as u64)) as usize;
    // 1 = `==`
    self.level = lv;
    let t = self.words();
    let mut out = Vec::new();
    if self.has(F_XREF) && self.ch.chance(30) {
      let id = format!("sec-{}", self.n);
      self.ids.push(id.clone());
      out.push(L::t(format!("[#{id}]")));
      out.push(L { text: format!("{} {t}", "=".repeat(lv + 1)), head: true, glue: true, verb: false });
    } else {
      out.push(L::h(format!("{} {t}", "=".repeat(lv + 1))));
    }
    out
  }

  fn meta(&mut self, out: &mut Vec<L>) {
    if !self.has(F_META) {
      return;
    }
    if self.ch.chance(20) {
      let w = self.words();
      out.push(L::t(format!(".{w}")));
    }
    if self.ch.chance(20) {
      let w = self.word();
      if self.has(F_XREF) && self.ch.chance(50) {
        let id = format!("blk-{w}");
        self.ids.push(id.clone());
        out.push(L::t(format!("[#{id}.role-{w}]")));
      } else {
        out.push(L::t(format!("[.role-{w}]")));
      }
    }
  }

  pub fn list(&mut self) -> Vec<L> {
    let mut out = Vec::new();
    let kind = self.ch.below(4);
    let k = self.ch.range(1, 3);
    for i in 0..k {
      match kind {
        0 => {
          out.push(L::t(format!("* {}", self.inline())));
          if self.ch.chance(30) {
            out.push(L::t(format!("** {}", self.inline())));
          }
        }
        1 => out.push(L::t(format!(". {}", self.inline()))),
        2 => {
          let w = self.word();
          out.push(L::t(format!("{w}:: {}", self.inline())));
        }
        _ => {
          let c = if i % 2 == 0 { "x" } else { " " };
          out.push(L::t(format!("* [{c}] {}", self.inline())));
        }
      }
      if self.ch.chance(20) {
        out.push(L::t(self.words()));
      }
      if self.ch.chance(20) {
        out.push(L::t("+"));
        out.push(L::t(self.words()));
      }
    }
    out
  }

  pub fn verb_lines(&mut self, k: u64) -> Vec<L> {
    (0..k)
      .map(|_| {
        let ind = self.ch.below(4) as usize;
        let w = self.words();
        let amp = if self.ch.chance(20) { " < & >" } else { "" };
        L::v(format!("{}{w}{amp}", " ".repeat(ind)))
      })
      .collect()
  }

  pub fn verbatim(&mut self) -> Vec<L> {
    let mut out = Vec::new();
    self.meta(&mut out);
    let d = match self.ch.below(4) {
      0 => "----",
      1 => {
        out.push(L::t("[source,rust]"));
        "----"
      }
      2 => "....",
      _ => "```",
    };
    let k = self.ch.range(1, 4);
    out.push(L::t(d));
    out.extend(self.verb_lines(k));
    out.push(L::t(d));
    out
  }

  pub fn delimited(&mut self, depth: usize) -> Vec<L> {
    let mut out = Vec::new();
    self.meta(&mut out);
    let d = match self.ch.below(6) {
      0 => "====",
      1 => "****",
      2 => "____",
      3 => "--",
      4 => {
        out.push(L::t("[NOTE]"));
        "===="
      }
      _ => {
        out.push(L::t("++++"));
        let w = self.word();
        out.push(L::t(format!("<b>{w}</b>")));
        out.push(L::t("++++"));
        return out;
      }
    };
    out.push(L::t(d));
    let k = self.ch.range(1, 2);
    for i in 0..k {
      if i > 0 {
        out.push(L::t(""));
      }
      match self.ch.below(if depth == 0 { 3 } else { 2 }) {
        0 => out.extend(self.para()),
        1 if self.has(F_LISTS) => out.extend(self.list()),
        2 if self.has(F_VERB) => out.extend(self.verbatim()),
        _ => out.extend(self.para()),
      }
    }
    out.push(L::t(d));
    out
  }

  pub fn table(&mut self) -> Vec<L> {
    let mut out = Vec::new();
    self.meta(&mut out);
    let rows = self.ch.range(1, 3);
    let kind = self.ch.below(4);
    match kind {
      0 | 1 => {
        if kind == 1 {
          out.push(L::t("[cols=\"1,1\",options=header]"));
        }
        out.push(L::t("|==="));
        for _ in 0..rows {
          let (a, b) = (self.words(), self.words());
          out.push(L::t(format!("|{a} |{b}")));
        }
        out.push(L::t("|==="));
      }
      2 => {
        out.push(L::t("[cols=2*]"));
        out.push(L::t("|==="));
        for _ in 0..rows {
          let (a, b) = (self.words(), self.words());
          out.push(L::t(format!("|{a}")));
          out.push(L::t(format!("|{b}")));
        }
        out.push(L::t("|==="));
      }
      _ => {
        out.push(L::t(",==="));
        for _ in 0..rows {
          let (a, b) = (self.words(), self.words());
          out.push(L::t(format!("{a},{b}")));
        }
        out.push(L::t(",==="));
      }
    }
    out
  }

  pub fn attr_def(&mut self) -> Vec<L> {
    match self.ch.below(4) {
      0 | 1 => {
        let a = format!("at{}", self.ch.below(3));
        let v = self.words();
        if !self.attrs.contains(&a) {
          self.attrs.push(a.clone());
        }
        vec![L::t(format!(":{a}: {v}"))]
      }
      2 if !self.attrs.is_empty() => {
        let i = self.ch.idx(self.attrs.len());
        let a = self.attrs[i].clone();
        let v = self.words();
        if self.ch.chance(30) { vec![L::t(format!(":!{a}:"))] } else { vec![L::t(format!(":{a}: {v}"))] }
      }
      _ => {
        let w = self.word();
        vec![L::t(format!(":flag-{w}:"))]
      }
    }
  }

  /// blocks which follow their attribute entry on the very next line
  fn attr_then(&mut self) -> Vec<L> {
    let mut out = self.attr_def();
    for _ in 0..self.ch.below(2) {
      out.extend(self.attr_def());
    }
    match self.ch.below(6) {
      1 if self.has(F_COND) => out.extend(self.cond()),
      2 if self.has(F_LISTS) => out.extend(self.list()),
      3 if self.has(F_VERB) => out.extend(self.verbatim()),
      4 if self.has(F_COND) => {
        out.extend(self.cond());
        out.extend(self.para());
      }
      _ => out.extend(self.para()),
    }
    out
  }

  pub fn cond(&mut self) -> Vec<L> {
    let w = self.word();
    let inner = self.para();
    let mut out = Vec::new();
    match self.ch.below(4) {
      0 => out.push(L::t(format!("ifndef::un{w}[]"))),
      1 => out.push(L::t(format!("ifdef::un{w}[]"))),
      2 => {
        out.push(L::t(format!("ifdef::un{w}[{w} hidden]")));
        out.push(L::t(format!("ifndef::un{w}[{w} shown]")));
        return out;
      }
      _ => out.push(L::t("ifeval::[1 < 2]")),
    }
    // a condition and its region stay together: they must open and close in one file
    for mut l in inner {
      l.glue = true;
      out.push(l);
    }
    out.push(L::g("endif::[]"));
    out
  }

  pub fn misc(&mut self) -> Vec<L> {
    let w = self.word();
    match self.ch.below(9) {
      0 => vec![L::t("'''")],
      1 => vec![L::t("<<<")],
      2 => vec![L::t(format!("image::{w}.png[{w}]"))],
      3 => vec![L::t(format!("NOTE: {w}"))],
      4 => vec![L::t(format!(" literal {w}"))],
      5 => vec![L::t(format!("[quote,{w}]")), L::t(self.words())],
      6 => vec![L::t("[discrete]"), L { glue: true, ..L::h(format!("== {w}")) }],
      7 => vec![L::t(format!("{w} +")), L::t(self.words())],
      _ => vec![L::t("[%hardbreaks]"), L::t(self.words()), L::t(self.words())],
    }
  }

  pub fn comment(&mut self) -> Vec<L> {
    let w = self.word();
    match self.ch.below(2) {
      0 => vec![L::t(format!("// comment {w}"))],
      _ => vec![L::t("////"), L::g(format!("hidden {w}")), L::g("////")],
    }
  }

  pub fn block(&mut self) -> Vec<L> {
    for _ in 0..4 {
      let k = self.ch.weighted(&[8, 5, 4, 4, 3, 3, 3, 1, 2, 2]);
      return match k {
        0 => {
          let mut o = Vec::new();
          self.meta(&mut o);
          o.extend(self.para());
          o
        }
        1 => self.heading(),
        2 if self.has(F_LISTS) => self.list(),
        3 if self.has(F_VERB) => self.verbatim(),
        4 if self.has(F_DELIM) => self.delimited(0),
        5 if self.has(F_TABLE) => self.table(),
        6 if self.has(F_ATTRS) => match self.ch.chance(50) {
          false => self.attr_def(),
          true => self.attr_then(),
        },
        7 if self.has(F_COMMENT) => self.comment(),
        8 if self.has(F_MISC) => self.misc(),
        9 if self.has(F_COND) => self.cond(),
        _ => continue,
      };
    }
    self.para()
  }

  /// the body of a document: blocks separated by one (sometimes two) empty lines
  pub fn body(&mut self, blocks: u64) -> Vec<L> {
    let mut out: Vec<L> = Vec::new();
    for i in 0..blocks {
      if i > 0 {
        out.push(L::t(""));
        if self.ch.chance(10) {
          out.push(L::t(""));
        }
      }
      out.extend(self.block());
    }
    out
  }

  pub fn header(&mut self) -> Vec<L> {
    let mut out = vec![L::t(format!("= {}", self.words()))];
    if self.ch.chance(30) {
      out.push(L::g("Jane Doe <jane@example.org>"));
      if self.ch.chance(50) {
        out.push(L::g("v1.2, 2024-01-02: remark"));
      }
    }
    if self.ch.chance(40) {
      out.push(L::t(format!(":at{}: {}", self.ch.below(3), self.n + 7000)));
    }
    if self.ch.chance(25) {
      out.push(L::t(":sectnums:"));
    }
    if self.ch.chance(20) {
      out.push(L::t(":toc:"));
    }
    out.push(L::t(""));
    out
  }
}
