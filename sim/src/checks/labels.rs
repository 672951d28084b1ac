//! Numbers, ids, captions, footnotes, cross references and the table of contents of documents
//! assembled from many files, some of which are lost, torn or delivered twice: everything that
//! is counted is counted over exactly what arrived.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::SafeMode;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "X01",
    run: labels,
    quick: 120000,
    thorough: 3000000,
    level: "fault_enumeration",
    rule: "a run counts when at least one heading, caption, footnote or cross reference arrived; distinct by hash of the full scenario (files, fault plan, settings)",
    state_rule: "distinct sequences of (kind of labelled item, level, numbered, fault before it)",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)",
    assumptions: &[],
  }]
}

const MAIN: &str = "/docs/main.adoc";

#[derive(Debug, Clone)]
enum Piece {
  Word(String),
  Xref { target: String, text: Option<String>, form: u64 },
  Note { id: Option<String>, text: Option<String> },
  Anchor { id: String, reftext: Option<String>, form: u64 },
}

#[derive(Debug, Clone, Default)]
struct Label {
  id: Option<String>,
  reftext: Option<String>,
  form: u64,
}

#[derive(Debug, Clone)]
enum Item {
  Part { title: String, label: Label, kids: Vec<Item>, line: u32 },
  Sec { level: u8, title: String, label: Label, appendix: bool, kids: Vec<Item>, line: u32 },
  Discrete { level: u8, title: String, label: Label, line: u32 },
  Para { pieces: Vec<Piece>, title: Option<String>, label: Label, wrap: u64, line: u32, text_line: u32 },
  Cap { kind: Kind, title: Option<String>, label: Label, caption: Option<String>, line: u32 },
  Attr { name: &'static str, value: Option<String> },
  TocMacro,
  Inc(Inc),
}

#[derive(Debug, Clone)]
struct Inc {
  path: String,
  items: Vec<Item>,
  offset: i8,
  optional: bool,
  fault: Fault,
  torn: Option<usize>,
  line: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
  Table,
  Figure,
  Example,
  Listing,
}

impl Kind {
  fn attr(self) -> &'static str {
    match self {
      Kind::Table => "table-caption",
      Kind::Figure => "figure-caption",
      Kind::Example => "example-caption",
      Kind::Listing => "listing-caption",
    }
  }
}

// --- generation

struct Gen<'a> {
  ch: &'a mut Choices,
  n: u32,
  ids: Vec<String>,
  notes: Vec<String>,
  toc_macro: bool,
  offsets: bool,
}

const WORDS: &[&str] =
  &["alpha", "beta", "Gamma", "Two-Part", "v1.2", "`code`", "*Bold*", "C&D", "Größe", "delta", "x", "Ü", "A&amp;B", "&lt;T&gt;"];

impl Gen<'_> {
  fn uniq(&mut self, p: &str) -> String {
    self.n += 1;
    format!("{p}{}", self.n)
  }

  fn title(&mut self) -> String {
    let n = self.ch.weighted(&[5, 3, 1]) + 1;
    let mut words: Vec<String> = (0..n).map(|_| self.ch.pick(WORDS).to_string()).collect();
    if self.ch.chance(12) {
      let id = self.uniq("aux");
      let at = self.ch.idx(words.len());
      words[at] = format!("[[{id}]]{}", words[at]);
      self.ids.push(id);
    }
    words.join(" ")
  }

  /// with a note to it
  fn noted(&mut self, title: &mut String) {
    if self.ch.chance(15) {
      let t = self.uniq("note");
      title.push_str(&format!("footnote:[{t}]"));
    }
  }

  fn heading(&mut self) -> (String, Label) {
    let mut title = self.title();
    let label = self.label(30);
    // nobody should rely on the id made from a title with a note
    if label.id.is_some() {
      self.noted(&mut title);
    }
    (title, label)
  }

  fn label(&mut self, pct: u64) -> Label {
    let mut l = Label { form: self.ch.below(3), ..Label::default() };
    if self.ch.chance(pct) {
      let id = match self.ch.chance(12) {
        // looks just like an id made from a title
        true => self.ch.pick(&["_alpha", "_beta", "_alpha_2", "_x", "alpha", "_gamma"]).to_string(),
        false => self.uniq("id"),
      };
      if !self.ids.contains(&id) {
        self.ids.push(id.clone());
        l.id = Some(id);
        if self.ch.chance(30) {
          l.reftext = Some(self.uniq("Ref"));
        }
      }
    }
    l
  }

  fn target(&mut self) -> String {
    match self.ch.weighted(&[5, 4, 1]) {
      0 if !self.ids.is_empty() => self.ch.pick(&self.ids.clone()).clone(),
      2 => self.ch.pick(&["nowhere", "lost", "_lost"]).to_string(),
      // ids yet to come, or made from titles
      1 => self
        .ch
        .pick(&["_alpha", "_beta", "_gamma", "_x", "_alpha_2", "_v1_2", "_bold", "_cd", "_größe", "_two_part", "_alpha_beta"])
        .to_string(),
      _ => format!("id{}", self.ch.range(1, 30)),
    }
  }

  fn pieces(&mut self) -> Vec<Piece> {
    let n = self.ch.range(1, 4);
    let mut out = vec![Piece::Word(self.uniq("w"))];
    for _ in 0..n {
      match self.ch.weighted(&[2, 5, 3, 1]) {
        0 => out.push(Piece::Word(self.uniq("w"))),
        1 => {
          let target = self.target();
          let text = self.ch.chance(30).then(|| self.uniq("link"));
          out.push(Piece::Xref { target, text, form: self.ch.below(4) });
        }
        2 => match self.ch.weighted(&[4, 3, 3]) {
          0 => {
            let t = self.uniq("note");
            out.push(Piece::Note { id: None, text: Some(t) });
          }
          1 => {
            let id = match !self.notes.is_empty() && self.ch.chance(20) {
              true => self.ch.pick(&self.notes.clone()).clone(),
              false => self.uniq("fn"),
            };
            self.notes.push(id.clone());
            let t = self.uniq("note");
            out.push(Piece::Note { id: Some(id), text: Some(t) });
          }
          _ => {
            let id = match self.notes.is_empty() || self.ch.chance(20) {
              true => format!("fn{}", self.ch.range(1, 20)),
              false => self.ch.pick(&self.notes.clone()).clone(),
            };
            out.push(Piece::Note { id: Some(id), text: None });
          }
        },
        _ => {
          let l = self.label(100);
          if let Some(id) = l.id {
            out.push(Piece::Anchor { id, reftext: l.reftext, form: self.ch.below(2) });
          }
        }
      }
    }
    out
  }

  fn block(&mut self, level: u8) -> Item {
    match self.ch.weighted(&[6, 4, 2, 1, 1]) {
      0 => self.para(),
      1 => {
        let kind = *self.ch.pick(&[Kind::Table, Kind::Figure, Kind::Example, Kind::Listing]);
        let mut title = self.ch.chance(85).then(|| self.title());
        title.iter_mut().for_each(|t| self.noted(t));
        let label = self.label(40);
        let caption = match self.ch.weighted(&[8, 1, 1]) {
          1 => Some(format!("{}: ", self.uniq("Cap"))),
          2 => Some(String::new()),
          _ => None,
        };
        Item::Cap { kind, title, label, caption, line: 0 }
      }
      2 => {
        let (name, value): (&'static str, Option<&str>) = *self.ch.pick(&[
          ("table-caption", None),
          ("table-caption", Some("Tbl")),
          ("figure-caption", None),
          ("figure-caption", Some("Fig")),
          ("example-caption", None),
          ("example-caption", Some("Case")),
          ("listing-caption", Some("Listing")),
          ("listing-caption", None),
          ("idprefix", Some("")),
          ("idprefix", Some("s-")),
          ("idprefix", Some("_")),
          ("idseparator", Some("-")),
          ("idseparator", Some("_")),
          ("idseparator", Some("")),
          ("sectids", None),
          ("sectids", Some("")),
        ]);
        Item::Attr { name, value: value.map(str::to_string) }
      }
      3 => {
        let level = self.ch.range(1, 4) as u8;
        let (title, label) = self.heading();
        Item::Discrete { level, title, label, line: 0 }
      }
      _ if self.toc_macro => {
        self.toc_macro = false;
        Item::TocMacro
      }
      _ => {
        let _ = level;
        self.para()
      }
    }
  }

  fn para(&mut self) -> Item {
    let wrap = if self.ch.chance(60) { 0 } else { self.ch.range(1, 10) };
    let label = if matches!(wrap, 0 | 9 | 10) { self.label(30) } else { Label::default() };
    let mut title = (wrap == 0 && self.ch.chance(25)).then(|| self.title());
    title.iter_mut().for_each(|t| self.noted(t));
    Item::Para { pieces: self.pieces(), title, label, wrap, line: 0, text_line: 0 }
  }

  fn blocks(&mut self, max: u64, level: u8) -> Vec<Item> {
    let n = self.ch.below(max + 1);
    (0..n).map(|_| self.block(level)).collect()
  }

  fn section(&mut self, level: u8, appendix: bool) -> Item {
    let (title, label) = self.heading();
    let mut kids = self.blocks(3, level);
    kids = self.chop(kids, true);
    if level < 5 && self.ch.chance(if level == 1 { 55 } else { 35 }) {
      let n = self.ch.range(1, 3);
      let subs = (0..n).map(|_| self.section(level + 1, false)).collect();
      kids.extend(self.chop(subs, false));
    }
    Item::Sec { level, title, label, appendix, kids, line: 0 }
  }

  fn top(&mut self, max: u64) -> Vec<Item> {
    let n = self.ch.range(1, max);
    let mut out = Vec::new();
    for _ in 0..n {
      if self.ch.chance(15) {
        let (name, value) = *self.ch.pick(&[
          ("sectnums", None),
          ("sectnums", Some("")),
          ("sectnums", Some("")),
          ("sectnumlevels", Some("1")),
          ("sectnumlevels", Some("2")),
          ("sectnumlevels", Some("5")),
        ]);
        out.push(Item::Attr { name, value: value.map(str::to_string) });
      }
      let appendix = self.ch.chance(18);
      out.push(self.section(1, appendix));
    }
    self.chop(out, false)
  }

  /// moves runs of complete items into files of their own
  fn chop(&mut self, items: Vec<Item>, blocks: bool) -> Vec<Item> {
    let mut out = Vec::new();
    let mut run: Vec<Item> = Vec::new();
    let mut it = items.into_iter().peekable();
    while let Some(i) = it.next() {
      run.push(i);
      if it.peek().is_some() && self.ch.chance(50) {
        continue;
      }
      let run = std::mem::take(&mut run);
      if !self.ch.chance(if blocks { 20 } else { 40 }) {
        out.extend(run);
        continue;
      }
      let path = format!("/docs/{}.adoc", self.uniq("f"));
      let min = run.iter().filter_map(min_level).min().unwrap_or(9);
      let offset = match !self.offsets || self.ch.chance(50) {
        true => 0,
        // written as though it were a document of its own, or deeper than it ends up
        false if min != 9 && min > 0 => *self.ch.pick(&[1, min as i8, -1]),
        false => *self.ch.pick(&[1, -1, 2]),
      };
      let offset = if fits(&run, offset) { offset } else { 0 };
      let mut inc = Inc { path, items: run, offset, optional: false, fault: Fault::None, torn: None, line: 0 };
      self.fault(&mut inc);
      let twice = self.ch.chance(15) && !has_ids(&inc.items);
      let again = inc.clone();
      out.push(Item::Inc(inc));
      if twice {
        let mut again = again;
        again.fault = Fault::None;
        again.torn = None;
        again.optional = false;
        self.fault(&mut again);
        out.push(Item::Inc(again));
      }
    }
    out
  }

  fn fault(&mut self, inc: &mut Inc) {
    match self.ch.weighted(&[60, 10, 8, 14, 4]) {
      1 => {
        inc.fault = Fault::NotFound;
        inc.optional = self.ch.chance(30);
      }
      2 => inc.fault = Fault::Io("Input/output error (os error 5)".into()),
      3 => inc.torn = Some(self.ch.idx(inc.items.len())),
      4 => inc.optional = true,
      _ => {}
    }
  }
}

fn min_level(i: &Item) -> Option<u8> {
  match i {
    Item::Part { .. } => Some(0),
    Item::Sec { level, .. } => Some(*level),
    Item::Discrete { level, .. } => Some(*level),
    Item::Inc(i) => i.items.iter().filter_map(min_level).min(),
    _ => None,
  }
}

/// every heading can be written at its level less this offset
fn fits(items: &[Item], offset: i8) -> bool {
  items.iter().all(|i| match i {
    Item::Part { .. } => offset == 0,
    // a level 0 heading is none of ours to shift to another level in a document of its own
    Item::Sec { level, kids, .. } => (0..=5).contains(&(*level as i8 - offset)) && fits(kids, offset),
    Item::Discrete { level, .. } => (0..=5).contains(&(*level as i8 - offset)),
    Item::Inc(i) => fits(&i.items, offset + i.offset),
    _ => true,
  })
}

fn has_ids(items: &[Item]) -> bool {
  let aux = |t: &str| t.contains("[[");
  items.iter().any(|i| match i {
    Item::Part { title, label, kids, .. } | Item::Sec { title, label, kids, .. } => {
      label.id.is_some() || aux(title) || has_ids(kids)
    }
    Item::Discrete { label, title, .. } => label.id.is_some() || aux(title),
    Item::Cap { label, title, .. } => label.id.is_some() || title.as_deref().is_some_and(aux),
    Item::Para { label, pieces, title, .. } => {
      label.id.is_some() || title.as_deref().is_some_and(aux) || pieces.iter().any(|p| matches!(p, Piece::Anchor { .. }))
    }
    Item::Inc(i) => has_ids(&i.items),
    Item::TocMacro => true,
    Item::Attr { .. } => false,
  })
}

// --- writing

fn label_lines(l: &Label, style: Option<&str>, extra: &str, out: &mut Vec<String>) {
  let st = style.unwrap_or("");
  match (&l.id, &l.reftext) {
    (None, _) => {
      if style.is_some() || !extra.is_empty() {
        let sep = if st.is_empty() || extra.is_empty() { "" } else { "," };
        out.push(format!("[{st}{sep}{extra}]"));
      }
    }
    (Some(id), r) if l.form == 0 => {
      match r {
        Some(r) => out.push(format!("[[{id},{r}]]")),
        None => out.push(format!("[[{id}]]")),
      }
      if style.is_some() || !extra.is_empty() {
        let sep = if st.is_empty() || extra.is_empty() { "" } else { "," };
        out.push(format!("[{st}{sep}{extra}]"));
      }
    }
    (Some(id), r) => {
      let mut s = match l.form {
        1 => format!("[{st}#{id}"),
        _ if st.is_empty() => format!("[id={id}"),
        _ => format!("[{st},id={id}"),
      };
      if let Some(r) = r {
        s += &format!(",reftext={r}");
      }
      if !extra.is_empty() {
        s += &format!(",{extra}");
      }
      out.push(s + "]");
    }
  }
}

fn piece_src(p: &Piece) -> String {
  match p {
    Piece::Word(w) => w.clone(),
    Piece::Xref { target, text, form } => match (form, text) {
      (0 | 1, None) => format!("<<{target}>>"),
      (0 | 1, Some(t)) => format!("<<{target},{t}>>"),
      (2, None) => format!("<<#{target}>>"),
      (2, Some(t)) => format!("<<#{target},{t}>>"),
      (_, t) => format!("xref:{target}[{}]", t.as_deref().unwrap_or("")),
    },
    Piece::Note { id, text } => {
      format!("footnote:{}[{}]", id.as_deref().unwrap_or(""), text.as_deref().unwrap_or(""))
    }
    Piece::Anchor { id, reftext, form } => match (form, reftext) {
      (0, None) => format!("[[{id}]]"),
      (0, Some(r)) => format!("[[{id},{r}]]"),
      (_, r) => format!("anchor:{id}[{}]", r.as_deref().unwrap_or("")),
    },
  }
}

struct Writer {
  files: BTreeMap<String, Vec<u8>>,
}

impl Writer {
  /// writes the items and notes where each of them went
  fn write(&mut self, items: &mut [Item], shift: i8, out: &mut Vec<String>) {
    for i in items.iter_mut() {
      let heading = |level: u8| "=".repeat((level as i8 - shift + 1) as usize);
      match i {
        Item::Part { title, label, kids, line } => {
          label_lines(label, None, "", out);
          *line = out.len() as u32 + 1;
          out.push(format!("= {title}"));
          out.push(String::new());
          self.write(kids, shift, out);
          continue;
        }
        Item::Sec { level, title, label, appendix, kids, line } => {
          label_lines(label, appendix.then_some("appendix"), "", out);
          *line = out.len() as u32 + 1;
          out.push(format!("{} {title}", heading(*level)));
          out.push(String::new());
          self.write(kids, shift, out);
          continue;
        }
        Item::Discrete { level, title, label, line } => {
          *line = out.len() as u32 + 1;
          label_lines(label, Some("discrete"), "", out);
          out.push(format!("{} {title}", heading(*level)));
        }
        Item::Para { pieces, title, label, wrap, line, text_line } => {
          // the label is the one of a nested list
          if *wrap >= 9 {
            out.push(if *wrap == 9 { "* outer" } else { ". outer" }.into());
          }
          *line = out.len() as u32 + 1;
          label_lines(label, None, "", out);
          if let Some(t) = title {
            out.push(format!(".{t}"));
          }
          let text = pieces.iter().map(piece_src).collect::<Vec<_>>().join(" ");
          let (pre, lead, post): (&[&str], &str, &[&str]) = match wrap {
            1 => (&[], "* ", &[]),
            2 => (&["****"], "", &["****"]),
            3 => (&["____"], "", &["____"]),
            4 => (&["===="], "", &["===="]),
            5 => (&["|==="], "|", &["|==="]),
            6 => (&["|==="], "a|", &["|==="]),
            7 => (&["--"], "", &["--"]),
            8 => (&[], "NOTE: ", &[]),
            9 => (&[], "** ", &[]),
            10 => (&[], ".. ", &[]),
            _ => (&[], "", &[]),
          };
          out.extend(pre.iter().map(|s| s.to_string()));
          *text_line = out.len() as u32 + 1;
          out.push(format!("{lead}{text}"));
          out.extend(post.iter().map(|s| s.to_string()));
          // lists are kept apart
          if matches!(wrap, 1 | 9 | 10) {
            out.push(String::new());
            out.push("//-".into());
          }
        }
        Item::Cap { kind, title, label, caption, line } => {
          *line = out.len() as u32 + 1;
          let extra = caption.as_ref().map(|c| format!("caption=\"{c}\"")).unwrap_or_default();
          label_lines(label, None, &extra, out);
          if let Some(t) = title {
            out.push(format!(".{t}"));
          }
          let body: &[&str] = match kind {
            Kind::Table => &["|===", "|cell", "|==="],
            Kind::Figure => &["image::pic.png[]"],
            Kind::Example => &["====", "inside", "===="],
            Kind::Listing => &["----", "code <<id1>> footnote:[no]", "----"],
          };
          out.extend(body.iter().map(|s| s.to_string()));
        }
        Item::Attr { name, value } => out.push(match value {
          Some(v) => format!(":{name}: {v}").trim_end().to_string(),
          None => format!(":{name}!:"),
        }),
        Item::TocMacro => out.push("toc::[]".into()),
        Item::Inc(inc) => {
          inc.line = out.len() as u32 + 1;
          let mut attrs = Vec::new();
          if inc.offset != 0 {
            attrs.push(format!("leveloffset={:+}", inc.offset));
          }
          if inc.optional {
            attrs.push("opts=optional".into());
          }
          out.push(format!("include::{}[{}]", base(&inc.path), attrs.join(",")));
          let mut lines = Vec::new();
          self.write(&mut inc.items, shift + inc.offset, &mut lines);
          self.files.insert(inc.path.clone(), bytes(&lines));
          if let Some(n) = inc.torn {
            let mut cut = inc.items[..n].to_vec();
            let mut lines = Vec::new();
            self.write(&mut cut, shift + inc.offset, &mut lines);
            inc.fault = Fault::Bytes(bytes(&lines));
          }
        }
      }
      out.push(String::new());
    }
  }
}

fn base(p: &str) -> &str {
  p.rsplit('/').next().unwrap()
}

fn bytes(lines: &[String]) -> Vec<u8> {
  lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes()
}

// --- the reference

/// something arrived
enum Ev<'a> {
  Part { title: &'a str, label: &'a Label, at: (String, u32), secs: usize },
  Sec { level: u8, title: &'a str, label: &'a Label, appendix: bool, at: (String, u32) },
  Discrete { level: u8, title: &'a str, label: &'a Label, at: (String, u32) },
  Para { pieces: &'a [Piece], title: Option<&'a str>, label: &'a Label, at: (String, u32), text_at: (String, u32) },
  Cap { kind: Kind, title: Option<&'a str>, label: &'a Label, caption: Option<&'a str>, at: (String, u32) },
  Attr(&'a str, Option<&'a str>),
  Toc,
  /// that something is missing is shown
  Gone,
}

#[derive(Default)]
struct Arrived<'a> {
  evs: Vec<Ev<'a>>,
  plan: Vec<Fault>,
  reads: Vec<String>,
  diags: Vec<(String, u32, String)>,
}

fn arrive<'a>(items: &'a [Item], file: &str, out: &mut Arrived<'a>) {
  let at = |line: u32| (file.to_string(), line);
  for i in items {
    match i {
      Item::Part { title, label, kids, line } => {
        let n = out.evs.len();
        out.evs.push(Ev::Part { title, label, at: at(*line), secs: 0 });
        arrive(kids, file, out);
        let count = out.evs[n..].iter().filter(|e| matches!(e, Ev::Sec { .. })).count();
        if let Ev::Part { secs, .. } = &mut out.evs[n] {
          *secs = count;
        }
      }
      Item::Sec { level, title, label, appendix, kids, line } => {
        out.evs.push(Ev::Sec { level: *level, title, label, appendix: *appendix, at: at(*line) });
        arrive(kids, file, out);
      }
      Item::Discrete { level, title, label, line } => {
        out.evs.push(Ev::Discrete { level: *level, title, label, at: at(*line) })
      }
      Item::Para { pieces, title, label, line, text_line, .. } => out.evs.push(Ev::Para {
        pieces,
        title: title.as_deref(),
        label,
        at: at(*line),
        text_at: at(*text_line),
      }),
      Item::Cap { kind, title, label, caption, line } => out.evs.push(Ev::Cap {
        kind: *kind,
        title: title.as_deref(),
        label,
        caption: caption.as_deref(),
        at: at(*line),
      }),
      Item::Attr { name, value } => out.evs.push(Ev::Attr(name, value.as_deref())),
      Item::TocMacro => out.evs.push(Ev::Toc),
      Item::Inc(inc) => {
        out.plan.push(inc.fault.clone());
        out.reads.push(inc.path.clone());
        match &inc.fault {
          Fault::NotFound if inc.optional => {}
          Fault::NotFound => {
            out.evs.push(Ev::Gone);
            out.diags.push((file.into(), inc.line, "Include error: File not found".into()))
          }
          Fault::Io(e) => {
            out.evs.push(Ev::Gone);
            out.diags.push((file.into(), inc.line, format!("Include error: I/O error: {e}")))
          }
          _ => {
            let n = inc.torn.unwrap_or(inc.items.len());
            arrive(&inc.items[..n], &inc.path, out);
          }
        }
      }
    }
  }
}

#[derive(Debug, Clone, PartialEq)]
enum Feat {
  Heading { level: u8, id: Option<String>, discrete: bool, text: String },
  Title(String),
  Xref { href: String, text: String },
  /// (number, first)
  Note(u32, bool),
  NoteLost(String),
  Toc,
}

#[derive(Debug, PartialEq, Default)]
struct Expect {
  feats: Vec<Feat>,
  toc: Vec<(usize, Option<String>, String)>,
  notes: Vec<String>,
  diags: Vec<(String, u32, String)>,
  /// anchors within titles
  aux: Vec<String>,
  /// a section is given an id that is taken: out of scope
  clash: bool,
}

#[derive(Debug, Clone, Default)]
struct Settings {
  attrs: BTreeMap<String, String>,
  toc: Option<&'static str>,
  toc_line: u32,
  book: bool,
  titled: bool,
}

/// as shown where it is repeated: no anchors, no notes
fn plain(title: &str) -> String {
  unescape(&bare(title).replace(['*', '`'], ""))
}

fn aux_id(title: &str) -> Option<&str> {
  let (_, rest) = title.split_once("[[")?;
  Some(rest.split_once("]]")?.0)
}

fn note_of(title: &str) -> Option<&str> {
  Some(title.split_once("footnote:[")?.1.trim_end_matches(']'))
}

fn bare(title: &str) -> String {
  let t = title.split("footnote:[").next().unwrap();
  match aux_id(t) {
    Some(id) => t.replace(&format!("[[{id}]]"), ""),
    None => t.to_string(),
  }
}

fn auto_id(title: &str, attrs: &BTreeMap<String, String>, used: &BTreeSet<String>) -> String {
  let prefix = attrs.get("idprefix").map(String::as_str).unwrap_or("_");
  let sep = match attrs.get("idseparator") {
    Some(s) => s.chars().next(),
    None => Some('_'),
  };
  let mut id = String::from(prefix);
  let text = ["&amp;", "&lt;", "&gt;"].iter().fold(bare(title), |t, e| t.replace(e, ""));
  for c in text.chars() {
    if matches!(c, ' ' | '-' | '.') {
      if let Some(s) = sep
        && !id.ends_with(s)
      {
        id.push(s);
      }
    } else if c.is_alphanumeric() {
      id.extend(c.to_lowercase());
    }
  }
  let base = id.clone();
  let mut n = 2;
  while used.contains(&id) {
    id = match sep {
      Some(s) => format!("{base}{s}{n}"),
      None => format!("{base}{n}"),
    };
    n += 1;
  }
  id
}

#[derive(Clone, Default)]
struct Nums {
  nums: [u32; 6],
  parts: u32,
  letters: u32,
  appendix: bool,
}

impl Nums {
  fn prefix(&mut self, attrs: &BTreeMap<String, String>, book: bool, level: u8, appendix: bool) -> String {
    if appendix {
      self.appendix = true;
      self.letters += 1;
      self.nums[2..].fill(0);
      let l = (b'A' + self.letters as u8 - 1) as char;
      return match attrs.get("appendix-caption") {
        Some(c) if !c.is_empty() => format!("{c} {l}: "),
        Some(_) => format!("{l}: "),
        None => format!("{l}. "),
      };
    }
    if level == 1 {
      self.appendix = false;
    }
    let max: u8 = attrs.get("sectnumlevels").and_then(|v| v.parse().ok()).unwrap_or(3);
    if !attrs.contains_key("sectnums") || level > max {
      return String::new();
    }
    self.nums[level as usize] += 1;
    self.nums[level as usize + 1..].fill(0);
    let mut s = String::new();
    if level == 1
      && book
      && let Some(c) = attrs.get("chapter-signifier")
    {
      s = format!("{c} ");
    }
    for l in 1..=level {
      match l == 1 && self.appendix {
        true => s.push((b'A' + self.letters as u8 - 1) as char),
        false => s += &self.nums[l as usize].to_string(),
      }
      s.push('.');
    }
    s + " "
  }

  fn part(&mut self, attrs: &BTreeMap<String, String>) -> String {
    if !attrs.contains_key("partnums") {
      return String::new();
    }
    self.parts += 1;
    let roman = ["I", "II", "III", "IV", "V", "VI", "VII", "VIII"][self.parts as usize - 1];
    match attrs.get("part-signifier") {
      Some(s) => format!("{s} {roman}: "),
      None => format!("{roman}: "),
    }
  }
}

fn title_of<'a>(e: &Ev<'a>) -> Option<&'a str> {
  match e {
    Ev::Part { title, .. } | Ev::Sec { title, .. } | Ev::Discrete { title, .. } => Some(title),
    Ev::Para { title, .. } | Ev::Cap { title, .. } => *title,
    _ => None,
  }
}

fn reference(set: &Settings, arr: &Arrived) -> Expect {
  let mut exp = Expect { diags: arr.diags.clone(), ..Expect::default() };
  // first pass: ids, in the order the text arrives
  let mut attrs = set.attrs.clone();
  let mut used: BTreeSet<String> = BTreeSet::new();
  let mut anchors: BTreeMap<String, String> = BTreeMap::new();
  let mut ids: Vec<Option<String>> = Vec::new();
  let anchor = |id: &str, text: String, at: &(String, u32), anchors: &mut BTreeMap<String, String>, used: &mut BTreeSet<String>, diags: &mut Vec<(String, u32, String)>| {
    if anchors.contains_key(id) {
      diags.push((at.0.clone(), at.1, "Duplicate anchor id".into()));
    } else {
      anchors.insert(id.to_string(), text);
    }
    used.insert(id.to_string());
  };
  for e in &arr.evs {
    let mut got = None;
    if let Some(id) = title_of(e).and_then(aux_id) {
      anchor(id, String::new(), &(String::new(), 0), &mut anchors, &mut used, &mut exp.diags);
      exp.aux.push(id.to_string());
    }
    match e {
      Ev::Attr(n, v) => set_attr(&mut attrs, n, *v),
      Ev::Part { title, label, .. } | Ev::Sec { title, label, .. } | Ev::Discrete { title, label, .. } => {
        got = match &label.id {
          Some(id) => Some(id.clone()),
          None if attrs.contains_key("sectids") => Some(auto_id(title, &attrs, &used)),
          None => None,
        };
        if let Some(id) = &got {
          exp.clash |= !used.insert(id.clone());
          let discrete = matches!(e, Ev::Discrete { .. });
          if !discrete || label.id.is_some() || !anchors.contains_key(id) {
            anchors.insert(id.clone(), label.reftext.clone().unwrap_or_else(|| plain(title)));
          }
        }
      }
      Ev::Para { pieces, title, label, at, text_at } => {
        for p in pieces.iter() {
          if let Piece::Anchor { id, reftext, .. } = p {
            anchor(id, reftext.clone().unwrap_or_default(), text_at, &mut anchors, &mut used, &mut exp.diags);
          }
        }
        if let Some(id) = &label.id {
          let t = label.reftext.clone().or(title.map(plain)).unwrap_or_default();
          anchor(id, t, at, &mut anchors, &mut used, &mut exp.diags);
        }
      }
      Ev::Cap { title, label, at, .. } => {
        if let Some(id) = &label.id {
          let t = label.reftext.clone().or(title.map(plain)).unwrap_or_default();
          anchor(id, t, at, &mut anchors, &mut used, &mut exp.diags);
        }
      }
      Ev::Toc | Ev::Gone => {}
    }
    ids.push(got);
  }
  // second pass: what is counted, and what refers to it
  let mut attrs = set.attrs.clone();
  let mut nums = Nums::default();
  let mut caps: BTreeMap<Kind, u32> = BTreeMap::new();
  let mut notes: Vec<(Option<String>, String)> = Vec::new();
  let mut toc_attrs = (set.toc.is_some() && set.toc != Some("macro")).then(|| attrs.clone());
  if !set.titled {
    // attribute entries before anything else are the header
    for e in &arr.evs {
      match (e, &mut toc_attrs) {
        (Ev::Attr(n, v), Some(attrs)) => set_attr(attrs, n, *v),
        _ => break,
      }
    }
  }
  let mut toc_macro = false;
  let sections = arr.evs.iter().any(|e| matches!(e, Ev::Sec { .. } | Ev::Part { .. }));
  let mut begun = false;
  let note = |title: &str, feats: &mut Vec<Feat>, notes: &mut Vec<(Option<String>, String)>| {
    if let Some(t) = note_of(title) {
      notes.push((None, t.to_string()));
      feats.push(Feat::Note(notes.len() as u32, true));
    }
  };
  for (e, id) in arr.evs.iter().zip(&ids) {
    begun |= matches!(e, Ev::Sec { .. } | Ev::Part { .. });
    match e {
      Ev::Attr(n, v) => {
        set_attr(&mut attrs, n, *v);
        if set.toc == Some("preamble") && !begun {
          toc_attrs = Some(attrs.clone());
        }
      }
      Ev::Gone => {}
      Ev::Toc => {
        toc_macro = true;
        toc_attrs = Some(attrs.clone());
        if sections {
          exp.feats.push(Feat::Toc);
        }
      }
      Ev::Part { title, at, secs, .. } => {
        let p = nums.part(&attrs);
        exp.feats.push(Feat::Heading { level: 0, id: id.clone(), discrete: false, text: p + &plain(title) });
        note(title, &mut exp.feats, &mut notes);
        if *secs == 0 {
          exp.diags.push((at.0.clone(), at.1, "Invalid empty book part, must have at least one section".into()));
        }
      }
      Ev::Sec { level, title, appendix, .. } => {
        let p = nums.prefix(&attrs, set.book, *level, *appendix);
        exp.feats.push(Feat::Heading { level: *level, id: id.clone(), discrete: false, text: p + &plain(title) });
        note(title, &mut exp.feats, &mut notes);
      }
      Ev::Discrete { level, title, .. } => {
        exp.feats.push(Feat::Heading { level: *level, id: id.clone(), discrete: true, text: plain(title) });
        note(title, &mut exp.feats, &mut notes);
      }
      Ev::Cap { kind, title, caption, .. } => {
        if let Some(t) = title {
          let t = plain(t);
          exp.feats.push(Feat::Title(match (caption, attrs.get(kind.attr())) {
            (Some(c), _) => format!("{c}{t}"),
            (None, None) => t,
            (None, Some(l)) => {
              let n = caps.entry(*kind).or_default();
              *n += 1;
              format!("{l} {n}. {t}")
            }
          }));
          note(title.unwrap(), &mut exp.feats, &mut notes);
        }
      }
      Ev::Para { pieces, title, text_at, .. } => {
        if let Some(t) = title {
          exp.feats.push(Feat::Title(plain(t)));
          note(t, &mut exp.feats, &mut notes);
        }
        for p in pieces.iter() {
          match p {
            Piece::Word(_) | Piece::Anchor { .. } => {}
            Piece::Xref { target, text, .. } => {
              let t = match (text, anchors.get(target)) {
                (Some(t), _) => t.clone(),
                (None, Some(t)) if !t.is_empty() => t.clone(),
                _ => format!("[{target}]"),
              };
              if !anchors.contains_key(target) {
                exp.diags.push((
                  text_at.0.clone(),
                  text_at.1,
                  format!("Invalid cross reference, no anchor found for `{target}`"),
                ));
              }
              exp.feats.push(Feat::Xref { href: format!("#{target}"), text: t });
            }
            Piece::Note { id, text } => {
              let prev = id.as_ref().and_then(|i| notes.iter().position(|n| n.0.as_ref() == Some(i)));
              match (prev, text) {
                (Some(p), _) => exp.feats.push(Feat::Note(p as u32 + 1, false)),
                (None, Some(t)) => {
                  notes.push((id.clone(), t.clone()));
                  exp.feats.push(Feat::Note(notes.len() as u32, true));
                }
                (None, None) => exp.feats.push(Feat::NoteLost(id.clone().unwrap())),
              }
            }
          }
        }
      }
    }
  }
  exp.notes = notes.into_iter().map(|n| n.1).collect();
  match set.toc {
    Some("macro") if !toc_macro => exp.diags.push((
      MAIN.into(),
      set.toc_line,
      "Table of Contents set to `macro` but macro (`toc::[]`) not found".into(),
    )),
    Some("preamble") if !sections => exp.diags.push((
      MAIN.into(),
      set.toc_line,
      "Table of Contents set to `preamble` but no preamble found".into(),
    )),
    _ => {}
  }
  // the table of contents lists the sections, numbered as they are
  if let Some(toc_attrs) = toc_attrs {
    let levels: u8 = set.attrs.get("toclevels").map_or(2, |v| v.parse().unwrap());
    let mut nums = Nums::default();
    for (e, id) in arr.evs.iter().zip(&ids) {
      let (level, text) = match e {
        Ev::Part { title, .. } => (0, nums.part(&toc_attrs) + &plain(title)),
        Ev::Sec { level, title, appendix, .. } if *level <= levels => {
          (*level, nums.prefix(&toc_attrs, set.book, *level, *appendix) + &plain(title))
        }
        _ => continue,
      };
      exp.toc.push((level as usize, id.clone(), text));
    }
  }
  exp
}

fn set_attr(attrs: &mut BTreeMap<String, String>, n: &str, v: Option<&str>) {
  match v {
    Some(v) => attrs.insert(n.into(), v.into()),
    None => attrs.remove(n),
  };
}

// --- what was rendered

#[derive(Debug)]
enum Cap {
  Heading(u8, Option<String>, bool),
  Title,
  A(String, Option<String>),
  Lost,
  Note,
  TocA(usize, Option<String>),
}

fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
  let i = tag.find(&format!(" {name}=\""))?;
  let rest = &tag[i + name.len() + 3..];
  Some(&rest[..rest.find('"')?])
}

fn unescape(s: &str) -> String {
  s.replace("&lt;", "<").replace("&gt;", ">").replace("&#8217;", "'").replace("&#8203;", "").replace("&amp;", "&")
}

fn read(html: &str) -> Expect {
  let mut out = Expect::default();
  let mut stack: Vec<String> = Vec::new();
  let mut caps: Vec<(usize, Cap, String, usize)> = Vec::new();
  let mut toc: Option<(usize, usize)> = None;
  let mut rest = html;
  while let Some(lt) = rest.find('<') {
    let text = unescape(&rest[..lt]);
    for c in &mut caps {
      c.2.push_str(&text);
    }
    rest = &rest[lt..];
    let Some(gt) = rest.find('>') else { break };
    let tag = &rest[..gt];
    rest = &rest[gt + 1..];
    if let Some(name) = tag.strip_prefix("</") {
      while let Some(top) = stack.pop() {
        while caps.last().is_some_and(|c| c.0 > stack.len()) {
          let (_, c, t, at) = caps.pop().unwrap();
          finish(&mut out, c, t, at);
        }
        if toc.is_some_and(|(d, _)| d > stack.len()) {
          toc = None;
        }
        if top == name {
          break;
        }
      }
      if let Some((_, n)) = &mut toc
        && (name == "ul" || name == "ol")
      {
        *n -= 1;
      }
      continue;
    }
    let name = tag[1..].split([' ', '/']).next().unwrap();
    if ["img", "hr", "br", "col", "meta", "link", "input", "!DOCTYPE", "!--"].contains(&name) {
      continue;
    }
    stack.push(name.to_string());
    let d = stack.len();
    let class = attr(tag, "class").unwrap_or("");
    let has = |c: &str| class.split(' ').any(|x| x == c);
    if attr(tag, "id") == Some("toc") && (name == "div" || name == "nav") {
      toc = Some((d, 0));
      out.feats.push(Feat::Toc);
      continue;
    }
    if let Some((_, n)) = &mut toc {
      match name {
        "ul" | "ol" => *n += 1,
        "a" => {
          let c = Cap::TocA(*n, attr(tag, "href").map(str::to_string));
          caps.push((d, c, String::new(), 0));
        }
        _ => {}
      }
      continue;
    }
    let cap = match name {
      "h6" if has("block-title") => Cap::Title,
      "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
        let level = name.as_bytes()[1] - b'1';
        let before = &html[..html.len() - rest.len() - tag.len() - 1];
        if before.ends_with("<header>") || before.ends_with("<div id=\"header\">") {
          continue;
        }
        Cap::Heading(level, attr(tag, "id").map(str::to_string), has("discrete"))
      }
      "div" if class == "title" => Cap::Title,
      "caption" | "figcaption" => Cap::Title,
      "sup" | "span" if has("red") => Cap::Lost,
      "div" | "li" if class == "footnote" => Cap::Note,
      // a note refers back to where it is made
      "a" if caps.iter().any(|c| matches!(c.1, Cap::Note)) => continue,
      "a" if attr(tag, "href").is_some() && !has("anchor") && !has("link") => {
        Cap::A(attr(tag, "href").unwrap().into(), attr(tag, "class").map(|_| tag.to_string()))
      }
      _ => continue,
    };
    out.feats.push(Feat::Toc);
    let at = out.feats.len() - 1;
    caps.push((d, cap, String::new(), at));
  }
  out.feats.retain(|f| !matches!(f, Feat::Note(0, _)));
  out
}

/// a feature takes its place where it started
fn finish(out: &mut Expect, c: Cap, mut text: String, at: usize) {
  let none = Feat::Note(0, false);
  // the mark of a note to the title
  if matches!(c, Cap::Heading(..) | Cap::Title)
    && let Some(i) = text.rfind('[')
    && text[i + 1..].strip_suffix(']').is_some_and(|n| n.parse::<u32>().is_ok())
  {
    text.truncate(i);
  }
  let f = match c {
    Cap::Heading(level, id, discrete) => Feat::Heading { level, id, discrete, text },
    // the label of the admonitions we generate
    Cap::Title if text.trim_end_matches([':', ' ']) == "Note" => none,
    Cap::Title => Feat::Title(text),
    Cap::Lost => Feat::NoteLost(text.trim_matches(['[', ']']).to_string()),
    Cap::A(href, None) => Feat::Xref { href: href.replace("%20", " "), text },
    Cap::A(_, Some(tag)) => {
      if attr(&tag, "class").is_some_and(|c| c == "footnote" || c == "footnote-ref") {
        let n = text.trim_matches(['[', ']']).parse().unwrap_or(999);
        let first = attr(&tag, "id");
        // refers to the very note it is numbered after
        let to = attr(&tag, "href").unwrap_or("");
        let ok = (to == format!("#_footnotedef_{n}") || to == format!("#_footnote_{n}"))
          && first.is_none_or(|i| i == format!("_footnoteref_{n}"));
        Feat::Note(if ok { n } else { 998 }, first.is_some())
      } else {
        none
      }
    }
    Cap::Note => {
      out.notes.push(text);
      none
    }
    Cap::TocA(depth, href) => {
      out.toc.push((depth, href, text));
      return;
    }
  };
  out.feats[at] = f;
}

// --- the check

fn labels(ctx: &mut Ctx) -> Verdict {
  let book = ctx.ch.chance(35);
  let parts = book && ctx.ch.chance(50);
  let mut set = Settings { book, ..Settings::default() };
  let titled = book || ctx.ch.chance(85);
  set.titled = titled;
  let mut head = match titled {
    true => vec!["= Doc Title".to_string()],
    false => vec![],
  };
  if book {
    head.push(":doctype: book".into());
  }
  for (k, v) in [("table-caption", "Table"), ("figure-caption", "Figure"), ("example-caption", "Example"), ("appendix-caption", "Appendix"), ("sectids", "")] {
    set.attrs.insert(k.into(), v.into());
  }
  // as the defaults are
  if book {
    for (k, v) in [("chapter-signifier", "Chapter"), ("part-signifier", "Part")] {
      if ctx.ch.chance(40) {
        head.push(format!(":{k}: {v}"));
        set.attrs.insert(k.into(), v.into());
      }
    }
    if ctx.ch.chance(60) {
      head.push(":partnums:".into());
      set.attrs.insert("partnums".into(), String::new());
    }
  }
  if ctx.ch.chance(if titled { 65 } else { 30 }) {
    head.push(":sectnums:".into());
    set.attrs.insert("sectnums".into(), String::new());
  }
  for (k, vs) in [
    ("sectnumlevels", &["0", "1", "2", "4", "5"][..]),
    ("toclevels", &["1", "2", "3", "5"]),
    ("appendix-caption", &["App", "!"]),
    ("listing-caption", &["Listing"]),
    ("idprefix", &["", "p_"]),
    ("idseparator", &["-", ""]),
  ] {
    if ctx.ch.chance(if titled { 20 } else { 8 }) {
      let v = *ctx.ch.pick(vs);
      if v == "!" {
        head.push(format!(":{k}!:"));
        set.attrs.remove(k);
      } else {
        head.push(format!(":{k}: {v}").trim_end().to_string());
        set.attrs.insert(k.into(), v.into());
      }
    }
  }
  for k in ["sectanchors", "sectlinks"] {
    if ctx.ch.chance(10) {
      head.push(format!(":{k}:"));
    }
  }
  set.toc = [None, Some(""), Some("left"), Some("macro"), Some("preamble")][ctx.ch.weighted(&[4, 3, 1, 3, 2])];
  if !titled && set.toc == Some("preamble") {
    set.toc = None;
  }
  if let Some(t) = set.toc {
    head.push(format!(":toc: {t}").trim_end().to_string());
    set.toc_line = head.len() as u32;
  }
  if !head.is_empty() {
    head.push(String::new());
  }
  let offsets = ctx.ch.chance(50);
  let mut g = Gen { ch: &mut ctx.ch, n: 0, ids: Vec::new(), notes: Vec::new(), toc_macro: set.toc == Some("macro"), offsets };
  let mut items = Vec::new();
  if set.toc == Some("preamble") || g.ch.chance(50) {
    items.push(Item::Para { pieces: vec![Piece::Word("intro".into())], title: None, label: Label::default(), wrap: 0, line: 0, text_line: 0 });
    let more = g.blocks(3, 0);
    items.extend(g.chop(more, true));
  }
  if parts {
    let n = g.ch.range(1, 3);
    let mut ps = Vec::new();
    for _ in 0..n {
      let (title, label) = g.heading();
      let mut kids = match g.ch.chance(30) {
        true => vec![g.para()],
        false => vec![],
      };
      kids.extend(g.top(3));
      ps.push(Item::Part { title, label, kids, line: 0 });
    }
    items.extend(g.chop(ps, false));
  } else {
    items.extend(g.top(5));
  }
  if g.toc_macro && g.ch.chance(80) && !parts {
    let at = g.ch.idx(items.len() + 1);
    items.insert(at, Item::TocMacro);
  }
  let mut w = Writer { files: BTreeMap::new() };
  let mut lines = head;
  w.write(&mut items, 0, &mut lines);
  let mut arr = Arrived::default();
  arrive(&items, MAIN, &mut arr);
  let want = reference(&set, &arr);
  if want.clash {
    ctx.count("left out: a section is given an id that is taken");
    return Ok(());
  }

  let mut job = Job::new(String::from_utf8(bytes(&lines)).unwrap(), MAIN);
  job.embedded = ctx.ch.chance(75);
  job.backend = if ctx.ch.chance(40) { Backend::Html5s } else { Backend::DrHtml };
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server]);
  let world = World { base_dir: Some("/docs".into()), max_calls: 400, files: w.files, plan: arr.plan.clone(), ..World::default() };
  ctx.log(format!("main {MAIN}:\n{}", job.src));
  for (p, b) in &world.files {
    ctx.log(format!("file {p}:\n{}", String::from_utf8_lossy(b)));
  }
  ctx.log(format!("fault plan: {:?}", arr.plan.iter().map(|f| match f {
    Fault::Bytes(b) => format!("torn after {} bytes", b.len()),
    f => format!("{f:?}"),
  }).collect::<Vec<_>>()));
  let world = Rc::new(RefCell::new(world));
  let out = convert(&job, Some(world.clone()));
  ctx.count("conversions");
  let reads: Vec<String> = world.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  ctx.add("reads", reads.len() as u64);
  for f in arr.plan.iter().take(reads.len()) {
    match f {
      Fault::None => {}
      Fault::Bytes(_) => ctx.count("fault:torn_at_block"),
      f => ctx.count(&format!("fault:{}", f.name())),
    }
  }
  ctx.nontrivial = !want.feats.is_empty();
  let shape: String = want
    .feats
    .iter()
    .map(|f| match f {
      Feat::Heading { level, discrete, text, .. } => {
        format!("h{level}{discrete}{}", text.chars().next().is_some_and(|c| c.is_ascii_digit()))
      }
      Feat::Title(t) => format!("t{}", t.contains(". ")),
      Feat::Xref { text, .. } => format!("x{}", text.starts_with('[')),
      Feat::Note(_, f) => format!("n{f}"),
      Feat::NoteLost(_) => "l".into(),
      Feat::Toc => "T".into(),
    })
    .chain(arr.plan.iter().map(|f| f.name().to_string()))
    .collect();
  ctx.state(fnv_str(&shape));
  ctx.add("headings", want.feats.iter().filter(|f| matches!(f, Feat::Heading { .. })).count() as u64);
  ctx.add("captions", want.feats.iter().filter(|f| matches!(f, Feat::Title(_))).count() as u64);
  ctx.add("xrefs", want.feats.iter().filter(|f| matches!(f, Feat::Xref { .. })).count() as u64);
  ctx.add("footnotes", want.notes.len() as u64);
  ctx.add("toc_entries", want.toc.len() as u64);
  if let Out::Panic(m) = &out {
    return Err(viol("panic", format!("conversion panicked: {m}")));
  }
  let Some(html) = out.html() else {
    return Err(viol("no-output", out.show()));
  };
  if reads != arr.reads {
    return Err(viol("reads", format!("storage reads {reads:?}\nexpected {:?}", arr.reads)));
  }
  let body = match html.find("<body") {
    Some(i) => &html[i..],
    None => html,
  };
  let mut got = read(body);
  // the table of contents has its own place only where a macro puts it
  if set.toc != Some("macro") {
    got.feats.retain(|f| *f != Feat::Toc);
  }
  let n = want.feats.len().max(got.feats.len());
  for i in 0..n {
    if want.feats.get(i) != got.feats.get(i) {
      let class = match want.feats.get(i).or(got.feats.get(i)) {
        Some(Feat::Heading { .. }) => "heading",
        Some(Feat::Title(_)) => "caption",
        Some(Feat::Xref { .. }) => "xref",
        Some(Feat::Note(..) | Feat::NoteLost(_)) => "footnote",
        _ => "toc-place",
      };
      return Err(viol(
        class,
        format!("item {i}: expected {:?}\nrendered {:?}\nhtml: {body}", want.feats.get(i), got.feats.get(i)),
      ));
    }
  }
  for id in &want.aux {
    let n = html.matches(&format!(" id=\"{id}\"")).count();
    if n != 1 {
      return Err(viol("anchor", format!("{n} elements have the id {id}, which is in a title\nhtml: {body}")));
    }
  }
  // what a reference points at is there
  for f in &want.feats {
    if let Feat::Xref { href, .. } = f
      && let Some(id) = href.strip_prefix('#')
      && !want.diags.iter().any(|d| d.2.ends_with(&format!("`{id}`")))
      && !html.contains(&format!(" id=\"{id}\""))
    {
      return Err(viol("target", format!("nothing has the id {id}\nhtml: {body}")));
    }
  }
  let html5 = job.backend == Backend::Html5s;
  let want_notes: Vec<String> = want
    .notes
    .iter()
    .enumerate()
    .map(|(i, t)| if html5 { format!("{t} &#8617;") } else { format!("{}. {t}", i + 1) })
    .collect();
  if got.notes != want_notes {
    return Err(viol("footnote-list", format!("expected {want_notes:?}\nrendered {:?}\nhtml: {body}", got.notes)));
  }
  let toc: Vec<(Option<String>, String)> =
    got.toc.iter().map(|(_, h, t)| (h.clone().map(|h| h.trim_start_matches('#').to_string()), t.clone())).collect();
  let want_toc: Vec<(Option<String>, String)> =
    want.toc.iter().map(|(_, i, t)| (Some(i.clone().unwrap_or_default()), t.clone())).collect();
  if toc != want_toc {
    return Err(viol("toc", format!("expected {want_toc:?}\nrendered {toc:?}\nhtml: {body}")));
  }
  // nested as the sections are
  let mut stack: Vec<usize> = Vec::new();
  for (w, g) in want.toc.iter().zip(&got.toc) {
    while stack.last().is_some_and(|l| *l >= w.0) {
      stack.pop();
    }
    stack.push(w.0);
    if stack.len() != g.0 {
      return Err(viol("toc-nesting", format!("{:?} is nested {} deep, expected {}\nhtml: {body}", g.2, g.0, stack.len())));
    }
  }
  let mut got: Vec<(String, u32, String)> =
    out.diags().iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  let mut want_d = want.diags.clone();
  got.sort();
  want_d.sort();
  // one line may refer to the same missing thing twice, at two columns
  ctx.add("warnings", got.len() as u64);
  if got != want_d {
    return Err(viol("diagnostics", format!("reported {got:?}\nexpected {want_d:?}")));
  }
  Ok(())
}
