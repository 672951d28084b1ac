//! Documents split over simulated storage: any slice of a document's lines may live in
//! another file, reached through an include directive; the flat document is the oracle.
use crate::docgen::L;
use crate::rt::Choices;
use crate::world::{Fault, World, norm};
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Node {
  Line(L),
  Inc(Box<Inc>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Enc {
  Utf8,
  Utf8Bom,
  Utf16LeBom,
  Utf16BeBom,
  Utf16LeAttr,
}

#[derive(Debug, Clone)]
pub struct Inc {
  pub target: String,
  pub path: String,
  pub attrs: Vec<String>,
  pub nodes: Vec<Node>,
  pub before: Vec<String>,
  pub after: Vec<String>,
  pub enc: Enc,
  pub crlf: bool,
  pub trailing_ws: bool,
  pub final_nl: bool,
  pub leveloffset: i32,
  pub shift: usize,
  pub optional: bool,
  pub fault: Fault,
  /// consists of whole blocks: losing it leaves the structure of everything else alone
  pub whole: bool,
}

impl Inc {
  pub fn directive(&self) -> String {
    format!("include::{}[{}]", self.target, self.attrs.join(","))
  }
}

#[derive(Debug, Clone, Copy)]
pub struct TreeOpts {
  pub max_depth: usize,
  pub pct_more: u64,
  pub select: bool,
  pub offsets: bool,
  pub encodings: bool,
  pub dirs: bool,
  pub indent: bool,
  pub repeat: bool,
}

pub struct TreeGen<'a> {
  pub ch: &'a mut Choices,
  pub opts: TreeOpts,
  pub n: usize,
}

fn dirname(p: &str) -> String {
  match p.rfind('/') {
    Some(0) => "/".into(),
    Some(i) => p[..i].into(),
    None => "".into(),
  }
}

/// (smallest, largest) heading marker length in the nodes, through nested files
fn head_range(nodes: &[Node]) -> Option<(i32, i32)> {
  let mut r: Option<(i32, i32)> = None;
  for n in nodes {
    let x = match n {
      Node::Line(l) if l.head => {
        let k = l.text.chars().take_while(|c| *c == '=').count() as i32;
        Some((k, k))
      }
      Node::Inc(i) => head_range(&i.nodes),
      _ => None,
    };
    if let Some((a, b)) = x {
      r = Some(match r {
        None => (a, b),
        Some((c, d)) => (a.min(c), b.max(d)),
      });
    }
  }
  r
}

fn count_delims(nodes: &[Node], m: &mut BTreeMap<String, u32>) {
  for n in nodes {
    match n {
      Node::Line(l)
        if ["----", "....", "```", "====", "****", "____", "--", "++++", "////", "|===", ",==="]
          .contains(&l.text.as_str()) =>
      {
        *m.entry(l.text.clone()).or_insert(0) += 1
      }
      Node::Inc(i) => count_delims(&i.nodes, m),
      _ => {}
    }
  }
}

fn balanced(nodes: &[Node]) -> bool {
  let mut m = BTreeMap::new();
  count_delims(nodes, &mut m);
  m.values().all(|n| n % 2 == 0)
}

impl TreeGen<'_> {
  /// wrap up to `count` random slices of `nodes` in includes
  pub fn split(
    &mut self,
    nodes: Vec<Node>,
    count: u64,
    depth: usize,
    dir: &str,
    offset_sum: i32,
  ) -> Vec<Node> {
    let mut nodes = nodes;
    for _ in 0..count {
      let starts: Vec<usize> = (0..nodes.len())
        .filter(|i| match &nodes[*i] {
          Node::Line(l) => !l.glue,
          Node::Inc(_) => false,
        })
        .collect();
      if starts.is_empty() {
        break;
      }
      let a = starts[self.ch.idx(starts.len())];
      let maxlen = nodes.len() - a;
      let want = 1 + self.ch.idx(maxlen.min(14));
      let mut b = a;
      while b < nodes.len() && b - a < want {
        if matches!(nodes[b], Node::Inc(_)) {
          break;
        }
        b += 1;
      }
      // do not cut in front of a glued line
      while b < nodes.len() && matches!(&nodes[b], Node::Line(l) if l.glue) {
        b += 1;
      }
      if b == a {
        continue;
      }
      let blank = |n: Option<&Node>, edge: bool| match n {
        Some(Node::Line(l)) => l.text.is_empty(),
        Some(_) => false,
        None => edge,
      };
      let whole = blank(a.checked_sub(1).and_then(|i| nodes.get(i)), depth == 0)
        && blank(nodes.get(b), depth == 0)
        && balanced(&nodes[a..b]);
      let slice: Vec<Node> = nodes.drain(a..b).collect();
      let mut inc = self.wrap(slice, depth, dir, offset_sum);
      inc.whole = whole;
      nodes.insert(a, Node::Inc(Box::new(inc)));
    }
    nodes
  }

  fn wrap(&mut self, slice: Vec<Node>, depth: usize, dir: &str, offset_sum: i32) -> Inc {
    let id = self.n;
    self.n += 1;
    let all_verb = slice.iter().all(|n| matches!(n, Node::Line(l) if l.verb));
    let ext = match self.ch.weighted(&[6, 1, 1, 1]) {
      0 => "adoc",
      1 => "txt",
      2 => "asc",
      _ => "inc",
    };
    let adoc = ext != "inc";
    let (target, path) = if self.opts.dirs {
      match self.ch.weighted(&[5, 3, 2, 1, 1]) {
        0 => (format!("part{id}.{ext}"), norm(&format!("{dir}/part{id}.{ext}"))),
        1 => (format!("sub{id}/part{id}.{ext}"), norm(&format!("{dir}/sub{id}/part{id}.{ext}"))),
        2 => (format!("../part{id}.{ext}"), norm(&format!("{dir}/../part{id}.{ext}"))),
        3 => (format!("/abs/part{id}.{ext}"), format!("/abs/part{id}.{ext}")),
        _ => (format!("./x{id}/../part{id}.{ext}"), norm(&format!("{dir}/part{id}.{ext}"))),
      }
    } else {
      (format!("part{id}.{ext}"), norm(&format!("{dir}/part{id}.{ext}")))
    };
    let mut inc = Inc {
      target,
      path: path.clone(),
      attrs: vec![],
      nodes: vec![],
      before: vec![],
      after: vec![],
      enc: Enc::Utf8,
      crlf: false,
      trailing_ws: false,
      final_nl: true,
      leveloffset: 0,
      shift: 0,
      optional: false,
      fault: Fault::None,
      whole: false,
    };
    if self.opts.offsets && self.ch.chance(35) {
      let k: i32 = *self.ch.pick(&[1, 1, 2, -1]);
      let (lo, hi) = head_range(&slice).unwrap_or((3, 3));
      // stored marker lengths must stay within 1..=6 after removing all offsets
      let s = offset_sum + k;
      if lo - s >= 1 && hi - s <= 6 {
        inc.leveloffset = k;
        inc.attrs.push(format!("leveloffset={k:+}"));
      }
    }
    inc.nodes = slice;
    if depth < self.opts.max_depth && self.ch.chance(self.opts.pct_more) {
      let k = self.ch.range(1, 2);
      let sum = offset_sum + inc.leveloffset;
      let nodes = std::mem::take(&mut inc.nodes);
      inc.nodes = self.split(nodes, k, depth + 1, &dirname(&path), sum);
    }
    let nested = inc.nodes.iter().any(|n| matches!(n, Node::Inc(_)));
    if self.opts.indent && all_verb && !nested && self.ch.chance(50) {
      let m = inc
        .nodes
        .iter()
        .map(|n| match n {
          Node::Line(l) => l.text.chars().take_while(|c| *c == ' ').count(),
          _ => 0,
        })
        .min()
        .unwrap_or(0);
      inc.shift = self.ch.below(4) as usize;
      inc.attrs.push(format!("indent={m}"));
    }
    if self.opts.select && self.ch.chance(35) {
      let pre = self.ch.below(3);
      let post = self.ch.below(3);
      // junk that must not get through; shaped to hurt if it does
      let junk = |i: u64| match i % 3 {
        0 => format!("junk{id} before"),
        1 => format!("== junk{id} heading"),
        _ => String::new(),
      };
      for i in 0..pre {
        inc.before.push(junk(i + id as u64));
      }
      for i in 0..post {
        inc.after.push(junk(i + id as u64 + 1));
      }
      let len = inc.nodes.len() as u64;
      match self.ch.below(4) {
        0 => {
          let (a, b) = (pre + 1, pre + len);
          let v = match self.ch.below(3) {
            0 => format!("lines={a}..{b}"),
            1 if len > 1 => format!("lines=\"{a},{}..{b}\"", a + 1),
            _ => format!("lines={a};{a}..{b}"),
          };
          inc.attrs.push(v);
        }
        1 if post == 0 => inc.attrs.push(format!("lines={}..", pre + 1)),
        k => {
          let (s, e) = if k == 2 { ("// ", "") } else { ("# ", " trailing") };
          inc.before.push(format!("{s}tag::sel{id}[]{e}"));
          inc.after.insert(0, format!("{s}end::sel{id}[]{e}"));
          if self.ch.chance(50) {
            inc.attrs.push(format!("tag=sel{id}"));
          } else {
            inc.attrs.push(format!("tags=sel{id}"));
          }
        }
      }
    }
    if self.opts.encodings && self.ch.chance(50) {
      inc.enc = *self.ch.pick(&[
        Enc::Utf8,
        Enc::Utf8Bom,
        Enc::Utf16LeBom,
        Enc::Utf16BeBom,
        Enc::Utf16LeAttr,
      ]);
      if inc.enc == Enc::Utf16LeAttr {
        inc.attrs.push("encoding=utf-16".into());
      }
      if adoc {
        inc.crlf = self.ch.chance(40);
        inc.trailing_ws = self.ch.chance(40);
      }
      inc.final_nl = !self.ch.chance(40);
    }
    inc
  }
}

fn offset_heading(l: &L, sum: i32) -> String {
  if l.head && sum != 0 {
    let k = l.text.chars().take_while(|c| *c == '=').count() as i32;
    format!("{}{}", "=".repeat((k - sum).max(1) as usize), &l.text[k as usize..])
  } else {
    l.text.clone()
  }
}

pub fn encode(text: &str, enc: Enc) -> Vec<u8> {
  match enc {
    Enc::Utf8 => text.as_bytes().to_vec(),
    Enc::Utf8Bom => [b"\xEF\xBB\xBF".as_slice(), text.as_bytes()].concat(),
    Enc::Utf16LeBom | Enc::Utf16LeAttr => {
      let mut v = if enc == Enc::Utf16LeBom { vec![0xFF, 0xFE] } else { vec![] };
      for u in text.encode_utf16() {
        v.extend(u.to_le_bytes());
      }
      v
    }
    Enc::Utf16BeBom => {
      let mut v = vec![0xFE, 0xFF];
      for u in text.encode_utf16() {
        v.extend(u.to_be_bytes());
      }
      v
    }
  }
}

/// the lines of a stored file, as an editor would show them
pub fn file_lines(inc: &Inc, sum: i32) -> Vec<String> {
  let mut out: Vec<String> = inc.before.clone();
  for n in &inc.nodes {
    match n {
      Node::Line(l) => {
        let t = offset_heading(l, sum);
        out.push(if inc.shift > 0 && !t.is_empty() {
          format!("{}{t}", " ".repeat(inc.shift))
        } else {
          t
        });
      }
      Node::Inc(i) => out.push(i.directive()),
    }
  }
  out.extend(inc.after.iter().cloned());
  out
}

/// write every file of the tree into the simulated storage
pub fn store(nodes: &[Node], sum: i32, files: &mut BTreeMap<String, Vec<u8>>) {
  for n in nodes {
    if let Node::Inc(i) = n {
      let s = sum + i.leveloffset;
      let lines = file_lines(i, s);
      let nl = if i.crlf { "\r\n" } else { "\n" };
      let mut text = String::new();
      for (k, l) in lines.iter().enumerate() {
        text.push_str(l);
        if i.trailing_ws && k % 2 == 0 && !l.is_empty() {
          text.push_str("  \t");
        }
        // an empty last line only exists if it is terminated
        if k + 1 < lines.len() || i.final_nl || l.is_empty() {
          text.push_str(nl);
        }
      }
      files.insert(i.path.clone(), encode(&text, i.enc));
      store(&i.nodes, s, files);
    }
  }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Origin {
  pub file: String,
  pub line: u32,
  /// the line as miscounted by known finding `tag-line-numbers`
  pub alt: u32,
}

#[derive(Default, Debug)]
pub struct Flat {
  pub lines: Vec<(String, Origin)>,
  /// what the reference expects of storage: path of every read, in order
  pub reads: Vec<String>,
  /// fault for each read
  pub plan: Vec<Fault>,
  /// faults for reads retained (literally passed through) in the flat text
  pub flat_plan: Vec<Fault>,
  /// (file, line, message) expected on top of the flat document's own warnings
  pub warns: Vec<(Origin, String)>,
}

pub fn base_name(p: &str) -> &str {
  p.rsplit('/').next().unwrap_or(p)
}

/// The reference preprocessor: what the document is if every directive is replaced by
/// exactly what its one read delivered, or by the documented placeholder.
/// `unselected`: lines in front which tag selection dropped
pub fn flatten(nodes: &[Node], file: &str, first_line: u32, unselected: u32, out: &mut Flat) {
  let mut ln = first_line;
  for n in nodes {
    let here = Origin { file: file.to_string(), line: ln, alt: ln - unselected };
    match n {
      Node::Line(l) => out.lines.push((l.text.clone(), here)),
      Node::Inc(i) => {
        out.reads.push(i.path.clone());
        out.plan.push(i.fault.clone());
        let warn = |m: &str, out: &mut Flat| {
          out.warns.push((here.clone(), m.to_string()))
        };
        match &i.fault {
          Fault::None => {
            let junk = match i.attrs.iter().any(|a| a.starts_with("tag")) {
              true => i.before.len() as u32 - 1,
              false => 0,
            };
            flatten(&i.nodes, &i.path, 1 + i.before.len() as u32, junk, out);
          }
          Fault::NotFound if i.optional => {}
          Fault::NotFound | Fault::Io(_) => {
            let m = match &i.fault {
              Fault::Io(e) => format!("Include error: I/O error: {e}"),
              _ => "Include error: File not found".to_string(),
            };
            warn(&m, out);
            out.lines.push((
              format!("+++Unresolved directive in {} - {}+++", base_name(file), i.directive()),
              here.clone(),
            ));
          }
          Fault::Bytes(_) => {
            // the generator only delivers undecodable bytes here
            let kind = match i.enc {
              Enc::Utf16LeBom | Enc::Utf16LeAttr => "Invalid UTF-16 (LE)",
              Enc::Utf16BeBom => "Invalid UTF-16 (BE)",
              _ => "Invalid UTF-8",
            };
            warn(&format!("Error resolving file contents: {kind}"), out);
            out.lines.push((
              format!("link:{}[role=include,{}]", i.target, i.attrs.join(",")),
              here.clone(),
            ));
          }
          other => {
            out.flat_plan.push(other.clone());
            out.lines.push((i.directive(), here.clone()));
          }
        }
      }
    }
    ln += 1;
  }
}

pub fn primary_text(nodes: &[Node]) -> String {
  let mut s = String::new();
  for n in nodes {
    match n {
      Node::Line(l) => s.push_str(&l.text),
      Node::Inc(i) => s.push_str(&i.directive()),
    }
    s.push('\n');
  }
  s
}

pub fn for_each_inc(nodes: &mut [Node], f: &mut dyn FnMut(&mut Inc)) {
  for n in nodes {
    if let Node::Inc(i) = n {
      f(i);
      for_each_inc(&mut i.nodes, f);
    }
  }
}

pub fn count_incs(nodes: &[Node]) -> usize {
  nodes
    .iter()
    .map(|n| match n {
      Node::Inc(i) => 1 + count_incs(&i.nodes),
      _ => 0,
    })
    .sum()
}

pub fn show_world(w: &World) -> Vec<String> {
  let mut out = Vec::new();
  for (p, b) in &w.files {
    out.push(format!("file {p} ({} bytes): {:?}", b.len(), String::from_utf8_lossy(b)));
  }
  out
}
