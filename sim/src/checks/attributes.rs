//! What an attribute is at any place of a document: what the entries that arrived before that
//! place, the header, the job and the defaults say, whatever else is lost on the way.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, SafeMode};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "A01",
    run: attributes,
    quick: 120000,
    thorough: 3000000,
    level: "fault_enumeration",
    rule: "a run counts when at least one reference arrived whose value is known; distinct by hash of the full scenario (files, fault plan, settings)",
    state_rule: "distinct sequences of (kind of entry or place of reference, value set or missing, fault)",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)",
    assumptions: &[],
  }]
}

const MAIN: &str = "/docs/main.adoc";

#[derive(Debug, Clone)]
enum Item {
  Entry(Entry),
  /// a reference per name, at a place
  Probe { n: u32, names: Vec<String>, place: u64, line: u32 },
  Cell { items: Vec<Item> },
  Inc(Inc),
}

#[derive(Debug, Clone)]
struct Entry {
  name: String,
  value: Value,
  form: u64,
  /// what comes next follows directly
  tight: bool,
  line: u32,
}

#[derive(Debug, Clone)]
enum Value {
  Text(String),
  /// text, name, text
  Ref(String, String, String),
  Empty,
  Unset,
}

#[derive(Debug, Clone)]
struct Inc {
  path: String,
  items: Vec<Item>,
  optional: bool,
  fault: Fault,
  torn: Option<usize>,
  line: u32,
}

/// known to all, with a value by default, for the header only, for the job only
const NAMES: &[&str] = &["va", "vb", "v-c", "v1", "table-caption", "note-caption", "copyright", "docname", "app-name"];
const HEADER_ONLY: &[&str] = &[
  "copyright", "app-name", "experimental", "reproducible", "skip-front-matter", "lang", "last-update-label", "manname-title", "nolang", "toc-title",
  "untitled-label", "version-label", "author", "authorinitials", "authors", "doctitle", "doctype", "description", "email", "firstname", "keywords",
  "lastname", "middlename", "orgname", "revdate", "revnumber", "revremark", "title", "copycss", "css-signature", "linkcss", "stylesdir", "stylesheet",
  "toc-class", "webfonts",
];
const JOB_ONLY: &[&str] = &["docname", "allow-uri-read", "max-attribute-value-size", "max-include-depth", "docdir", "docfile", "docfilesuffix"];
/// set by the lines after the title
const LINE: &[&str] = &[
  "author", "firstname", "middlename", "lastname", "authorinitials", "author_2", "firstname_2", "middlename_2", "lastname_2", "authorinitials_2", "revnumber", "revdate", "revremark",
];
type Named = (&'static str, &'static str);
const AUTHORS: &[(&str, &[Named])] = &[
  ("Ann Lee", &[("author", "Ann Lee"), ("firstname", "Ann"), ("lastname", "Lee"), ("authorinitials", "AL"), ("authors", "Ann Lee")]),
  ("Ann B. Lee", &[("author", "Ann B. Lee"), ("firstname", "Ann"), ("middlename", "B."), ("lastname", "Lee"), ("authorinitials", "ABL"), ("authors", "Ann B. Lee")]),
  ("Ann Lee <a@b.co>", &[("author", "Ann Lee"), ("firstname", "Ann"), ("lastname", "Lee"), ("authorinitials", "AL"), ("authors", "Ann Lee")]),
  ("Bo_Mo van_Kim", &[("author", "Bo Mo van Kim"), ("firstname", "Bo Mo"), ("lastname", "van Kim"), ("authorinitials", "Bv"), ("authors", "Bo Mo van Kim")]),
  (
    "Ann Lee <a@b.co>; Bo C. Kim",
    &[
      ("author", "Ann Lee"), ("firstname", "Ann"), ("lastname", "Lee"), ("authorinitials", "AL"), ("authors", "Ann Lee, Bo C. Kim"), ("author_2", "Bo C. Kim"), ("firstname_2", "Bo"),
      ("middlename_2", "C."), ("lastname_2", "Kim"), ("authorinitials_2", "BCK"),
    ],
  ),
];
const REVISIONS: &[(&str, &[Named])] = &[
  ("v1.0", &[("revnumber", "1.0")]),
  ("v3", &[("revnumber", "3")]),
  ("v1.0, 2020-01-02", &[("revnumber", "1.0"), ("revdate", "2020-01-02")]),
  ("2.1, May 3: Spring", &[("revnumber", "2.1"), ("revdate", "May 3"), ("revremark", "Spring")]),
  ("v3: Autumn", &[("revnumber", "3"), ("revremark", "Autumn")]),
];
const TEXTS: &[&str] = &["one", "two words", "42", "x-y", "Größe", "1.5", "UP"];

struct Gen<'a> {
  ch: &'a mut Choices,
  n: u32,
  /// lines may be dropped, so nothing should hang on one
  drops_lines: bool,
}

impl Gen<'_> {
  fn name(&mut self, in_cell: bool) -> String {
    // what an entry in a cell may change depends on where it was set before
    if in_cell {
      return self.ch.pick(&["cell-a", "cell-b"]).to_string();
    }
    match self.ch.weighted(&[8, 2]) {
      0 => NAMES[self.ch.idx(4)].to_string(),
      _ => self.ch.pick(NAMES).to_string(),
    }
  }

  fn entry(&mut self, in_cell: bool, header: bool) -> Entry {
    let name = self.name(in_cell);
    let value = match self.ch.weighted(&[6, 3, 1, 3]) {
      0 => Value::Text(self.ch.pick(TEXTS).to_string()),
      1 => {
        let (a, b) = (*self.ch.pick(&["", "pre ", "a."]), *self.ch.pick(&["", " post", ".z"]));
        Value::Ref(a.into(), self.any_name(in_cell), b.into())
      }
      2 => Value::Empty,
      _ => Value::Unset,
    };
    let (name, value) = match !header && !in_cell && self.ch.chance(8) {
      true => ("attribute-missing".into(), Value::Text(self.ch.pick(&["skip", "drop", "warn", if self.drops_lines { "drop-line" } else { "drop" }]).to_string())),
      false => (name, value),
    };
    let name = match in_cell || name == "attribute-missing" || !self.ch.chance(3) {
      true => name,
      false if header || self.ch.chance(20) => self.ch.pick(JOB_ONLY).to_string(),
      false => self.ch.pick(HEADER_ONLY).to_string(),
    };
    Entry { name, value, form: self.ch.below(4), tight: self.ch.chance(40), line: 0 }
  }

  fn any_name(&mut self, in_cell: bool) -> String {
    let n = match in_cell && self.ch.chance(40) {
      true => self.ch.pick(&["cell-a", "cell-b"]).to_string(),
      false if self.ch.chance(75) => NAMES[self.ch.idx(4)].to_string(),
      false if self.ch.chance(30) => self.ch.pick(LINE).to_string(),
      false => self.ch.pick(&["table-caption", "note-caption", "copyright", "app-name", "docname", "cell-a", "empty", "plus-none", "doctitle", "author", "safe-mode-name"]).to_string(),
    };
    // names are not case-sensitive
    if self.ch.chance(8) { n.to_uppercase() } else { n }
  }

  fn probe(&mut self, in_cell: bool) -> Item {
    self.n += 1;
    let k = self.ch.range(1, 3);
    let names = (0..k)
      .map(|_| match self.any_name(in_cell) {
        n if self.ch.chance(7) => format!("\\{n}"),
        n => n,
      })
      .collect();
    let place = match if in_cell { self.ch.below(3) } else { self.ch.below(PLACES) } {
      4 | 5 | 13 | 17 | 24 if self.drops_lines => 0,
      p => p,
    };
    Item::Probe { n: self.n, names, place, line: 0 }
  }

  fn items(&mut self, max: u64, depth: u32, in_cell: bool) -> Vec<Item> {
    let n = self.ch.range(1, max);
    let mut out = Vec::new();
    for _ in 0..n {
      let item = match self.ch.weighted(&[6, 7, 1, 3]) {
        0 => Item::Entry(self.entry(in_cell, false)),
        2 if !in_cell && depth == 0 => Item::Cell { items: self.items(4, 1, true) },
        3 if !in_cell && depth < 3 => {
          self.n += 1;
          let path = format!("/docs/f{}.adoc", self.n);
          let mut inc = Inc { path, items: self.items(4, depth + 1, false), optional: false, fault: Fault::None, torn: None, line: 0 };
          match self.ch.weighted(&[60, 12, 8, 14]) {
            1 => {
              inc.fault = Fault::NotFound;
              inc.optional = self.ch.chance(30);
            }
            2 => inc.fault = Fault::Io("Input/output error (os error 5)".into()),
            3 => inc.torn = Some(self.ch.idx(inc.items.len())),
            _ => {}
          }
          let again = inc.torn.is_none() && self.ch.chance(15);
          out.push(Item::Inc(inc.clone()));
          match again {
            true => Item::Inc(Inc { fault: Fault::None, ..inc }),
            false => continue,
          }
        }
        _ => self.probe(in_cell),
      };
      out.push(item);
    }
    out
  }
}

const PLACES: u64 = 36;

/// lines before, the line, lines after; whether references count there
fn place(p: u64, in_cell: bool) -> (&'static [&'static str], &'static str, &'static str, &'static [&'static str], bool) {
  match p {
    1 => (&["head of it"], "", "", &["tail of it"], true),
    2 => (&[], "* ", "", &["", "//-"], true),
    _ if in_cell => (&[], "", "", &[], true),
    3 => (&["|==="], "|", "", &["|==="], true),
    4 => (&["[discrete]"], "== ", "", &[], true),
    5 => (&[], ".", "", &["titled"], true),
    6 => (&["****"], "", "", &["****"], true),
    7 => (&[], "see https://a.example[", "]", &[], true),
    8 => (&[], "[quote,", "]", &["said"], true),
    9 => (&[], "image::p.png[", "]", &[], true),
    10 => (&[], "  ", "", &[], false),
    11 => (&["----"], "", "", &["----"], false),
    12 => (&["[subs=attributes]", "----"], "", "", &["----"], true),
    13 => (&["[verse]"], "", "", &[], true),
    14 => (&[], "", ":: described", &["", "//-"], true),
    15 => (&[], "see pass:a[", "]", &[], true),
    16 => (&[], "see +", "+ so", &[], false),
    17 => (&["[subs=-attributes]"], "", "", &[], false),
    18 => (&[], "see *", "* so", &[], true),
    19 => (&["===="], "NOTE: ", "", &["===="], true),
    21 => (&[], "== ", "", &[], true),
    22 => (&[], "noted.footnote:[", "]", &[], true),
    23 => (&[], "term:: ", "", &["", "//-"], true),
    24 => (&["* item", "+"], "", "", &["", "//-"], true),
    25 => (&["[cols=2*]", "|==="], "|first |", "", &["|==="], true),
    26 => (&[], "see [.role]#", "#", &[], true),
    27 => (&["++++"], "", "", &["++++"], false),
    28 => (&["[subs=attributes]", "++++"], "", "", &["++++"], true),
    29 => (&["```"], "", "", &["```"], false),
    30 => (&["[source,subs=+attributes]", "----"], "", "", &["----"], true),
    31 => (&["--"], "", "", &["--"], true),
    32 => (&[], "> ", "", &[], true),
    33 => (&["|==="], "m|", "", &["|==="], true),
    34 => (&["|==="], "l|", "", &["|==="], false),
    35 => (&[], "see https://a.example[", ",role=x]", &[], true),
    20 => (&["...."], "", "", &["...."], false),
    _ => (&[], "", "", &[], true),
  }
}

/// as written
fn source(x: &str) -> String {
  match x.strip_prefix('\\') {
    Some(x) => format!("\\{{{x}}}"),
    None => format!("{{{x}}}"),
  }
}

fn probe_text(n: u32, names: &[String], f: impl Fn(&str) -> String) -> String {
  let vals: Vec<String> = names.iter().map(|x| f(x)).collect();
  format!("Q{n} {} Z{n}", vals.join(" | ").replace('|', "/"))
}

struct Writer {
  files: BTreeMap<String, Vec<u8>>,
}

impl Writer {
  fn write(&mut self, items: &mut [Item], in_cell: bool, out: &mut Vec<String>) {
    for i in items.iter_mut() {
      match i {
        Item::Entry(e) => {
          e.line = out.len() as u32 + 1;
          out.extend(entry_lines(e));
          if e.tight {
            continue;
          }
        }
        Item::Probe { n, names, place: p, line } => {
          let (pre, lead, trail, post, _) = place(*p, in_cell);
          out.extend(pre.iter().map(|s| s.to_string()));
          *line = out.len() as u32 + 1;
          out.push(format!("{lead}{}{trail}", probe_text(*n, names, source)));
          out.extend(post.iter().map(|s| s.to_string()));
        }
        Item::Cell { items } => {
          out.push("[cols=1]".into());
          out.push("|===".into());
          out.push("a|".into());
          self.write(items, true, out);
          out.push("|===".into());
        }
        Item::Inc(inc) => {
          inc.line = out.len() as u32 + 1;
          let opt = if inc.optional { "opts=optional" } else { "" };
          out.push(format!("include::{}[{opt}]", inc.path.rsplit('/').next().unwrap()));
          let mut lines = Vec::new();
          self.write(&mut inc.items, in_cell, &mut lines);
          self.files.insert(inc.path.clone(), bytes(&lines));
          if let Some(n) = inc.torn {
            let mut lines = Vec::new();
            self.write(&mut inc.items[..n].to_vec(), in_cell, &mut lines);
            inc.fault = Fault::Bytes(bytes(&lines));
          }
        }
      }
      out.push(String::new());
    }
  }
}

fn entry_lines(e: &Entry) -> Vec<String> {
  let name = if e.form == 3 { e.name.to_uppercase() } else { e.name.clone() };
  let v = match &e.value {
    Value::Unset if e.form == 1 => return vec![format!(":!{name}:")],
    Value::Unset => return vec![format!(":{name}!:")],
    Value::Empty => return vec![format!(":{name}:")],
    Value::Text(t) => t.clone(),
    Value::Ref(a, n, b) => format!("{a}{{{n}}}{b}"),
  };
  match v.split_once(' ') {
    // continued on the next line
    Some((a, b)) if e.form == 2 => vec![format!(":{name}: {a} \\"), format!("  {b}")],
    _ => vec![format!(":{name}: {v}")],
  }
}

fn bytes(lines: &[String]) -> Vec<u8> {
  lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes()
}

// --- the reference

#[derive(Debug, Clone, PartialEq)]
enum Val {
  Set(String),
  Missing,
  /// not said
  Any,
}

#[derive(Default)]
struct Model {
  defaults: BTreeMap<String, String>,
  soft: BTreeMap<String, Option<String>>,
  locked: BTreeMap<String, Option<String>>,
  header: BTreeMap<String, Val>,
  body: BTreeMap<String, Val>,
  /// by number: what is shown
  want: BTreeMap<u32, Want>,
  order: Vec<u32>,
  plan: Vec<Fault>,
  reads: Vec<String>,
  diags: Vec<(String, u32, String)>,
  shape: String,
  /// known finding `passthrough-missing-ref`
  early: bool,
  /// known finding `header-entry-doctitle`
  unread: bool,
  unread_hit: bool,
  hit: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
  Text(String),
  Gone,
  Any,
}

impl Model {
  fn get(&self, name: &str) -> Val {
    let name = name.to_lowercase();
    let opt = |v: &Option<String>| match v {
      Some(s) => Val::Set(s.clone()),
      None => Val::Missing,
    };
    if let Some(v) = self.locked.get(&name) {
      return opt(v);
    }
    if let Some(v) = self.body.get(&name).or(self.header.get(&name)) {
      return v.clone();
    }
    if let Some(v) = self.soft.get(&name) {
      return opt(v);
    }
    self.defaults.get(&name).map_or(Val::Missing, |v| Val::Set(v.clone()))
  }

  fn value(&mut self, v: &Value, header: bool) -> Val {
    match v {
      Value::Text(t) => Val::Set(t.clone()),
      Value::Ref(a, n, b) => {
        let unread = header && self.unread && (n.to_lowercase() == "doctitle" || LINE.contains(&&*n.to_lowercase()));
        self.unread_hit |= unread;
        let v = if unread { Val::Missing } else { self.get(n) };
        let mode = match self.get("attribute-missing") {
          Val::Set(s) => s,
          _ => "skip".into(),
        };
        match (v, &*mode) {
          (Val::Set(s), _) => Val::Set(format!("{a}{s}{b}")),
          (Val::Missing, "drop") => Val::Set(format!("{a}{b}")),
          (Val::Missing, "skip" | "warn") => Val::Set(format!("{a}{{{n}}}{b}")),
          _ => Val::Any,
        }
      }
      Value::Empty => Val::Set(String::new()),
      Value::Unset => Val::Missing,
    }
  }

  fn set(&mut self, e: &Entry, header: bool, file: &str) {
    let v = self.value(&e.value, header);
    self.shape += match v {
      Val::Set(_) => "s",
      Val::Missing => "u",
      Val::Any => "?",
    };
    let refused = if JOB_ONLY.contains(&e.name.as_str()) {
      Some(format!("Attribute `{}` may only be set at the job level (CLI/API)", e.name))
    } else if !header && HEADER_ONLY.contains(&e.name.as_str()) {
      Some(format!("Attribute `{}` may only be set in the document header", e.name))
    } else {
      None
    };
    match refused {
      Some(msg) => self.diags.push((file.into(), e.line, msg)),
      None if header => _ = self.header.insert(e.name.clone(), v),
      None => _ = self.body.insert(e.name.clone(), v),
    }
  }

  fn run(&mut self, items: &[Item], file: &str, in_cell: bool) {
    for i in items {
      match i {
        Item::Entry(e) => self.set(e, false, file),
        Item::Cell { items } => {
          let before = self.body.clone();
          self.run(items, file, true);
          self.body = before;
        }
        Item::Inc(inc) => {
          self.plan.push(inc.fault.clone());
          self.reads.push(inc.path.clone());
          self.shape += inc.fault.name();
          match &inc.fault {
            Fault::NotFound if inc.optional => {}
            Fault::NotFound => self.diags.push((file.into(), inc.line, "Include error: File not found".into())),
            Fault::Io(e) => self.diags.push((file.into(), inc.line, format!("Include error: I/O error: {e}"))),
            _ => self.run(&inc.items[..inc.torn.unwrap_or(inc.items.len())], &inc.path, in_cell),
          }
        }
        Item::Probe { n, names, place: p, line } => {
          let (_, _, _, _, counts) = place(*p, in_cell);
          // an escaped reference is none
          let vals: Vec<Val> = names.iter().filter(|x| !x.starts_with('\\')).map(|x| self.get(x)).collect();
          self.shape += &format!("p{p}{}", vals.iter().map(|v| matches!(v, Val::Set(_)) as u8).sum::<u8>());
          let missing = vals.contains(&Val::Missing);
          let mode = match self.get("attribute-missing") {
            Val::Set(s) => s,
            _ => "skip".into(),
          };
          // a line is searched for references before it is known what is passed through
          let early = matches!(p, 10 | 16 | 17 | 34) && !in_cell && missing && self.early && matches!(&*mode, "warn" | "drop-line");
          self.hit |= early;
          if (counts || early) && mode == "warn" {
            for v in &vals {
              if *v == Val::Missing {
                self.diags.push((file.into(), *line, "Skipping reference to missing attribute".into()));
              }
            }
          }
          // and lines of a table before it is known that a cell is a document of its own
          let outside: Vec<bool> = names.iter().map(|x| in_cell && !x.starts_with('\\') && self.early && (x.to_lowercase().starts_with("cell-") || self.get(x) == Val::Missing)).collect();
          let outside = if matches!(&*mode, "warn" | "drop-line") { outside } else { vec![] };
          self.hit |= outside.contains(&true);
          if mode == "warn" {
            for _ in outside.iter().filter(|o| **o) {
              self.diags.push((file.into(), *line, "Skipping reference to missing attribute".into()));
            }
          }
          let early = early || outside.contains(&true);
          let want = if early && mode == "drop-line" {
            Want::Gone
          } else if matches!(p, 16 | 17) && names.iter().any(|x| x.starts_with('\\')) {
            // not said whether an escape needs something to escape from
            Want::Any
          } else if !counts {
            Want::Text(probe_text(*n, names, source))
          } else if vals.contains(&Val::Any) {
            Want::Any
          } else if missing && mode == "drop-line" {
            // only defined where a line is no more than a line
            if matches!(p, 0 | 1 | 12 | 13) { Want::Gone } else { Want::Any }
          } else {
            let t = probe_text(*n, names, |x| match self.get(x) {
              _ if x.starts_with('\\') => format!("{{{}}}", &x[1..]),
              Val::Set(s) => s,
              _ if mode == "drop" => String::new(),
              _ => format!("{{{x}}}"),
            });
            Want::Text(t)
          };
          // a second delivery of the same file
          let want = match self.want.get(n) {
            Some(w) if *w != want => Want::Any,
            _ => want,
          };
          self.want.insert(*n, want);
          self.order.push(*n);
        }
      }
    }
  }
}

/// all that is between marks, by number
fn shown(html: &str) -> Vec<(u32, String)> {
  let mut out = Vec::new();
  for (i, _) in html.match_indices('Q') {
    let digits: String = html[i + 1..].chars().take_while(char::is_ascii_digit).collect();
    let Ok(n) = digits.parse::<u32>() else { continue };
    let text = match html[i..].find(&format!("Z{n}")) {
      Some(j) => &html[i..i + j + digits.len() + 1],
      None => &html[i..i + digits.len() + 1],
    };
    let text = text.replace("&#160;", " ").split_whitespace().collect::<Vec<_>>().join(" ");
    out.push((n, text));
  }
  out
}

fn attributes(ctx: &mut Ctx) -> Verdict {
  let mut m = Model { early: ctx.known("passthrough-missing-ref"), unread: ctx.known("header-entry-doctitle"), ..Model::default() };
  for (k, v) in [("table-caption", "Table"), ("note-caption", "Note"), ("empty", ""), ("attribute-missing", "skip")] {
    m.defaults.insert(k.into(), v.into());
  }
  let safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server]);
  m.locked.insert("docname".into(), Some("main".into()));
  m.locked.insert("safe-mode-name".into(), Some(format!("{safe:?}").to_uppercase()));
  let mut job = Job::new("", MAIN);
  let drops_lines = ctx.ch.chance(25);
  for name in ["va", "vb", "v-c", "table-caption", "copyright", "attribute-missing"] {
    if !ctx.ch.chance(18) {
      continue;
    }
    let v = match name {
      "attribute-missing" => Some(ctx.ch.pick(&["drop", "warn", if drops_lines { "drop-line" } else { "skip" }]).to_string()),
      _ if ctx.ch.chance(25) => None,
      _ => Some(ctx.ch.pick(TEXTS).to_string()),
    };
    let ro = ctx.ch.chance(50);
    let value: asciidork_core::AttrValue = match &v {
      Some(s) => s.as_str().into(),
      None => false.into(),
    };
    job.attrs.push((name.into(), if ro { JobAttr::readonly(value) } else { JobAttr::modifiable(value) }));
    if ro { &mut m.locked } else { &mut m.soft }.insert(name.into(), v);
  }
  let mut lines = vec![];
  if ctx.ch.chance(15) {
    // comments in front of the header are none of it
    lines.push("////".to_string());
    for _ in 0..ctx.ch.below(4) {
      lines.push(ctx.ch.pick(&["", "text", ":va: hidden", ":v1: hidden", "include::none.adoc[]", "= No Title", "----"]).to_string());
    }
    lines.push("////".to_string());
    if ctx.ch.chance(50) {
      lines.push(String::new());
    }
  }
  let mut g = Gen { ch: &mut ctx.ch, n: 0, drops_lines };
  if g.ch.chance(15) {
    for _ in 0..g.ch.range(1, 2) {
      let mut e = g.entry(false, true);
      e.line = lines.len() as u32 + 1;
      lines.extend(entry_lines(&e));
      m.set(&e, true, MAIN);
    }
  }
  lines.push("= Doc Title".to_string());
  m.header.insert("doctitle".into(), Val::Set("Doc Title".into()));
  if ctx.ch.chance(40) {
    let (line, sets) = *ctx.ch.pick(AUTHORS);
    lines.push(line.into());
    let mut all = sets.to_vec();
    if ctx.ch.chance(50) {
      let (line, sets) = *ctx.ch.pick(REVISIONS);
      lines.push(line.into());
      all.extend(sets);
    }
    for (k, v) in all {
      m.header.insert(k.into(), Val::Set(v.into()));
    }
  }
  let mut g = Gen { ch: &mut ctx.ch, n: 0, drops_lines };
  for _ in 0..g.ch.below(5) {
    let mut e = g.entry(false, true);
    e.line = lines.len() as u32 + 1;
    lines.extend(entry_lines(&e));
    m.set(&e, true, MAIN);
  }
  lines.push(String::new());
  let mut items = g.items(9, 0, false);
  let mut w = Writer { files: BTreeMap::new() };
  w.write(&mut items, false, &mut lines);
  m.run(&items, MAIN, false);

  job.src = String::from_utf8(bytes(&lines)).unwrap();
  job.embedded = ctx.ch.chance(80);
  job.backend = if ctx.ch.chance(40) { Backend::Html5s } else { Backend::DrHtml };
  job.safe = safe;
  let world = World { base_dir: Some("/docs".into()), max_calls: 400, files: w.files, plan: m.plan.clone(), ..World::default() };
  ctx.log(format!("job attributes {:?}", job.attrs));
  ctx.log(format!("main {MAIN}:\n{}", job.src));
  for (p, b) in &world.files {
    ctx.log(format!("file {p}:\n{}", String::from_utf8_lossy(b)));
  }
  ctx.log(format!("fault plan: {:?}", m.plan.iter().map(|f| f.name()).collect::<Vec<_>>()));
  let world = Rc::new(RefCell::new(world));
  let out = convert(&job, Some(world.clone()));
  ctx.count("conversions");
  let reads: Vec<String> = world.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  ctx.add("reads", reads.len() as u64);
  for f in m.plan.iter().take(reads.len()) {
    match f {
      Fault::None => {}
      Fault::Bytes(_) => ctx.count("fault:torn_at_block"),
      f => ctx.count(&format!("fault:{}", f.name())),
    }
  }
  if m.unread_hit {
    ctx.count("known:header-entry-doctitle");
  }
  if m.hit {
    ctx.count("known:passthrough-missing-ref");
  }
  ctx.add("references", m.order.len() as u64);
  ctx.state(fnv_str(&m.shape));
  ctx.nontrivial = m.want.values().any(|w| *w != Want::Any);
  if let Out::Panic(p) = &out {
    return Err(viol("panic", format!("conversion panicked: {p}")));
  }
  let Some(html) = out.html() else {
    return Err(viol("no-output", out.show()));
  };
  if reads != m.reads {
    return Err(viol("reads", format!("storage reads {reads:?}\nexpected {:?}", m.reads)));
  }
  let got = shown(html);
  let known: BTreeSet<u32> = m.want.keys().copied().collect();
  let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
  for n in &known {
    let g: Vec<&String> = got.iter().filter(|g| g.0 == *n).map(|g| &g.1).collect();
    let times = m.order.iter().filter(|x| *x == n).count();
    match &m.want[n] {
      Want::Any => {}
      Want::Gone if g.is_empty() => {}
      Want::Gone => return Err(viol("dropped-line", format!("reference {n} is shown as {g:?}, its line has a reference to a missing attribute\nhtml: {html}"))),
      Want::Text(t) => {
        let t = squeeze(t);
        if g.len() != times || g.iter().any(|x| **x != t) {
          return Err(viol("value", format!("expected {t:?} {times} times\nrendered {g:?}\nhtml: {html}")));
        }
      }
    }
  }
  if let Some(g) = got.iter().find(|g| !known.contains(&g.0)) {
    return Err(viol("stray", format!("{g:?} never arrived\nhtml: {html}")));
  }
  let mut got: Vec<(String, u32, String)> = out.diags().iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  got.sort();
  m.diags.sort();
  ctx.add("warnings", got.len() as u64);
  if got != m.diags {
    return Err(viol("diagnostics", format!("reported {got:?}\nexpected {:?}", m.diags)));
  }
  Ok(())
}
