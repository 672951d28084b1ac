//! Conditional regions (ifdef/ifndef/ifeval) over attribute histories and simulated storage:
//! a line-based reference preprocessor says which text is in, which files are read, and what
//! is reported.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, SafeMode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "I06",
    run: conditionals,
    quick: 600000,
    thorough: 4000000,
    level: "fault_enumeration",
    rule: "a run counts when a region was skipped or a conditional saw an attribute changed in the body; distinct by hash of the full scenario",
    state_rule: "distinct fingerprints of (sequence of decisions with nesting depth, reads, faults)",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)",
    assumptions: &[],
  }]
}

struct Gen<'a> {
  ch: &'a mut Choices,
  n: u32,
  files: Vec<(String, Vec<String>)>,
  optional: BTreeMap<String, bool>,
}

const ATTRS: [&str; 5] = ["a0", "b", "a2", "job-set", "a-4"];

impl Gen<'_> {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}x", self.n)
  }
  fn names(&mut self, kind: &str) -> String {
    let k = self.ch.weighted(&[5, 2]) + 1;
    let sep = if k > 1 && kind != "ifndef" && self.ch.chance(50) { "+" } else { "," };
    (0..k).map(|_| *self.ch.pick(&ATTRS)).collect::<Vec<_>>().join(sep)
  }
  fn cond(&mut self) -> (String, String) {
    // (directive up to the bracket, what its endif may name)
    match self.ch.weighted(&[5, 4, 3]) {
      0 => {
        let n = self.names("ifdef");
        (format!("ifdef::{n}"), n)
      }
      1 => {
        let n = self.names("ifndef");
        (format!("ifndef::{n}"), n)
      }
      _ => ("ifeval::".into(), String::new()),
    }
  }
  fn eval_expr(&mut self) -> String {
    const OPS: [&str; 6] = ["==", "!=", ">=", "<=", ">", "<"];
    const STRS: [&str; 7] = ["0", "1", "2", "10", "b", "b1", ""];
    let op = *self.ch.pick(&OPS);
    match self.ch.weighted(&[5, 2, 3, 2, 2, 1, 1]) {
      0 => format!("\"{{{}}}\" {op} \"{}\"", self.ch.pick(&ATTRS), self.ch.pick(&STRS)),
      1 => format!("'{}' {op} \"x{{{}}}\"", self.ch.pick(&["x", "x1", "x10", "y", "X"]), self.ch.pick(&ATTRS)),
      2 => format!("{{num}} {op} {}", self.ch.pick(&["-3", "0", "2", "3", "03", "10", "20"])),
      3 => format!("{} {op} {}", self.ch.range(0, 12) as i64 - 3, self.ch.range(0, 12) as i64 - 3),
      4 => format!("{} {op} {}", self.ch.pick(&["0.5", "1.25", "-2.5", "10.0"]), self.ch.pick(&["1.25", "0.5", "9.75"])),
      5 => format!("{} {} {}", self.ch.pick(&["true", "false"]), self.ch.pick(&OPS[..2]), self.ch.pick(&["true", "false"])),
      _ => {
        let (l, r) = *self.ch.pick(&[("{nope}", "{nothing-here}"), ("{num}", "{nope}"), ("{nope}", "{num}"), ("true", "{nope}"), ("{nope}", "'x'")]);
        format!("{l} {} {r}", self.ch.pick(&OPS[..2]))
      }
    }
  }
  fn blank(&mut self, out: &mut Vec<String>, pct: u64) {
    if self.ch.chance(pct) {
      out.push(String::new());
    }
  }
  fn file(&mut self, verb: bool, depth: usize) -> String {
    let id = self.files.len();
    let name = format!("c{id}.adoc");
    self.files.push((name.clone(), vec![]));
    let mut lines = Vec::new();
    self.items(verb, depth + 1, &mut lines);
    self.files[id].1 = lines;
    name
  }
  fn items(&mut self, verb: bool, depth: usize, out: &mut Vec<String>) {
    let k = self.ch.range(1, 4);
    for _ in 0..k {
      match self.ch.weighted(&[5, 6, 4, 2, 2, 3, 1]) {
        // region
        1 if depth < 5 => {
          let (d, names) = self.cond();
          let arg = if d == "ifeval::" { self.eval_expr() } else { String::new() };
          out.push(format!("{d}[{arg}]"));
          if !verb {
            self.blank(out, 30);
          }
          self.items(verb, depth + 1, out);
          let end = if self.ch.chance(40) { names } else { String::new() };
          out.push(format!("endif::{end}[]"));
          if !verb {
            self.blank(out, 50);
          }
        }
        // attribute history
        2 if !verb => {
          let a = *self.ch.pick(&ATTRS);
          out.push(match self.ch.below(4) {
            0 => format!(":!{a}:"),
            1 => format!(":{a}!:"),
            2 => format!(":{a}:"),
            _ => format!(":{a}: {}", self.ch.below(3)),
          });
          out.push(String::new());
        }
        // one-line form
        3 => {
          let (mut d, _) = self.cond();
          if d == "ifeval::" {
            d = "ifdef::b".into();
          }
          let w = self.word();
          out.push(format!("{d}[{w} one line]"));
          if !verb {
            out.push(String::new());
          }
        }
        4 if !verb => {
          out.push("----".into());
          self.items(true, depth + 1, out);
          out.push("----".into());
          out.push(String::new());
        }
        5 if depth < 4 => {
          let f = self.file(verb, depth);
          let opt = self.ch.chance(20);
          self.optional.insert(f.clone(), opt);
          out.push(format!("include::{f}[{}]", if opt { "opts=optional" } else { "" }));
          if !verb {
            out.push(String::new());
          }
        }
        // escaped directives and look-alikes are text
        6 => {
          let w = self.word();
          let x = *self.ch.pick(&["\\ifdef::b[]", "\\endif::[]", " ifdef::b[]", "ifdef:: [x]", "endif:[]"]);
          out.push(format!("{w} text"));
          if verb || x.starts_with('\\') {
            out.push(x.to_string());
          }
          if !verb {
            out.push(String::new());
          }
        }
        _ => {
          let w = self.word();
          out.push(format!("{w} text"));
          if !verb {
            out.push(String::new());
          }
        }
      }
    }
  }
}

enum Val {
  Str(String),
  Int(i64),
  Float(f64),
  Bool(bool),
  Nil,
}

#[derive(Default)]
struct Model {
  attrs: BTreeMap<String, Option<String>>,
  emitted: Vec<String>,
  /// (names, "ifeval" marker)
  stack: Vec<String>,
  skip: u32,
  skip_start: Option<(String, u32)>,
  reads: Vec<String>,
  warns: Vec<(String, u32, String)>,
  text_ok: bool,
  decisions: String,
  listing: bool,
  listing_start: (String, u32),
  skipped: bool,
  changed: bool,
}

fn is_text_line(l: &str) -> bool {
  !l.is_empty()
}

impl Model {
  fn set(&self, a: &str) -> bool {
    matches!(self.attrs.get(a), Some(Some(_)))
  }
  fn eval(&self, e: &str) -> bool {
    let ops = ["==", "!=", ">=", "<=", ">", "<"];
    let op = ops.iter().find(|o| e.contains(&format!(" {o} "))).unwrap();
    let (l, r) = e.split_once(&format!(" {op} ")).unwrap();
    let (l, r) = (self.operand(l), self.operand(r));
    use std::cmp::Ordering::*;
    // values of different types are never equal and have no order
    let ord = match (&l, &r) {
      (Val::Str(a), Val::Str(b)) => Some(a.cmp(b)),
      (Val::Int(a), Val::Int(b)) => Some(a.cmp(b)),
      (Val::Float(a), Val::Float(b)) => a.partial_cmp(b),
      (Val::Bool(a), Val::Bool(b)) => Some(a.cmp(b)),
      (Val::Nil, Val::Nil) => Some(Equal),
      (Val::Nil, _) | (_, Val::Nil) => return *op == "!=",
      _ => panic!("not generated: {e}"),
    };
    match *op {
      "==" => ord == Some(Equal),
      "!=" => ord != Some(Equal),
      ">=" => matches!(ord, Some(Greater | Equal)),
      "<=" => matches!(ord, Some(Less | Equal)),
      ">" => ord == Some(Greater),
      _ => ord == Some(Less),
    }
  }
  /// attribute references that have no value vanish
  fn operand(&self, s: &str) -> Val {
    let mut out = String::new();
    let mut rest = s;
    while let Some(at) = rest.find('{') {
      out.push_str(&rest[..at]);
      let end = rest.find('}').unwrap();
      if let Some(Some(v)) = self.attrs.get(&rest[at + 1..end]) {
        out.push_str(v);
      }
      rest = &rest[end + 1..];
    }
    out.push_str(rest);
    let q = out.chars().next();
    match out.as_str() {
      "" => Val::Nil,
      "true" => Val::Bool(true),
      "false" => Val::Bool(false),
      _ if q == Some('"') || q == Some('\'') => Val::Str(out[1..out.len() - 1].to_string()),
      _ if out.contains('.') => Val::Float(out.parse().unwrap()),
      _ => Val::Int(out.parse().unwrap()),
    }
  }
  fn holds(&self, kind: &str, names: &str) -> bool {
    let v: Vec<&str> = names.split([',', '+']).collect();
    let r = if names.contains('+') { v.iter().all(|a| self.set(a)) } else { v.iter().any(|a| self.set(a)) };
    if kind == "ifdef" { r } else { !r }
  }

  fn run(&mut self, file: &str, files: &BTreeMap<String, (Vec<String>, Fault)>) {
    let (lines, _) = files[file].clone();
    for (i, l) in lines.iter().enumerate() {
      let ln = i as u32 + 1;
      let dir = ["ifdef::", "ifndef::", "ifeval::", "endif::", "include::"].iter().find(|d| l.starts_with(**d) && l.ends_with(']'));
      let dir = dir.filter(|d| !l[d.len()..].starts_with(' '));
      if self.skip > 0 {
        self.skipped = true;
        match dir {
          Some(&"endif::") => {
            self.skip -= 1;
            if self.skip == 0 {
              self.skip_start = None;
            }
          }
          Some(&"include::") | None => {}
          Some(d) => {
            // one-line forms open no region
            if *d == "ifeval::" || l.ends_with("[]") {
              self.skip += 1;
            }
          }
        }
        continue;
      }
      match dir {
        None => {
          if l.starts_with(':') && !self.listing {
            let fresh = self.emitted.last().is_none_or(|p| p.is_empty());
            if fresh {
              let body = l[1..].split_once(':').unwrap();
              let (name, val) = (body.0, body.1.trim());
              let unset = name.starts_with('!') || name.ends_with('!');
              let name = name.trim_matches('!').to_string();
              if name != "job-set" {
                self.changed = true;
                self.attrs.insert(name, if unset { None } else { Some(val.to_string()) });
              }
              continue;
            }
          }
          if l == "----" {
            self.listing = !self.listing;
            self.listing_start = (file.to_string(), ln);
          }
          self.emitted.push(l.clone());
        }
        Some(&"include::") => {
          let target = &l[9..l.find('[').unwrap()];
          self.reads.push(target.to_string());
          let optional = l.contains("optional");
          match &files[target].1 {
            Fault::NotFound if optional => {}
            Fault::NotFound | Fault::Io(_) => {
              let m = match &files[target].1 {
                Fault::Io(e) => format!("Include error: I/O error: {e}"),
                _ => "Include error: File not found".into(),
              };
              self.warns.push((file.into(), ln, m));
              self.emitted.push("placeholder".into());
            }
            _ => {
              self.run(target, files);
            }
          }
        }
        Some(&"endif::") => {
          let names = &l[7..l.len() - 2];
          match self.stack.last() {
            None => {
              self.warns.push((file.into(), ln, "This endif directive has no previous ifdef/ifndef".into()));
              self.emitted.push(l.clone());
            }
            Some(top) if !names.is_empty() && top != names => {
              self.warns.push((file.into(), ln, format!("Mismatched endif directive, expected `{top}`")));
              self.emitted.push(l.clone());
            }
            _ => {
              self.stack.pop();
            }
          }
        }
        Some(d) => {
          let open = l.find('[').unwrap();
          let names = &l[d.len()..open];
          let arg = &l[open + 1..l.len() - 1];
          let kind = &d[..d.len() - 2];
          let yes = if kind == "ifeval" { self.eval(arg) } else { self.holds(kind, names) };
          self.decisions.push_str(&format!("{}{kind}{yes}{};", self.stack.len(), arg.is_empty()));
          if kind != "ifeval" && !arg.is_empty() {
            if yes {
              self.emitted.push(arg.to_string());
            } else {
              self.skipped = true;
            }
          } else if yes {
            self.stack.push(if kind == "ifeval" { "[•ifeval•]".into() } else { names.to_string() });
          } else {
            self.skip = 1;
            self.skip_start = Some((file.to_string(), ln));
          }
        }
      }
    }
    self.text_ok = self.emitted.iter().any(|l| is_text_line(l));
  }
}

fn conditionals(ctx: &mut Ctx) -> Verdict {
  const MAIN: &str = "main.adoc";
  let mut main: Vec<String> = vec![":num: 3".into(), String::new(), "w0x text".into(), String::new()];
  let (files, mains) = {
    let mut g = Gen { ch: &mut ctx.ch, n: 0, files: vec![], optional: BTreeMap::new() };
    let mut m = Vec::new();
    g.items(false, 0, &mut m);
    if g.ch.chance(30) {
      g.items(false, 0, &mut m);
    }
    (g.files, m)
  };
  main.extend(mains);
  // the document may end with a directive, without a final newline
  while main.last().is_some_and(|l| l.is_empty()) && ctx.ch.chance(50) {
    main.pop();
  }
  let mut fs: BTreeMap<String, (Vec<String>, Fault)> = BTreeMap::new();
  for (name, mut lines) in files {
    let mut fault = Fault::None;
    match ctx.ch.weighted(&[14, 2, 1, 3]) {
      1 => fault = Fault::NotFound,
      2 => fault = Fault::Io("Input/output error".into()),
      3 if !lines.iter().any(|l| l == "----" || l.starts_with("include::")) => {
        // torn at the end of a line: regions may be left open
        let keep = ctx.ch.idx(lines.len() + 1);
        if keep < lines.len() {
          ctx.count("fault:torn_file");
        }
        lines.truncate(keep);
      }
      _ => {}
    }
    fs.insert(name, (lines, fault));
  }
  fs.insert(MAIN.into(), (main.clone(), Fault::None));
  let job_set = ctx.ch.chance(60);
  let mut m = Model::default();
  m.attrs.insert("num".into(), Some("3".into()));
  if job_set {
    m.attrs.insert("job-set".into(), Some("1".into()));
  }
  fs.get_mut(MAIN).unwrap().0[0] = String::new();
  m.run(MAIN, &fs);
  fs.get_mut(MAIN).unwrap().0[0] = ":num: 3".into();
  if let Some((f, l)) = m.skip_start.clone() {
    m.warns.push((f, l, "This ifdef directive was never closed".into()));
  }
  if m.listing {
    let (f, l) = m.listing_start.clone();
    m.warns.push((f, l, "This delimiter was never closed".into()));
  }
  let mut w = World { base_dir: Some("/docs".into()), max_calls: 300, ..World::default() };
  for (n, (lines, fault)) in &fs {
    let mut text = lines.iter().map(|l| format!("{l}\n")).collect::<String>();
    if ctx.ch.chance(40) && text.ends_with('\n') && !lines.last().is_some_and(|l| l.is_empty()) {
      text.pop();
    }
    ctx.log(format!("{n} [{}]: {text:?}", fault.name()));
    w.files.insert(format!("/docs/{n}"), text.into_bytes());
    if *fault != Fault::None {
      w.path_plan.insert(format!("/docs/{n}"), fault.clone());
      if m.reads.contains(n) {
        ctx.count(&format!("fault:{}", fault.name()));
      }
    }
  }
  let mut job = Job::new(String::from_utf8(w.files["/docs/main.adoc"].clone()).unwrap(), "/docs/main.adoc");
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Server]);
  job.attrs.push(("job-set".into(), if job_set { JobAttr::readonly("1") } else { JobAttr::readonly(false) }));
  let w = Rc::new(RefCell::new(w));
  let a = convert(&job, Some(w.clone()));
  ctx.add("conversions", 1);
  ctx.add("reads", m.reads.len() as u64);
  ctx.add("decisions", m.decisions.matches(';').count() as u64);
  ctx.nontrivial = m.skipped || m.changed;
  ctx.state(fnv_str(&format!("{}{:?}{:?}", m.decisions, m.reads, m.warns)));
  ctx.log(format!("decisions: {}", m.decisions));
  let Out::Ok(html, diags) = &a else {
    return Err(viol("conditional-outcome", a.show()));
  };
  let reads: Vec<String> = w.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  let want: Vec<String> = m.reads.iter().map(|f| format!("/docs/{f}")).collect();
  if reads != want {
    return Err(viol("conditional-reads", format!("reads {reads:?}\nexpected {want:?}")));
  }
  let words = |s: &str| -> Vec<String> {
    s.split(|c: char| !c.is_ascii_alphanumeric())
      .filter(|t| t.starts_with('w') && t.ends_with('x') && t.len() > 2 && t[1..t.len() - 1].bytes().all(|b| b.is_ascii_digit()))
      .map(String::from)
      .collect()
  };
  let got = words(html);
  let exp: Vec<String> = m.emitted.iter().flat_map(|l| words(l)).collect();
  if got != exp {
    return Err(viol("conditional-text", format!("text {got:?}\nexpected {exp:?}\nhtml {html}")));
  }
  for n in ["ifdef::", "ifndef::", "ifeval::", "endif::"] {
    let e = m.emitted.iter().filter(|l| l.contains(n)).count();
    let g = html.matches(n).count();
    if g != e {
      return Err(viol("conditional-directive", format!("{n} appears {g} times, expected {e}: {html}")));
    }
  }
  let mut gd: Vec<(String, u32, String)> =
    diags.iter().map(|d| (norm(&d.file).trim_start_matches("/docs/").to_string(), d.line, d.msg.clone())).collect();
  gd.sort();
  m.warns.sort();
  if gd != m.warns {
    return Err(viol("conditional-warnings", format!("reported {gd:?}\nexpected {:?}", m.warns)));
  }
  Ok(())
}
