//! Callouts: the numbers at the ends of lines of verbatim blocks, and the lists that explain them, in documents
//! assembled from files of which some are lost, torn or delivered twice.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "K01",
    run: callouts,
    quick: 150000,
    thorough: 4000000,
    level: "fault_enumeration",
    rule: "a run counts when at least one callout or callout list arrived; distinct by hash of the full scenario (files, fault plan, settings)",
    state_rule: "distinct sequences of (block kind, numbers, list items, fault before them)",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)",
    assumptions: &["numbers from 1 to 99; blocks numbered automatically come first after a callout list"],
  }]
}

const MAIN: &str = "/docs/main.adoc";

#[derive(Debug, Clone)]
enum Line {
  Code { text: String, guard: &'static str, nums: Vec<u8>, xml: bool },
  Inc { path: String, lines: Vec<Line>, fault: Fault, torn: Option<usize>, line: u32 },
}

#[derive(Debug, Clone)]
enum Item {
  /// numbers of 0 are automatic
  Block { kind: usize, lines: Vec<Line>, tight: bool },
  List { items: Vec<(u8, String, bool, u32)> },
  Para(String),
  Wrap { kind: usize, items: Vec<Item> },
  /// attached to an item of a list
  Attached { word: String, items: Vec<Item> },
  Inc { path: String, items: Vec<Item>, optional: bool, fault: Fault, torn: Option<usize>, line: u32 },
}

/// what is above and below the lines
const BLOCKS: &[(&[&str], &str)] = &[
  (&["----"], "----"),
  (&["...."], "...."),
  (&["[source,ruby]", "----"], "----"),
  (&["[source,ruby,line-comment=%]", "----"], "----"),
  (&["```ruby"], "```"),
  (&["[listing]"], ""),
  (&["[source,ruby]"], ""),
  (&[], ""),
  (&["[source,ruby,line-comment=]", "----"], "----"),
];
const INDENTED: usize = 7;

/// what is a comment only to the source
fn is_guard(kind: usize, guard: &str) -> bool {
  match kind {
    3 => guard == "%",
    8 => false,
    _ => guard != "%",
  }
}

struct Gen<'a> {
  ch: &'a mut Choices,
  n: u32,
  next: u8,
  in_cell: bool,
}

impl Gen<'_> {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  fn lines(&mut self, kind: usize, auto: bool, depth: u32, max: u64) -> Vec<Line> {
    let mut out = Vec::new();
    for _ in 0..1 + self.ch.below(max) {
      if depth == 0 && !BLOCKS[kind].1.is_empty() && self.ch.chance(12) {
        let path = format!("/docs/{}.txt", self.word());
        let lines = self.lines(kind, auto, 1, 3);
        let (fault, torn) = self.fault(lines.len());
        out.push(Line::Inc { path, lines, fault, torn, line: 0 });
        continue;
      }
      let w = self.word();
      let text = match self.ch.below(9) {
        0 => format!("{w} <1> mid"),
        1 => format!("{w} <!--2--> mid"),
        2 => format!("{w} <z>"),
        3 => format!("{w} // note"),
        4 => format!("{w} &amp; {{va}} *b*"),
        _ => w,
      };
      let guard = match kind {
        // else a term of a description list
        INDENTED => *self.ch.pick(&["", "//", "#", "--"]),
        _ => *self.ch.pick(&["", "", "//", "#", ";;", "--", "%"]),
      };
      let mut nums = Vec::new();
      while self.ch.chance(if nums.is_empty() { 60 } else { 15 }) {
        nums.push(match self.ch.below(8) {
          _ if auto => 0,
          0 => 1 + self.ch.below(5) as u8,
          _ => {
            self.next += 1;
            self.next
          }
        });
      }
      let xml = guard.is_empty() && !auto && self.ch.chance(20);
      let text = match nums.is_empty() && self.ch.chance(10) {
        true => format!("{text} \\<1>"),
        false => text,
      };
      out.push(Line::Code { text, guard: if nums.is_empty() { "" } else { guard }, nums, xml });
    }
    out
  }

  fn fault(&mut self, n: usize) -> (Fault, Option<usize>) {
    match self.ch.below(12) {
      0 => (Fault::NotFound, None),
      1 => (Fault::Io("device".into()), None),
      2 => (Fault::None, Some(self.ch.idx(n + 1))),
      _ => (Fault::None, None),
    }
  }

  fn block(&mut self, delimited: bool) -> Item {
    let kind = self.ch.idx(if delimited { 5 } else { BLOCKS.len() });
    let auto = self.ch.chance(25);
    Item::Block { kind, lines: self.lines(kind, auto, 0, 4), tight: self.ch.chance(50) && !BLOCKS[kind].1.is_empty() }
  }

  fn list(&mut self) -> Item {
    let auto = self.ch.chance(30);
    let n = match self.ch.chance(60) {
      true => u64::from(self.next.clamp(1, 9)),
      false => 1 + self.ch.below(4),
    };
    let mut at = 0;
    let items = (0..n)
      .map(|_| {
        at += match self.ch.below(20) {
          0 => 2,
          1 => 0,
          _ => 1,
        };
        (if auto || self.ch.chance(5) { 0 } else { at.max(1) }, self.word(), self.ch.chance(10), 0)
      })
      .collect();
    self.next = 0;
    Item::List { items }
  }

  fn items(&mut self, max: u64, depth: u32) -> Vec<Item> {
    let mut out: Vec<Item> = Vec::new();
    for _ in 0..1 + self.ch.below(max) {
      match self.ch.below(20) {
        0..=7 => out.push(self.block(false)),
        8..=13 => out.push(self.list()),
        14 => {
          let w = self.word();
          out.push(Item::Para(format!("{w} <1>")));
        }
        15 | 16 if depth < 2 => {
          let kind = self.ch.idx(if self.in_cell { 4 } else { 5 });
          let outer = self.in_cell;
          self.in_cell |= kind == CELL;
          let items = self.items(3, depth + 1);
          self.in_cell = outer;
          out.push(Item::Wrap { kind, items });
        }
        17 => {
          let word = self.word();
          let mut items = vec![self.block(true)];
          if self.ch.chance(70) {
            items.push(self.list());
          }
          out.push(Item::Attached { word, items });
        }
        18 | 19 if depth < 2 => {
          let path = format!("/docs/{}.adoc", self.word());
          let items = self.items(3, depth + 1);
          let (fault, torn) = self.fault(items.len());
          let inc = Item::Inc { path, items, optional: self.ch.chance(30), fault, torn, line: 0 };
          if self.ch.chance(20) {
            out.push(inc.clone());
          }
          out.push(inc);
        }
        _ => out.push(self.block(false)),
      }
    }
    out
  }
}

// --- the files

fn bytes(lines: &[String]) -> Vec<u8> {
  lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes()
}

#[derive(Default)]
struct Writer {
  files: BTreeMap<String, Vec<u8>>,
}

const WRAPS: &[(&[&str], &str)] = &[(&["===="], "===="), (&["****"], "****"), (&["--"], "--"), (&["[quote]", "____"], "____"), (&["[cols=1]", "|===", "|first", "a|"], "|===")];
const CELL: usize = 4;

impl Writer {
  fn lines(&mut self, lines: &mut [Line], kind: usize, out: &mut Vec<String>) {
    let lead = if kind == INDENTED { "  " } else { "" };
    for l in lines {
      match l {
        Line::Code { text, guard, nums, xml } => {
          let mut s = format!("{lead}{text}");
          if !guard.is_empty() {
            s = format!("{s} {guard}");
          }
          for n in nums {
            let n = if *n == 0 { ".".to_string() } else { n.to_string() };
            s += &if *xml { format!(" <!--{n}-->") } else { format!(" <{n}>") };
          }
          out.push(s);
        }
        Line::Inc { path, lines, fault, torn, line } => {
          *line = out.len() as u32 + 1;
          out.push(format!("include::{}[]", path.rsplit('/').next().unwrap()));
          let mut b = Vec::new();
          self.lines(lines, kind, &mut b);
          if let Some(n) = torn {
            *fault = Fault::Bytes(bytes(&b[..*n]));
          }
          self.files.insert(path.clone(), bytes(&b));
        }
      }
    }
  }

  fn block(&mut self, kind: usize, lines: &mut [Line], out: &mut Vec<String>) {
    out.extend(BLOCKS[kind].0.iter().map(|s| s.to_string()));
    self.lines(lines, kind, out);
    if !BLOCKS[kind].1.is_empty() {
      out.push(BLOCKS[kind].1.into());
    }
  }

  fn list(items: &mut [(u8, String, bool, u32)], out: &mut Vec<String>) {
    for (n, text, long, line) in items {
      *line = out.len() as u32 + 1;
      out.push(if *n == 0 { format!("<.> {text}") } else { format!("<{n}> {text}") });
      if *long {
        out.push(format!("{text} more"));
      }
    }
  }

  fn write(&mut self, items: &mut [Item], out: &mut Vec<String>) {
    let n = items.len();
    for i in 0..n {
      let before_list = i + 1 < n && matches!(items[i + 1], Item::List { .. } | Item::Inc { .. });
      match &mut items[i] {
        Item::Block { kind, lines, tight } => {
          self.block(*kind, lines, out);
          if *tight && before_list {
            continue;
          }
        }
        Item::List { items } => Self::list(items, out),
        Item::Para(s) => out.push(s.clone()),
        Item::Wrap { kind, items } => {
          out.extend(WRAPS[*kind].0.iter().map(|s| s.to_string()));
          self.write(items, out);
          out.push(WRAPS[*kind].1.into());
        }
        Item::Attached { word, items } => {
          // not within some other list
          out.extend(["lead".into(), String::new(), format!("* {word}")]);
          for i in items {
            out.push("+".into());
            match i {
              Item::Block { kind, lines, .. } => self.block(*kind, lines, out),
              Item::List { items } => Self::list(items, out),
              _ => {}
            }
          }
          out.extend([String::new(), "tail".into()]);
        }
        Item::Inc { path, items, optional, fault, torn, line } => {
          *line = out.len() as u32 + 1;
          let opt = if *optional { "opts=optional" } else { "" };
          out.push(format!("include::{}[{opt}]", path.rsplit('/').next().unwrap()));
          let mut b = Vec::new();
          self.write(items, &mut b);
          self.files.insert(path.clone(), bytes(&b));
          if let Some(n) = torn {
            let mut b = Vec::new();
            self.write(&mut items[..*n].to_vec(), &mut b);
            *fault = Fault::Bytes(bytes(&b));
          }
        }
      }
      out.push(String::new());
    }
  }
}

// --- the reference

#[derive(Debug, Clone)]
enum Shown {
  Code { text: String, guard: String, nums: Vec<u8>, xml: bool },
  Unresolved(String),
}

#[derive(Debug, Clone)]
enum Ev {
  Pre { lines: Vec<Shown>, any: bool },
  List(Vec<(u8, String)>),
}

#[derive(Default)]
struct Model {
  /// callouts since the last list
  scope: Vec<u8>,
  /// their automatic numbers are not said
  any: bool,
  /// the number expected next by the list that might be continued
  open: Option<u8>,
  evs: Vec<Ev>,
  plan: Vec<Fault>,
  reads: Vec<String>,
  diags: Vec<(String, u32, String)>,
  unsaid: Vec<(String, u32)>,
  shape: String,
}

impl Model {
  fn lost(&mut self, path: &str, fault: &Fault, optional: bool, file: &str, line: u32) -> bool {
    self.plan.push(fault.clone());
    self.reads.push(path.into());
    self.shape += fault.name();
    match fault {
      Fault::NotFound if optional => true,
      Fault::NotFound => {
        self.diags.push((file.into(), line, "Include error: File not found".into()));
        true
      }
      Fault::Io(e) => {
        self.diags.push((file.into(), line, format!("Include error: I/O error: {e}")));
        true
      }
      _ => false,
    }
  }

  fn lines(&mut self, lines: &[Line], kind: usize, file: &str, out: &mut Vec<Shown>) {
    for l in lines {
      match l {
        Line::Code { text, guard, nums, xml } => {
          let mut shown = Vec::new();
          for n in nums {
            let n = if *n == 0 { self.scope.last().map_or(1, |n| n + 1) } else { *n };
            self.scope.push(n);
            shown.push(n);
          }
          self.shape += &format!("c{shown:?}");
          // the guard as a comment that is of use only to the source
          let guard = if !guard.is_empty() && !is_guard(kind, guard) { format!("{guard}!") } else { guard.to_string() };
          out.push(Shown::Code { text: text.clone(), guard, nums: shown, xml: *xml });
        }
        Line::Inc { path, lines, fault, torn, line } => match self.lost(path, fault, false, file, *line) {
          true => out.push(Shown::Unresolved(path.rsplit('/').next().unwrap().into())),
          false => self.lines(&lines[..torn.unwrap_or(lines.len())], kind, path, out),
        },
      }
    }
  }

  fn run(&mut self, items: &[Item], file: &str) {
    for i in items {
      match i {
        Item::Block { kind, lines, .. } => {
          self.ends();
          self.shape += &format!("b{kind}");
          if !self.scope.is_empty() && has_auto(lines) {
            self.any = true;
          }
          let mut out = Vec::new();
          self.lines(lines, *kind, file, &mut out);
          self.evs.push(Ev::Pre { lines: out, any: self.any });
        }
        Item::List { items } => {
          self.shape += "l";
          let mut auto = match self.open {
            Some(n) => n,
            None => {
              self.evs.push(Ev::List(vec![]));
              1
            }
          };
          for (n, text, long, line) in items {
            let num = if *n == 0 { auto } else { *n };
            if num != auto {
              self.diags.push((file.into(), *line, format!("Unexpected callout number, expected `<{auto}>`")));
            }
            if self.any {
              self.unsaid.push((file.into(), *line));
            } else if !self.scope.contains(&num) {
              self.diags.push((file.into(), *line, format!("No callout found for number `{num}`")));
            }
            auto = num + 1;
            self.shape += &num.to_string();
            let text = if *long { format!("{text} {text} more") } else { text.clone() };
            let Some(Ev::List(list)) = self.evs.last_mut() else { unreachable!() };
            list.push((num, text));
          }
          self.open = Some(auto);
          continue;
        }
        Item::Para(_) => self.ends(),
        Item::Wrap { items, kind } => {
          self.ends();
          self.shape += &format!("w{kind}");
          self.run(items, file);
          self.ends();
        }
        Item::Attached { items, .. } => {
          self.ends();
          self.run(items, file);
          self.ends();
        }
        Item::Inc { path, items, optional, fault, torn, line } => {
          if self.lost(path, fault, *optional, file, *line) {
            if !*optional || matches!(fault, Fault::Io(_)) {
              self.ends();
            }
          } else {
            self.run(&items[..torn.unwrap_or(items.len())], path);
          }
        }
      }
    }
  }

  /// a list ends (and with it what it may refer to) where something else follows
  fn ends(&mut self) {
    if self.open.take().is_some() {
      self.scope.clear();
      self.any = false;
    }
  }
}

fn has_auto(lines: &[Line]) -> bool {
  lines.iter().any(|l| match l {
    Line::Code { nums, .. } => nums.contains(&0),
    Line::Inc { lines, .. } => has_auto(lines),
  })
}

fn esc(s: &str) -> String {
  s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

fn want_line(l: &Shown, h5: bool, icons: usize) -> String {
  let Shown::Code { text, guard, nums, xml } = l else { unreachable!() };
  let mut s = esc(&text.replace('\\', ""));
  let custom = guard.ends_with('!');
  let guard = guard.trim_end_matches('!');
  if !guard.is_empty() && (custom || h5 || icons != 1) {
    s = format!("{s} {guard}");
  }
  for n in nums {
    s += &match (h5, icons) {
      (false, 1) => format!(r#" <i class="conum" data-value="{n}"></i><b>({n})</b>"#),
      (false, 2) => format!(r#" <img src="./images/icons/callouts/{n}.png" alt="{n}">"#),
      (h5, _) => {
        let b = if h5 { format!(r#"<b class="conum">{n}</b>"#) } else { format!(r#"<b class="conum">({n})</b>"#) };
        if *xml { format!(" &lt;!--{b}--&gt;") } else { format!(" {b}") }
      }
    };
  }
  s
}

/// the verbatim blocks and the callout lists of the page
fn shown(html: &str) -> Vec<(bool, String)> {
  let mut out = Vec::new();
  let mut i = 0;
  while let Some(n) = html[i..].find('<') {
    i += n;
    let rest = &html[i..];
    let list = rest.starts_with(r#"<div class="colist arabic">"#) || rest.starts_with(r#"<ol class="callout-list arabic">"#);
    if rest.starts_with("<pre") {
      let open = rest.find('>').unwrap_or(0) + 1;
      let end = rest.find("</pre>").unwrap_or(rest.len());
      let mut s = &rest[open..end];
      if let Some(t) = s.strip_suffix("</code>") {
        s = &t[t.find('>').unwrap_or(0) + 1..];
      }
      out.push((false, s.to_string()));
      i += end;
    } else if list {
      let end = ["</ol>", "</table>"].iter().filter_map(|e| rest.find(e)).min().unwrap_or(rest.len());
      out.push((true, rest[..end].split_whitespace().collect::<Vec<_>>().join(" ")));
      i += end;
    } else {
      i += 1;
    }
  }
  out
}

fn want_list(items: &[(u8, String)], h5: bool, icons: usize) -> String {
  let mut s = String::new();
  match (h5, icons) {
    (true, _) => {
      s += r#"<ol class="callout-list arabic">"#;
      items.iter().for_each(|(_, t)| s += &format!("<li>{t}</li>"));
    }
    (false, 0) => {
      s += r#"<div class="colist arabic"><ol>"#;
      items.iter().for_each(|(_, t)| s += &format!("<li><p>{t}</p></li>"));
    }
    (false, icons) => {
      s += r#"<div class="colist arabic"><table>"#;
      for (n, t) in items {
        let n = match icons {
          1 => format!(r#"<i class="conum" data-value="{n}"></i><b>({n})</b>"#),
          _ => format!(r#"<img src="./images/icons/callouts/{n}.png" alt="{n}">"#),
        };
        s += &format!("<tr><td>{n}</td><td>{t}</td></tr>");
      }
    }
  }
  s
}

fn callouts(ctx: &mut Ctx) -> Verdict {
  let mut g = Gen { ch: &mut ctx.ch, n: 0, next: 0, in_cell: false };
  let mut items = g.items(8, 0);
  let icons = ctx.ch.weighted(&[50, 35, 15]);
  let mut lines = match icons {
    1 => vec![":icons: font".to_string(), String::new()],
    2 => vec![":icons:".to_string(), String::new()],
    _ => vec![],
  };
  let mut w = Writer::default();
  w.write(&mut items, &mut lines);
  let mut m = Model::default();
  m.run(&items, MAIN);
  let mut job = Job::new(String::from_utf8(bytes(&lines)).unwrap(), MAIN);
  job.embedded = ctx.ch.chance(80);
  let h5 = ctx.ch.chance(30);
  job.backend = if h5 { Backend::Html5s } else { Backend::DrHtml };
  let world = World { base_dir: Some("/docs".into()), max_calls: 400, files: w.files, plan: m.plan.clone(), ..World::default() };
  ctx.log(format!("{:?} icons {icons} embedded {}", job.backend, job.embedded));
  ctx.log(format!("main {MAIN}:\n{}", job.src));
  for (p, b) in &world.files {
    ctx.log(format!("file {p}:\n{}", String::from_utf8_lossy(b)));
  }
  ctx.log(format!("fault plan: {:?}", m.plan.iter().map(|f| f.name()).collect::<Vec<_>>()));
  let world = Rc::new(RefCell::new(world));
  let out = convert(&job, Some(world.clone()));
  ctx.count("conversions");
  let reads: Vec<String> = world.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  ctx.add("reads", reads.len() as u64);
  for f in m.plan.iter().take(reads.len()) {
    match f {
      Fault::None => {}
      Fault::Bytes(_) => ctx.count("fault:torn"),
      f => ctx.count(&format!("fault:{}", f.name())),
    }
  }
  ctx.state(fnv_str(&m.shape));
  ctx.nontrivial = !m.evs.is_empty();
  if let Out::Panic(p) = &out {
    return Err(viol("panic", format!("conversion panicked: {p}")));
  }
  let Some(html) = out.html() else {
    return Err(viol("no-output", out.show()));
  };
  if reads != m.reads {
    return Err(viol("reads", format!("storage reads {reads:?}\nexpected {:?}", m.reads)));
  }
  let got = shown(html);
  let kinds = |e: &Ev| matches!(e, Ev::List(_));
  if got.iter().map(|g| g.0).collect::<Vec<_>>() != m.evs.iter().map(kinds).collect::<Vec<_>>() {
    return Err(viol("blocks", format!("blocks and lists {got:?}\nexpected {:?}", m.evs)));
  }
  for ((_, got), ev) in got.iter().zip(&m.evs) {
    match ev {
      Ev::Pre { any: true, .. } => {}
      Ev::Pre { lines, .. } => {
        ctx.add("callouts", lines.iter().map(|l| if let Shown::Code { nums, .. } = l { nums.len() as u64 } else { 0 }).sum());
        let got: Vec<&str> = if got.is_empty() && lines.is_empty() { vec![] } else { got.split('\n').collect() };
        let same = got.len() == lines.len()
          && got.iter().zip(lines).all(|(g, l)| match l {
            Shown::Unresolved(name) => g.contains(&format!("include::{name}[]")),
            l => *g == want_line(l, h5, icons),
          });
        if !same {
          return Err(viol("callouts", format!("the block shows {got:#?}\nexpected {lines:#?}")));
        }
      }
      Ev::List(items) => {
        ctx.add("list items", items.len() as u64);
        let want = want_list(items, h5, icons);
        if *got != want {
          return Err(viol("list", format!("the list is {got}\nexpected    {want}")));
        }
      }
    }
  }
  let mut got: Vec<(String, u32, String)> = out.diags().iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  got.retain(|g| !(m.unsaid.contains(&(g.0.clone(), g.1)) && g.2.starts_with("No callout found")));
  m.diags.retain(|g| !(m.unsaid.contains(&(g.0.clone(), g.1)) && g.2.starts_with("No callout found")));
  got.sort();
  m.diags.sort();
  ctx.add("warnings", got.len() as u64);
  if got != m.diags {
    return Err(viol("diagnostics", format!("reported {got:?}\nexpected {:?}", m.diags)));
  }
  Ok(())
}
