//! Documents that are torn at any byte: what arrived is converted as if all blocks open at that
//! place had ended there, and each of them is reported.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "D01",
    run: torn,
    quick: 150000,
    thorough: 4000000,
    level: "fault_enumeration",
    rule: "a run counts when the document was torn inside at least one delimited block; distinct by hash of the full scenario (document, file boundary, place of the tear, settings)",
    state_rule: "distinct (kinds of blocks open at the tear, kind of line torn, file boundary)",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)",
    assumptions: &["lines that delimit blocks are not torn themselves"],
  }]
}

const MAIN: &str = "/docs/main.adoc";
const FILE: &str = "/docs/f.adoc";

#[derive(Debug, Clone)]
struct Line {
  text: String,
  /// this line opens a block, or closes the innermost one
  opens: bool,
  closes: bool,
  /// not torn within
  whole: bool,
  /// a word that has to be shown, or must not be
  word: Option<(String, bool)>,
  kind: char,
}

struct Gen<'a> {
  ch: &'a mut Choices,
  out: Vec<Line>,
  n: u32,
}

#[derive(Clone, Copy)]
struct At {
  depth: usize,
  /// the delimiters it is within, and the tables (those of one length can not be nested)
  within: u8,
  table: u8,
}

const INLINE: &[&str] = &["*bold* text", "_em_ and `mono`", "a <<x>> ref", "plain words", "https://a.b[link]", "a note footnote:[in it]", "{nope}", "`+x+`", "1 < 2 & 3", "icon:x[]"];

impl Gen<'_> {
  fn line(&mut self, kind: char, text: impl Into<String>) {
    self.out.push(Line { text: text.into(), opens: false, closes: false, whole: false, word: None, kind });
  }

  fn delim(&mut self, kind: char, text: &str, opens: bool) {
    self.out.push(Line { text: text.into(), opens, closes: !opens, whole: true, word: None, kind });
  }

  fn words(&mut self, kind: char, pre: &str, shown: bool) {
    self.n += 1;
    let w = format!("w{}w", self.n);
    let text = format!("{pre}{w} {}", self.ch.pick(INLINE));
    self.line(kind, text);
    self.out.last_mut().unwrap().word = Some((w, shown));
  }

  fn gap(&mut self) {
    for _ in 0..if self.ch.chance(85) { 1 } else { 2 } {
      self.line(' ', "");
    }
  }

  fn meta(&mut self, styles: &[&str]) {
    if self.ch.chance(20) {
      self.n += 1;
      let t = format!(".Title {}", self.n);
      self.line('t', t);
    }
    if self.ch.chance(30) {
      let s = *self.ch.pick(styles);
      self.line('m', s);
    }
  }

  fn blocks(&mut self, at: At, max: u64) {
    let n = self.ch.range(1, max);
    for i in 0..n {
      if i > 0 {
        self.gap();
      }
      self.block(at);
    }
  }

  fn block(&mut self, at: At) {
    let deep = at.depth < 4;
    match self.ch.weighted(&[30, if deep { 34 } else { 0 }, 22, if deep { 16 } else { 4 }, if deep && at.table < 2 { 12 } else { 0 }, if at.table == 0 { 5 } else { 0 }, if at.table == 0 { 4 } else { 0 }]) {
      0 => {
        self.meta(&["[.lead]", "[#p]", "[quote]", "[%hardbreaks]"]);
        for i in 0..self.ch.range(1, 3) {
          self.words(if i == 0 { 'p' } else { 'P' }, "", true);
        }
      }
      1 => {
        let i = match self.ch.idx(4) {
          i if at.within & 1 << i == 0 => i,
          _ => 0,
        };
        let k = ['=', '*', '_', '-'][i];
        let d = match k {
          '-' => "--".to_string(),
          '=' => "=".repeat(4 + at.depth),
          k => k.to_string().repeat(4),
        };
        self.meta(match k {
          '=' => &["[NOTE]", "[.r]", "[%collapsible]"],
          '_' => &["[quote, me]", "[#q]"],
          '-' => &["[abstract]", "[TIP]", "[sidebar]"],
          _ => &["[.side]"],
        });
        self.delim(k, &d, true);
        if self.ch.chance(10) {
          self.line(' ', "");
        }
        self.blocks(At { depth: at.depth + 1, within: if i > 0 { at.within | 1 << i } else { at.within }, ..at }, 3);
        if self.ch.chance(15) {
          self.line(' ', "");
        }
        self.delim(k, &d, false);
      }
      2 => {
        // includes after a comment block in a cell are not processed
        let n = if at.table > 0 { 4 } else { 5 };
        let (k, d) = *self.ch.pick(&[('l', "----"), ('.', "...."), ('`', "```"), ('+', "++++"), ('/', "////")][..n]);
        self.meta(match k {
          'l' => &["[source]", "[source,rust]", "[listing]"],
          '.' => &["[literal]", "[.r]"],
          _ => &["[.x]"],
        });
        self.delim(k, d, true);
        for _ in 0..self.ch.below(4) {
          match self.ch.below(4) {
            0 => self.line('v', *[""].first().unwrap()),
            1 => {
              let t = *self.ch.pick(&["* no list", "== no section", "term::", "[NOTE]", ".no title", "  deep", "+"]);
              self.line('v', t);
            }
            _ => self.words('v', "", k != '/'),
          }
        }
        self.delim(k, d, false);
      }
      3 => {
        let marks: &[&str] = if at.depth % 2 == 0 { &["* ", ". ", "w:: "] } else { &["- ", "** ", ".. ", "w;; "] };
        let mark = *self.ch.pick(marks);
        for _ in 0..self.ch.range(1, 3) {
          self.words('i', mark, true);
          if deep && self.ch.chance(35) {
            self.line('c', "+");
            let c = self.out.len() - 1;
            self.block(At { depth: at.depth + 1, ..at });
            if self.out[c + 1].kind == '?' {
              self.out[c].text = "text".into();
              self.out[c].kind = 'P';
            }
            // what follows would be part of a paragraph
            self.line(' ', "");
          }
        }
      }
      5 => {
        let d = *self.ch.pick(&["ifdef::nope[]", "ifeval::[1 > 2]", "ifdef::nope,nada[]"]);
        self.delim('?', d, true);
        for _ in 0..self.ch.below(4) {
          match self.ch.below(5) {
            0 => self.line('v', ""),
            1 => {
              let t = *self.ch.pick(&["----", "====", "|===", "== no section", "////", "ifdef::nada[text]", "include::none.adoc[]", ":x: y"]);
              self.line('v', t);
              self.out.last_mut().unwrap().whole = true;
            }
            2 => {
              for t in ["ifndef::nada[]", "endif::[]"] {
                self.line('v', t);
                self.out.last_mut().unwrap().whole = true;
              }
              // a tear between the two leaves both open
              let n = self.out.len();
              self.out[n - 2].kind = '!';
            }
            _ => self.words('v', "", false),
          }
        }
        self.delim('?', "endif::[]", false);
      }
      6 => {
        let (d, sep) = *self.ch.pick(&[(",===", ','), (":===", ':')]);
        self.delim(sep, d, true);
        for _ in 0..self.ch.below(4) {
          self.words('o', "", true);
          let l = self.out.last_mut().unwrap();
          // no separators or quotes but this one
          let w = l.word.as_ref().unwrap().0.clone();
          l.text = format!("{w}{sep}b c");
          l.whole = true;
        }
        self.delim(sep, d, false);
      }
      _ => {
        let (d, sep) = if at.table == 0 { ("|===", '|') } else { ("!===", '!') };
        self.meta(&["[.t]", "[%autowidth]"]);
        let cols = self.ch.range(1, 2);
        let s = format!("[cols={cols}*]");
        self.line('m', s);
        self.out.last_mut().unwrap().whole = true;
        self.delim(sep, d, true);
        for i in 0..self.ch.below(4) * cols {
          if self.ch.chance(30) {
            let s = format!("a{sep}");
            self.line('a', s);
            self.out.last_mut().unwrap().whole = true;
            self.blocks(At { depth: at.depth + 1, within: 0, table: at.table + 1 }, 2);
          } else {
            self.words('o', &sep.to_string(), true);
          }
          // a blank line after the first line would make it a header
          if i >= cols && self.ch.chance(20) {
            self.line(' ', "");
          }
        }
        self.delim(sep, d, false);
      }
    }
  }
}

fn close(text: &str, stack: &[(usize, String)]) -> String {
  let mut t = text.to_string();
  if !t.is_empty() && !t.ends_with('\n') {
    t.push('\n');
  }
  for (_, d) in stack.iter().rev() {
    t.push_str(d);
    t.push('\n');
  }
  t
}

fn torn(ctx: &mut Ctx) -> Verdict {
  let mut g = Gen { ch: &mut ctx.ch, out: vec![], n: 0 };
  let sections = g.ch.chance(25);
  for i in 0..g.ch.range(1, 4) {
    if i > 0 {
      g.gap();
    }
    if sections && g.ch.chance(40) {
      let t = format!("== Sect {i}");
      g.line('s', t);
      g.gap();
    }
    g.block(At { depth: 0, within: 0, table: 0 });
  }
  let lines = g.out;
  // where it is torn, and from where on it is in a file of its own
  let k = ctx.ch.idx(lines.len());
  let l = &lines[k];
  let cut = match l.whole {
    true => 0,
    false => {
      let n = ctx.ch.idx(l.text.len() + 1);
      // white space at the end of a line never counts
      l.text[..super::damage::cut(&l.text, n)].trim_end().len()
    }
  };
  let split = if ctx.ch.chance(50) { Some(ctx.ch.idx(k + 1)) } else { None };
  // comment blocks and what is left out are not preprocessed
  let split = split.filter(|j| lines[..*j].iter().filter(|l| l.kind == '?').count() % 2 == 0 && lines[..*j].iter().filter(|l| l.kind == '/').count() % 2 == 0);
  // a plus is text unless a line follows
  if k > 0 && lines[k - 1].kind == '!' {
    return Ok(());
  }
  if l.kind == 'c' || cut == 0 && k > 0 && lines[k - 1].kind == 'c' {
    return Ok(());
  }
  let mut stack: Vec<(usize, String)> = vec![];
  let mut kinds = String::new();
  for (i, l) in lines[..k].iter().enumerate() {
    if l.opens {
      stack.push((i, if l.kind == '?' { "endif::[]".into() } else { l.text.clone() }));
      kinds.push(l.kind);
    } else if l.closes {
      stack.pop();
      kinds.pop();
    }
  }
  let mut arrived: Vec<&str> = lines[..k].iter().map(|l| l.text.as_str()).collect();
  arrived.push(&l.text[..cut]);
  let text = |from: usize, to: usize| arrived[from..to].join("\n");
  let h5 = ctx.ch.chance(30);
  let embedded = ctx.ch.chance(92);
  let mut job = Job::new("", MAIN);
  job.embedded = embedded;
  job.backend = if h5 { Backend::Html5s } else { Backend::DrHtml };
  let crlf = ctx.ch.chance(10);
  let ends = |t: String| if crlf { t.replace('\n', "\r\n") } else { t };
  let whole = lines.iter().map(|l| l.text.as_str()).collect::<Vec<_>>();
  // the two documents: as torn, and with all blocks closed
  let own_close = ctx.ch.chance(50);
  let run = |closed: bool, ctx: &mut Ctx| -> (Out, String) {
    let mut job = job.clone();
    let mut w = World { base_dir: Some("/docs".into()), max_calls: 400, ..World::default() };
    match split {
      None => {
        let t = text(0, k + 1);
        job.src = ends(if closed { close(&t, &stack) } else { t });
      }
      Some(j) => {
        let mut main = text(0, j);
        if j > 0 {
          main.push('\n');
        }
        main.push_str("include::f.adoc[]\n");
        let mut file = text(j, k + 1);
        if closed && own_close {
          file = close(&file, &stack);
        } else if closed {
          main = close(&main, &stack);
        }
        job.src = ends(main);
        w.files.insert(FILE.into(), ends(whole[j..].join("\n")).into_bytes());
        w.plan = vec![Fault::Bytes(ends(file).into_bytes())];
      }
    }
    let log = format!("closed {closed}: main:\n{}\nfile: {:?}", job.src, w.plan.iter().map(|f| if let Fault::Bytes(b) = f { String::from_utf8_lossy(b).into_owned() } else { String::new() }).collect::<Vec<_>>());
    ctx.count("conversions");
    (convert(&job, Some(Rc::new(RefCell::new(w)))), log)
  };
  ctx.log(format!("{:?} embedded {embedded} crlf {crlf} split {split:?} torn at line {k} byte {cut}", job.backend));
  let (open, log) = run(false, ctx);
  ctx.log(log);
  let (closed, log) = run(true, ctx);
  ctx.log(log);
  ctx.count("fault:torn");
  ctx.add("blocks left open", stack.len() as u64);
  ctx.state(fnv_str(&format!("{kinds}/{}{}/{:?}", l.kind, cut > 0, split.map(|j| (j == k, stack.iter().filter(|s| s.0 < j).count())))));
  ctx.nontrivial = !stack.is_empty();
  for o in [&open, &closed] {
    if let Out::Panic(p) = o {
      return Err(viol("panic", format!("conversion panicked: {p}")));
    }
  }
  let (Some(a), Some(b)) = (open.html(), closed.html()) else {
    return Err(viol("no-output", format!("{}\n{}", open.show(), closed.show())));
  };
  if a != b {
    return Err(viol(format!("content {kinds} {}", l.kind), format!("torn, the document is\n{a}\nwith its blocks closed\n{b}")));
  }
  let place = |i: usize| match split {
    Some(j) if i >= j => (FILE.to_string(), (i - j) as u32 + 1),
    _ => (MAIN.to_string(), i as u32 + 1),
  };
  let unclosed = |m: &str| m.contains("never closed") || m.starts_with("Unclosed");
  let said = |o: &Out| -> Vec<(String, u32, String)> {
    o.diags().iter().filter(|d| d.msg != "Unattached block metadata").map(|d| (norm(&d.file), d.line, if unclosed(&d.msg) { "unclosed".into() } else { d.msg.clone() })).collect()
  };
  // block attributes and titles in front of the end of a block are dropped, those in front of the end of the
  // document are reported
  let mut want = said(&closed);
  for (i, _) in &stack {
    let (f, l) = place(*i);
    want.push((f, l, "unclosed".into()));
  }
  let mut got = said(&open);
  got.sort();
  want.sort();
  ctx.add("warnings", got.len() as u64);
  if got != want {
    return Err(viol(format!("reports {kinds} {}", l.kind), format!("reported {got:?}\nexpected {want:?}")));
  }
  for (w, shown) in lines[..k].iter().filter_map(|l| l.word.as_ref()) {
    if a.contains(w.as_str()) != *shown {
      return Err(viol(format!("words {kinds} {}", l.kind), format!("{w} shown: {}\n{a}", !shown)));
    }
  }
  Ok(())
}
