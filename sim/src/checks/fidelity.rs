//! Text passes through storage and conversion unchanged where it must: the form of line ends does
//! not matter, and what is in a verbatim block comes out of it.
use super::Check;
use super::damage::{clip, compose, damaged, setup, survey};
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

const REAL: &str = "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions and overflow checks on)";
const STUB: &str = "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)";

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "N01",
    run: line_ends,
    quick: 300000,
    thorough: 5000000,
    level: "fault_enumeration",
    rule: "a run counts when some line end was changed; distinct by hash of all bytes delivered and options",
    state_rule: "distinct (damage kinds in order, kinds of line ends, outcome kind, number of diagnostics) tuples",
    real: REAL,
    stub: STUB,
    assumptions: &["no carriage return other than in front of a line feed"],
  }, Check {
    id: "V01",
    run: verbatim,
    quick: 300000,
    thorough: 5000000,
    level: "fault_enumeration",
    rule: "a run counts when the block has content; distinct by hash of all bytes delivered and options",
    state_rule: "distinct (block kind, surroundings, storage of the content, number of lines) tuples",
    real: REAL,
    stub: STUB,
    assumptions: &["no callouts, preprocessor or tag directives in the content"],
  }, Check {
    id: "H01",
    run: markup,
    quick: 300000,
    thorough: 5000000,
    level: "fault_enumeration",
    rule: "every run counts; distinct by hash of all bytes delivered and options",
    state_rule: "distinct (damage kinds in order, number of files, outcome kind, number of diagnostics) tuples",
    real: REAL,
    stub: STUB,
    assumptions: &["documents without passthroughs, subs and stem content"],
  }, Check {
    id: "T01",
    run: well_formed,
    quick: 300000,
    thorough: 5000000,
    level: "fault_enumeration",
    rule: "a run counts when the page has more than one element; distinct by hash of all bytes delivered and options",
    state_rule: "distinct sequences of the names of the page's elements",
    real: REAL,
    stub: STUB,
    assumptions: &["documents without passthroughs, subs and stem content, without quotes, and without angle brackets in attribute values"],
  }]
}

/// every line end as storage of some other system would have it
fn crlf(ctx: &mut Ctx, t: &str, how: usize) -> String {
  match how {
    0 => t.to_string(),
    1 => t.replace('\n', "\r\n"),
    _ => t.split_inclusive('\n').map(|l| if l.ends_with('\n') && ctx.ch.chance(50) { format!("{}\r\n", &l[..l.len() - 1]) } else { l.to_string() }).collect(),
  }
}

fn line_ends(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let t = compose(ctx);
  let mut main = damaged(ctx, t, &mut kinds).replace('\r', "");
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let mut w2 = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let split = ctx.ch.below(3);
  let mut changed = false;
  for i in 0..split {
    let t = compose(ctx);
    let t = damaged(ctx, t, &mut kinds).replace('\r', "");
    let name = if i == 0 { "f.adoc".to_string() } else { format!("f{i}.adoc") };
    let how = ctx.ch.below(3) as usize;
    kinds.push_str(["/n", "/c", "/m"][how]);
    let u = crlf(ctx, &t, how);
    changed |= u != t;
    w.files.insert(format!("/d/{name}"), t.into_bytes());
    w2.files.insert(format!("/d/{name}"), u.into_bytes());
    let at = ctx.ch.idx(main.len() + 1);
    let at = super::damage::cut(&main, at);
    let at = main[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
    main.insert_str(at, &format!("include::{name}[{}]\n", ctx.ch.pick(&["", "", "leveloffset=+1", "lines=2..4", "tag=x", "tags=**", "indent=1", "opts=optional"])));
  }
  let how = ctx.ch.below(3) as usize;
  kinds.push_str(["/N", "/C", "/M"][how]);
  let main2 = crlf(ctx, &main, how);
  changed |= main2 != main;
  let job = setup(ctx, &mut w, &main);
  w2.anything = w.anything.clone();
  let mut job2 = job.clone();
  job2.src = main2.clone();
  ctx.count(["main: lf", "main: crlf", "main: mixed"][how]);
  ctx.nontrivial = changed;
  ctx.log(format!("{:?} embedded={} strict={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main2:?}"));
  for (n, b) in &w2.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  if !changed {
    return Ok(());
  }
  let want = convert(&job, Some(Rc::new(RefCell::new(w))));
  let got = convert(&job2, Some(Rc::new(RefCell::new(w2))));
  ctx.count("conversions");
  ctx.state(fnv_str(&format!("{kinds}{}{}", want.kind(), want.diags().len())));
  let plain = |o: Out| match o {
    Out::Ok(h, d) => Out::Ok(h, d.into_iter().map(rstrip).collect()),
    Out::Err(d) => Out::Err(d.into_iter().map(rstrip).collect()),
    o => o,
  };
  let (want, got) = (plain(want), plain(got));
  if want != got {
    let class = match (&want, &got) {
      (Out::Ok(a, _), Out::Ok(b, _)) if a != b => "output",
      (Out::Ok(..), Out::Ok(..)) | (Out::Err(_), Out::Err(_)) => "diagnostics",
      _ => "outcome",
    };
    if survey(&format!("line ends {class}"), ctx) {
      return Ok(());
    }
    return Err(viol(class, format!("with other line ends\n  {}\ninstead of\n  {}", clip(&got.show()), clip(&want.show()))));
  }
  Ok(())
}

fn rstrip(mut d: Diag) -> Diag {
  d.text.truncate(d.text.trim_end_matches('\r').len());
  // spans of several lines
  d.uwidth = 0;
  d
}

fn esc(s: &str) -> String {
  s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// not what a verbatim block would show as is: preprocessor directives, callouts
fn inert(t: &str, delim: &str) -> String {
  let mut t = t.replace(['\r', '\u{feff}', '\u{1b}'], "");
  for directive in ["include::", "ifdef::", "ifndef::", "ifeval::", "endif::"] {
    while t.contains(directive) {
      t = t.replace(directive, &directive[1..]);
    }
  }
  while let Some(i) = t.match_indices('<').map(|(i, _)| i).find(|i| t[i + 1..].starts_with(|c: char| c.is_ascii_digit() || c == '.' || c == '!')) {
    t.replace_range(i..i + 1, "");
  }
  let lines: Vec<_> = t.split('\n').map(|l| l.trim_end()).filter(|l| l.trim_end() != delim && !(delim == "```" && l.starts_with("```"))).collect();
  let from = lines.iter().position(|l| !l.is_empty()).unwrap_or(lines.len());
  let to = lines.iter().rposition(|l| !l.is_empty()).map_or(from, |i| i + 1);
  lines[from..to].join("\n")
}

fn verbatim(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let kind = ctx.ch.below(6) as usize;
  let (head, delim) = [("", "----"), ("", "...."), ("", "```"), ("[source,rust]\n", "----"), ("[listing]\n", "...."), ("", "++++")][kind];
  let t = compose(ctx);
  let t = damaged(ctx, t, &mut kinds);
  let content = inert(&t, delim);
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let storage = ctx.ch.below(5) as usize;
  let mut delivered = content.clone();
  if storage > 0 && ctx.ch.chance(15) {
    let at = ctx.ch.idx(delivered.len() + 1);
    let at = super::damage::cut(&delivered, at);
    delivered.truncate(at);
    kinds.push('t');
    ctx.count("fault:torn");
  }
  let content = inert(&delivered, delim);
  let mut text = String::new();
  match storage {
    0 => text.push_str(&content),
    n => {
      let form = match n {
        1 => content.clone(),
        2 => format!("{content}\n"),
        3 => content.replace('\n', "\r\n"),
        _ => format!("\u{feff}{content}\n"),
      };
      w.files.insert("/d/f.txt".into(), form.into_bytes());
      text.push_str("include::f.txt[]");
    }
  }
  let block = format!("{head}{delim}\n{text}\n{delim}");
  let place = ctx.ch.below(9) as usize;
  let main = match place {
    0 => format!("{block}\n"),
    1 => format!("para\n\n{block}\n\npara\n"),
    2 => format!("* item\n+\n{block}\n* item\n"),
    3 => format!("====\npara\n\n{block}\n\npara\n====\n"),
    4 => format!("== section\n\n{block}\n\n== section\n"),
    5 => format!("[quote]\n____\n{block}\n____\n"),
    6 => format!("term::\n+\n--\n{block}\n--\n"),
    // what directly follows is not subject to the substitutions of the block
    7 => format!(":tval: zq7\n\npara\n\n{block}\ntail {{tval}} *end*\n"),
    _ => format!("para\n\n{block}\n:tval: zq7\n\ntail {{tval}} *end*\n"),
  };
  let mut main = main;
  if ctx.ch.chance(20) {
    main = crlf(ctx, &main, 1);
  }
  if ctx.ch.chance(25) {
    w.files.insert("/d/outer.adoc".into(), main.into_bytes());
    main = "include::outer.adoc[]\n".into();
    kinds.push('o');
  }
  let mut job = setup(ctx, &mut w, &main);
  job.safe = asciidork_core::SafeMode::Unsafe;
  job.doctype = None;
  job.strict = false;
  ctx.log(format!("{:?} embedded={} strict={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main:?}"));
  for (n, b) in &w.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  ctx.nontrivial = !content.is_empty();
  let out = convert(&job, Some(Rc::new(RefCell::new(w))));
  ctx.count("conversions");
  ctx.count(["----", "....", "```", "source", "listing", "pass"][kind]);
  ctx.state(fnv_str(&format!("{kind}{place}{storage}{}", content.lines().count())));
  let want = match kind {
    5 => content.clone(),
    _ => esc(&content),
  };
  let Out::Ok(html, _) = &out else {
    if survey("verbatim outcome", ctx) {
      return Ok(());
    }
    return Err(viol("outcome", clip(&out.show())));
  };
  let found = match kind {
    5 => html.contains(&want),
    _ => html.contains(&format!(">{want}</pre>")) || html.contains(&format!(">{want}</code></pre>")) || (want.is_empty()),
  };
  if !found {
    if survey(&format!("verbatim content {kind}"), ctx) {
      return Ok(());
    }
    return Err(viol("content", format!("the content {want:?} is not in {}", html)));
  }
  if place >= 7 && !html.contains("tail zq7 <strong>end</strong>") {
    if survey("verbatim tail", ctx) {
      return Ok(());
    }
    return Err(viol("tail", format!("what follows the block was not converted as usual: {html}")));
  }
  Ok(())
}

/// no means left by which the author asks for raw output
fn without_passthroughs(t: &str) -> String {
  let t = t.replace(['\u{1b}', '"'], "").replace("pass", "pazz").replace("subs", "zubs").replace("stem", "ztem").replace("math", "matt").replace("$$", "$");
  let lines: Vec<_> = t
    .split('\n')
    .map(|l| {
      let l = l.trim_end_matches('\r');
      match l {
        "+" => l.to_string(),
        l if l.ends_with(" +") => format!("{} +", l[..l.len() - 2].replace('+', "-")),
        l => l.replace('+', "-"),
      }
    })
    .collect();
  lines.join("\n")
}

const PAYLOADS: [&str; 8] = ["<zq>", "<zq", "x<zq a=1>y</zq>", "><zq>", "<zq/>", "<https://>", "<http://", "<mailto:>"];

/// names no element of a page has
const NAMES: [&str; 5] = ["zq", "http", "ftp", "irc", "mailto"];

/// the values of block attributes and of document attributes are the author's to escape (as they are with Asciidoctor), and
/// a quote in a target, id or role ends the HTML attribute made from it: payloads are placed in text only
fn text_position(t: &str, at: usize) -> bool {
  let from = t[..at].rfind('\n').map_or(0, |i| i + 1);
  let to = t[at..].find('\n').map_or(t.len(), |i| at + i);
  let line = &t[from..to];
  !line.starts_with('[') && !line.starts_with(':') && !line.contains("::") && !line.contains('\'')
}

/// a header, and what repeats its texts elsewhere
fn header(ctx: &mut Ctx) -> String {
  let mut out = String::new();
  let mut line = |ctx: &mut Ctx, keep: usize, of: &[&str]| {
    let mut l = ctx.ch.pick(of).to_string();
    if ctx.ch.chance(60) {
      let at = keep + ctx.ch.idx(l.len() + 1 - keep);
      let payload = *ctx.ch.pick(&PAYLOADS);
      l.insert_str(at, payload);
    }
    out.push_str(&l);
    out.push('\n');
  };
  line(ctx, 2, &["= Title", "= Title: Sub", "= A & B"]);
  if ctx.ch.chance(50) {
    line(ctx, 1, &["Ann B. Lee", "Ann Lee <a@b.co>", "Ann Lee; Bo Kim"]);
    if ctx.ch.chance(50) {
      line(ctx, 1, &["v1.0", "v1.0, 2020-01-01", "v1.0, 2020-01-01: remark"]);
    }
  }
  if ctx.ch.chance(20) {
    line(ctx, 8, &[":title: Other"]);
  }
  out.push('\n');
  if ctx.ch.chance(50) {
    out.push_str(*ctx.ch.pick(&["<<#>>\n\n", "xref:#[]\n\n", "<<main.adoc#>>\n\n", "xref:main.adoc[]\n\n", "{doctitle}\n\n", "{author}, {revremark}\n\n"]));
  }
  out
}

fn markup(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let split = ctx.ch.below(3);
  let mut texts = vec![];
  for i in 0..=split {
    let t = compose(ctx);
    let mut t = without_passthroughs(&damaged(ctx, t, &mut kinds));
    let n = 1 + ctx.ch.below(4);
    for _ in 0..n {
      let at = ctx.ch.idx(t.len() + 1);
      let at = super::damage::cut(&t, at);
      let payload = *ctx.ch.pick(&PAYLOADS);
      if text_position(&t, at) {
        t.insert_str(at, payload);
      }
    }
    if i == 0 {
      for k in 1..=split {
        let at = ctx.ch.idx(t.len() + 1);
        let at = super::damage::cut(&t, at);
        let at = t[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        t.insert_str(at, &format!("include::f{k}.adoc[{}]\n", ctx.ch.pick(&["", "", "leveloffset=1", "lines=2..4", "indent=1", "opts=optional"])));
      }
      if ctx.ch.chance(30) {
        t.insert_str(0, &header(ctx));
      }
    } else {
      w.files.insert(format!("/d/f{i}.adoc"), t.clone().into_bytes());
    }
    texts.push(t);
  }
  let main = texts[0].clone();
  let mut job = setup(ctx, &mut w, &main);
  job.strict = false;
  ctx.log(format!("{:?} embedded={} strict={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main:?}"));
  for (n, b) in &w.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  ctx.nontrivial = true;
  let out = convert(&job, Some(Rc::new(RefCell::new(w))));
  ctx.count("conversions");
  ctx.state(fnv_str(&format!("{kinds}{split}{}{}", out.kind(), out.diags().len())));
  let Out::Ok(html, _) = &out else {
    return Ok(());
  };
  if let Some((class, at)) = injected(html) {
    let from = super::damage::cut(html, at.saturating_sub(80));
    let near: String = html[from..].chars().take(200).collect();
    if survey(&format!("markup {class}"), ctx) {
      return Ok(());
    }
    return Err(viol(class, format!("text became markup: {near:?}")));
  }
  Ok(())
}

/// reads the output as browsers do, and looks for elements no page has
fn injected(html: &str) -> Option<(&'static str, usize)> {
  let b = html.as_bytes();
  let mut i = 0;
  let mut raw: Option<&str> = None;
  while i < b.len() {
    if b[i] != b'<' {
      i += 1;
      continue;
    }
    if let Some(end) = raw {
      if html[i..].starts_with(end) {
        raw = None;
      } else if end == "</title" && html[i + 1..].starts_with("zq") {
        return Some(("title", i));
      } else {
        i += 1;
        continue;
      }
    }
    if html[i..].starts_with("<!--") {
      i = html[i..].find("-->").map_or(b.len(), |n| i + n + 3);
      continue;
    }
    let start = i;
    let name = i + 1 + usize::from(html[i + 1..].starts_with('/'));
    if !b.get(name).is_some_and(|c| c.is_ascii_alphabetic() || *c == b'!') {
      i += 1;
      continue;
    }
    if NAMES.iter().any(|n| html[name..].starts_with(n)) {
      return Some(("element", start));
    }
    for (open, close) in [("script", "</script"), ("style", "</style"), ("title", "</title")] {
      if b[i + 1] != b'/' && html[name..].starts_with(open) {
        raw = Some(close);
      }
    }
    i = name;
    while i < b.len() && b[i] != b'>' {
      match b[i] {
        b'"' | b'\'' if b[i - 1] == b'=' => {
          let end = html[i + 1..].find(b[i] as char).map_or(b.len(), |n| i + 1 + n);
          if html[start..].starts_with("<meta name=\"author\"") && html[i..end].contains("<zq") {
            return Some(("author", start));
          }
          i = html[i + 1..].find(b[i] as char).map_or(b.len(), |n| i + 1 + n + 1);
        }
        b'<' if NAMES.iter().any(|n| html[i + 1..].starts_with(n)) => return Some(("element", i)),
        _ => i += 1,
      }
    }
  }
  None
}

/// lines that change how what follows is rendered
const LINES: [&str; 72] = [
  ":sectids!:", ":sectnums:", ":sectnums: all", ":icons: font", ":icons:", ":icons!:", ":toc:", ":toc: left", ":toc: preamble", ":toc: macro", "toc::[]", ":notitle:", ":noheader:", ":nofooter:",
  ":showtitle:", ":showtitle!:", ":experimental:", ":table-caption!:", ":figure-caption!:", ":example-caption!:", ":listing-caption: L", ":sectanchors:", ":sectlinks:", ":hide-uri-scheme:",
  ":partnums:", ":toclevels: 5", ":appendix-caption!:", ":hardbreaks-option:", ":source-language: rust", ":source-highlighter: prettify", ":title: T & T", ":doctype: book", ":idprefix:", ":revnumber: 1",
  ":favicon:", ":lang: de", ":nolang:", ":docinfo:", ":max-width: 10em", ":css-signature: sig", ":chapter-signifier: Ch", ":imagesdir: i",
  "[horizontal]", "[qanda]", "[glossary]", "[%collapsible]", "[%collapsible%open]", "[%interactive]", "[%autowidth]", "[%header%footer]", "[.r1.r2]", "[#an-id]", "[quote, a, b]", "[verse, c]", "[abstract]", "[partintro]",
  "[cols=2*a]", "[cols=h;m;e;l]", "[bibliography]", "[appendix]", "[index]", "[NOTE]", "[source%linenums,rust]", "[listing]", "[%reversed]", "[start=4]", "[loweralpha]", "[discrete]", ".A *title*", "[dedication]", "[format=csv]", "[literal]",
];

fn well_formed(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let split = ctx.ch.below(3);
  let mut texts = vec![];
  for i in 0..=split {
    let t = compose(ctx);
    let mut t = without_passthroughs(&damaged(ctx, t, &mut kinds));
    for _ in 0..ctx.ch.below(5) {
      let line = *ctx.ch.pick(&LINES);
      let at = ctx.ch.idx(t.len() + 1);
      let at = t[..super::damage::cut(&t, at)].rfind('\n').map(|i| i + 1).unwrap_or(0);
      t.insert_str(at, &format!("{line}\n"));
    }
    // an escaped arrow is shown with a raw `<` (pinned by a unit test)
    while t.contains("\\<") {
      t = t.replace("\\<", "<");
    }
    // what is written into attributes of elements, or by documented means inserted as it is
    let t: Vec<String> = t.split('\n').map(|l| if text_position(l, 0) { l.to_string() } else { l.replace(['<', '>'], "(") }).collect();
    let mut t = t.join("\n");
    if i == 0 {
      for k in 1..=split {
        let at = ctx.ch.idx(t.len() + 1);
        let at = super::damage::cut(&t, at);
        let at = t[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
        t.insert_str(at, &format!("include::f{k}.adoc[{}]\n", ctx.ch.pick(&["", "", "leveloffset=1", "lines=2..4", "indent=1", "opts=optional"])));
      }
    } else {
      w.files.insert(format!("/d/f{i}.adoc"), t.clone().into_bytes());
    }
    texts.push(t);
  }
  let main = texts[0].clone();
  let mut job = setup(ctx, &mut w, &main);
  job.strict = false;
  ctx.log(format!("{:?} embedded={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main:?}"));
  for (n, b) in &w.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  let out = convert(&job, Some(Rc::new(RefCell::new(w))));
  ctx.count("conversions");
  let Out::Ok(html, _) = &out else {
    return Ok(());
  };
  let mut names = String::new();
  // the parts of a page, unless the author gives their ids to something else
  let parts: Vec<&str> = ["header", "content", "footer"].into_iter().filter(|p| !texts.iter().any(|t| t.contains(&format!("#{p}")) || t.contains(&format!("[{p}")) || t.contains(&format!("id={p}")))).collect();
  let flaw = flaw(html, &parts, &mut names);
  ctx.nontrivial = names.len() > 4;
  ctx.state(fnv_str(&names));
  let inline = matches!(job.doctype, Some(asciidork_core::DocType::Inline));
  let changed = texts.iter().any(|t| t.contains("doctype"));
  if flaw.is_none() && !changed {
    let page = usize::from(!job.embedded && !inline);
    for part in ["!DOCTYPE", "html", "head", "title", "body"] {
      let n = names.split(' ').filter(|n| *n == part).count();
      if n != page {
        return Err(viol("part", format!("<{part}> is written {n} times: {html:?}")));
      }
    }
  }
  if let Some((class, at)) = flaw {
    let from = super::damage::cut(html, at.saturating_sub(120));
    let near: String = html[from..].chars().take(240).collect();
    if survey(&format!("flaw {class}"), ctx) {
      return Ok(());
    }
    return Err(viol(class, format!("the page is not well-formed at {near:?}")));
  }
  Ok(())
}

const VOID: [&str; 10] = ["area", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source"];

/// the first place at which elements are not properly written or nested
fn flaw(html: &str, once: &[&str], names: &mut String) -> Option<(String, usize)> {
  let b = html.as_bytes();
  let mut open: Vec<(&str, usize)> = vec![];
  let mut parts = std::collections::BTreeSet::new();
  let mut i = 0;
  while let Some(n) = html[i..].find('<') {
    i += n;
    let start = i;
    let rest = &html[i..];
    if rest.starts_with("<!--") {
      i += rest.find("-->").map(|n| n + 3)?;
      continue;
    }
    if rest.starts_with("<!DOCTYPE html>") {
      names.push_str("!DOCTYPE ");
      i += 15;
      continue;
    }
    let end = rest.starts_with("</");
    i += 1 + usize::from(end);
    let len = b[i..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
    if len == 0 || !b[i].is_ascii_alphabetic() {
      return Some(("a raw <".into(), start));
    }
    let name = &html[i..i + len];
    i += len;
    if end {
      if b.get(i) != Some(&b'>') {
        return Some((format!("malformed </{name}"), start));
      }
      match open.pop() {
        Some((n, _)) if n == name => {}
        Some((n, _)) => return Some((format!("</{name}> in {n}"), start)),
        None => return Some((format!("</{name}> without start"), start)),
      }
      continue;
    }
    names.push_str(name);
    names.push(' ');
    if matches!(name, "div" | "ul" | "ol" | "dl" | "table" | "p" | "pre" | "section" | "blockquote" | "figure" | "body" | "html" | "head" | "h1" | "h2") && open.iter().any(|o| o.0 == "p") {
      return Some((format!("{name} inside p"), start));
    }
    for part in once {
      if html[i..].starts_with(&format!(" id=\"{part}\"")) && !parts.insert(part) {
        return Some((format!("second {part}"), start));
      }
    }
    loop {
      let mut spaces = 0;
      while b.get(i).is_some_and(|c| c.is_ascii_whitespace()) {
        i += 1;
        spaces += 1;
      }
      match b.get(i) {
        Some(b'>') => break,
        Some(b'/') if b.get(i + 1) == Some(&b'>') => {
          i += 1;
          break;
        }
        Some(c) if spaces > 0 && c.is_ascii_alphabetic() => {
          i += b[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || matches!(c, b'-' | b':' | b'_')).count();
          if b.get(i) == Some(&b'=') {
            let Some(n) = html[i + 1..].strip_prefix('"').and_then(|v| v.find('"')) else {
              return Some((format!("value of an attribute of {name}"), start));
            };
            i += n + 3;
          }
        }
        _ => return Some((format!("malformed <{name}"), start)),
      }
    }
    i += 1;
    if name == "script" || name == "style" {
      i += html[i..].find(&format!("</{name}>")).unwrap_or(0);
    }
    if !VOID.contains(&name) {
      open.push((name, start));
    }
  }
  open.pop().map(|(n, at)| (format!("unclosed {n}"), at))
}
