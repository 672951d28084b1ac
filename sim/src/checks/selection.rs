//! Which lines of an included file are used (lines, tags, indent), decoding of what storage
//! delivers, and the include depth bound: reference models written from the documentation.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, SafeMode};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const REAL: &str = "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)";
const STUB: &str = "storage/network behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)";

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "I03",
      run: selection,
      quick: 600000,
      thorough: 4000000,
      level: "fault_enumeration",
      rule: "a run counts when at least one delivered file had tag directives or line ranges selecting a proper part of it; distinct by hash of the full scenario",
      state_rule: "distinct (selector shape, tag structure delivered, torn or not) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
    Check {
      id: "I04",
      run: decoding,
      quick: 600000,
      thorough: 4000000,
      level: "fault_enumeration",
      rule: "a run counts when storage delivered bytes that are not plain UTF-8 text (other encoding, byte order mark, or corrupted); distinct by hash of the scenario",
      state_rule: "distinct (declared encoding, byte order mark, corruption kind, decodable or not) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
    Check {
      id: "I05",
      run: depth,
      quick: 600000,
      thorough: 1500000,
      level: "exploration",
      rule: "a run counts when the include graph is cyclic or the depth limit was reached; distinct by hash of the scenario",
      state_rule: "distinct (limit, relative limits, graph, reads) fingerprints",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
  ]
}

// ------------------------------------------------------------------ I03
#[derive(Debug, Clone, PartialEq)]
enum Sel {
  All,
  Lines(Vec<(usize, usize)>),
  /// a;b — lines inside any of the tags
  Tags(Vec<String>),
  /// !a;!b — lines inside none of the tags
  NotTags(Vec<String>),
  Star,
  NotStar,
  StarStar,
  NotStarStar,
  /// a;!b
  AButB(String, String),
  /// a;!*
  AOnlyOwn(String),
  /// *;!a
  TaggedBut(String),
  /// **;!a
  EverythingBut(String),
  /// !*;a
  UntaggedAndOwn(String),
}

fn tagname(ch: &mut Choices) -> String {
  ch.pick(&["t0", "t1", "t2", "long-tag.name_3"]).to_string()
}

/// lines of a file with properly nested tag directives and some strays
fn gen_lines(ch: &mut Choices, n: &mut u32, base: usize, depth: usize, open: &mut Vec<String>, out: &mut Vec<String>) {
  let k = ch.range(1, 4);
  for _ in 0..k {
    match ch.weighted(&[10, 2, 4, 1]) {
      0 => {
        *n += 1;
        let ind = base + ch.weighted(&[4, 1, 1, 1]);
        out.push(format!("{}x{} line", " ".repeat(ind), n));
      }
      1 => out.push(String::new()),
      2 if depth < 3 => {
        let t = tagname(ch);
        if open.contains(&t) {
          continue;
        }
        let c = *ch.pick(&["// ", "# ", "<!-- ", "  -- "]);
        let e = *ch.pick(&["", "", " -->", " trailing words"]);
        out.push(format!("{c}tag::{t}[]{e}"));
        open.push(t.clone());
        gen_lines(ch, n, base, depth + 1, open, out);
        open.pop();
        if !ch.chance(8) {
          let t2 = if ch.chance(8) { tagname(ch) } else { t };
          out.push(format!("{c}end::{t2}[]{e}"));
        }
      }
      _ => {
        // looks like one, is none
        *n += 1;
        out.push(ch.pick(&["// tag::t0[x] no", "mytag::t0[]", "// tag::[] none", "// end::t1[]no", "tag: t0"]).to_string());
      }
    }
  }
}

fn parse_directive(line: &str) -> Option<(bool, String)> {
  // word boundary, tag:: or end::, name, [], then blank or end of line
  for kw in ["tag::", "end::"] {
    let mut from = 0;
    while let Some(i) = line[from..].find(kw) {
      let at = from + i;
      from = at + 1;
      let boundary = line[..at].chars().next_back().is_none_or(|c| !(c.is_alphanumeric() || c == '_'));
      if !boundary {
        continue;
      }
      let rest = &line[at + kw.len()..];
      let Some(b) = rest.find("[]") else { continue };
      let name = &rest[..b];
      if name.is_empty() || name.contains(char::is_whitespace) {
        continue;
      }
      let after = &rest[b + 2..];
      if after.is_empty() || after.starts_with(' ') || after == "\r" {
        return Some((kw == "tag::", name.to_string()));
      }
    }
  }
  None
}

fn gen_sel(ch: &mut Choices, nlines: usize) -> (Sel, String) {
  match ch.weighted(&[1, 5, 8, 3, 1, 1, 1, 1, 2, 2, 2, 1, 2]) {
    0 => (Sel::All, String::new()),
    1 => {
      let k = ch.range(1, 3);
      let mut v = Vec::new();
      let mut parts = Vec::new();
      for _ in 0..k {
        let a = 1 + ch.idx(nlines + 3);
        match ch.below(5) {
          0 => {
            v.push((a, a));
            parts.push(format!("{a}"));
          }
          1 => {
            let b = a + ch.idx(6);
            v.push((a, b));
            parts.push(format!("{a}..{b}"));
          }
          2 => {
            v.push((a, usize::MAX));
            parts.push(format!("{a}.."));
          }
          3 => {
            v.push((a, usize::MAX));
            parts.push(format!("{a}..-1"));
          }
          _ => {
            v.push((a, a));
            parts.push(format!("{a}"));
            // a reversed range selects nothing
            parts.push(format!("{}..{}", a + 5, a));
          }
        }
      }
      let s = match ch.below(3) {
        0 => format!("lines={}", parts.join(";")),
        1 => format!("lines=\"{}\"", parts.join(",")),
        _ => format!("lines=\"{}\"", parts.join(" ; ")),
      };
      (Sel::Lines(v), s)
    }
    2 => {
      let k = ch.range(1, 3);
      let mut v: Vec<String> = (0..k).map(|_| tagname(ch)).collect();
      v.dedup();
      let s = if v.len() == 1 && ch.chance(50) {
        format!("tag={}", v[0])
      } else if ch.chance(50) {
        format!("tags={}", v.join(";"))
      } else {
        format!("tags=\"{}\"", v.join(","))
      };
      (Sel::Tags(v), s)
    }
    3 => {
      let k = ch.range(1, 2);
      let v: Vec<String> = (0..k).map(|_| tagname(ch)).collect();
      let s = v.iter().map(|t| format!("!{t}")).collect::<Vec<_>>().join(";");
      (Sel::NotTags(v), format!("tags={s}"))
    }
    4 => (Sel::Star, "tags=*".into()),
    5 => (Sel::NotStar, "tags=!*".into()),
    6 => (Sel::StarStar, "tags=**".into()),
    7 => (Sel::NotStarStar, "tags=!**".into()),
    8 => {
      let (a, b) = (tagname(ch), tagname(ch));
      (Sel::AButB(a.clone(), b.clone()), format!("tags={a};!{b}"))
    }
    9 => {
      let a = tagname(ch);
      (Sel::AOnlyOwn(a.clone()), format!("tags={a};!*"))
    }
    10 => {
      let a = tagname(ch);
      (Sel::TaggedBut(a.clone()), format!("tags=*;!{a}"))
    }
    11 => {
      let a = tagname(ch);
      (Sel::EverythingBut(a.clone()), format!("tags=**;!{a}"))
    }
    _ => {
      let a = tagname(ch);
      (Sel::UntaggedAndOwn(a.clone()), format!("tags=!*;{a}"))
    }
  }
}

impl Sel {
  fn by_tags(&self) -> bool {
    !matches!(self, Sel::All | Sel::Lines(_))
  }
  fn wants(&self, stack: &[String]) -> bool {
    let has = |t: &String| stack.contains(t);
    match self {
      Sel::All | Sel::Lines(_) | Sel::StarStar => true,
      Sel::NotStarStar => false,
      Sel::Tags(v) => v.iter().any(has),
      Sel::NotTags(v) => !v.iter().any(has),
      Sel::Star => !stack.is_empty(),
      Sel::NotStar => stack.is_empty(),
      Sel::AButB(a, b) => has(a) && !has(b),
      Sel::AOnlyOwn(a) => stack.last() == Some(a),
      Sel::TaggedBut(a) => !stack.is_empty() && !has(a),
      Sel::EverythingBut(a) => !has(a),
      Sel::UntaggedAndOwn(a) => stack.is_empty() || stack.last() == Some(a),
    }
  }
  fn expected(&self) -> BTreeSet<String> {
    match self {
      Sel::Tags(v) => v.iter().cloned().collect(),
      Sel::AButB(a, _) | Sel::AOnlyOwn(a) | Sel::UntaggedAndOwn(a) => [a.clone()].into(),
      _ => BTreeSet::new(),
    }
  }
}

#[derive(Debug, Default)]
struct Picked {
  lines: Vec<String>,
  /// (line in the included file, or 0 for the directive, message)
  diags: Vec<(u32, String)>,
  proper: bool,
}

/// what the documentation says is selected from the text
fn pick(sel: &Sel, text: &str) -> Picked {
  let mut p = Picked::default();
  let lines: Vec<&str> = match text.strip_suffix('\n').unwrap_or(text) {
    "" if text.is_empty() => vec![],
    t => t.split('\n').collect(),
  };
  if let Sel::Lines(r) = sel {
    for (i, l) in lines.iter().enumerate() {
      if r.iter().any(|(a, b)| *a <= i + 1 && i < *b) {
        p.lines.push(l.to_string());
      }
    }
    p.proper = p.lines.len() < lines.len();
    return p;
  }
  if !sel.by_tags() {
    p.lines = lines.iter().map(|l| l.to_string()).collect();
    return p;
  }
  let expected = sel.expected();
  let mut missing = expected.clone();
  let mut stack: Vec<(String, usize)> = Vec::new();
  for (i, l) in lines.iter().enumerate() {
    match parse_directive(l) {
      Some((true, t)) => {
        missing.remove(&t);
        stack.push((t, i));
        p.proper = true;
      }
      Some((false, t)) => {
        p.proper = true;
        if stack.last().map(|x| &x.0) == Some(&t) {
          stack.pop();
        } else if expected.contains(&t) {
          p.diags.push((
            i as u32 + 1,
            match stack.last() {
              Some((top, _)) => format!("Mismatched end tag, expected `{top}` but found `{t}`"),
              None => format!("Unexpected end tag `{t}`"),
            },
          ));
        }
      }
      None => {
        let names: Vec<String> = stack.iter().map(|s| s.0.clone()).collect();
        if sel.wants(&names) {
          p.lines.push(l.to_string());
        }
      }
    }
  }
  for (t, i) in &stack {
    if expected.contains(t) {
      p.diags.push((*i as u32 + 1, format!("Tag `{t}` was not closed")));
    }
  }
  if !missing.is_empty() {
    let v: Vec<String> = missing.into_iter().collect();
    p.diags.push((
      0,
      format!("Tag{} `{}` not found in included file", if v.len() > 1 { "s" } else { "" }, v.join("`, `")),
    ));
  }
  p
}

fn reindent(lines: &mut [String], indent: usize) {
  let m = lines.iter().filter(|l| !l.is_empty()).map(|l| l.len() - l.trim_start_matches(' ').len()).min().unwrap_or(0);
  for l in lines.iter_mut().filter(|l| !l.is_empty()) {
    *l = format!("{}{}", " ".repeat(indent), &l[m..]);
  }
}

fn selection(ctx: &mut Ctx) -> Verdict {
  const MAIN: &str = "/docs/main.adoc";
  let mut n = 0;
  let nfiles = ctx.ch.range(1, 2) as usize;
  let mut files = Vec::new();
  for f in 0..nfiles {
    let mut lines = Vec::new();
    let base = ctx.ch.weighted(&[6, 1, 2]);
    gen_lines(&mut ctx.ch, &mut n, base, 0, &mut Vec::new(), &mut lines);
    // neither ends nor begins with empty lines half of the time anyway: both are interesting
    files.push((format!("/docs/part{f}.{}", ctx.ch.pick(&["rb", "adoc"])), lines));
  }
  let mut w = World { base_dir: Some("/docs".into()), ..World::default() };
  let mut main: Vec<String> = vec!["w0".into(), String::new()];
  // (line, where it is from)
  let mut flat: Vec<String> = main.clone();
  let mut want: Vec<(String, u32, String)> = Vec::new();
  let k = ctx.ch.range(1, 3);
  let mut shape = String::new();
  for inc in 0..k {
    let (path, lines) = files[ctx.ch.idx(files.len())].clone();
    let crlf = path.ends_with("adoc") && ctx.ch.chance(25);
    let mut text = lines.join("\n");
    if !ctx.ch.chance(30) {
      text.push('\n');
    }
    // torn: only a prefix of the bytes made it to storage
    let torn = ctx.ch.chance(35);
    if torn {
      let keep = ctx.ch.idx(text.len() + 1);
      text.truncate(keep);
      // an unterminated line of blanks is not worth a rule of its own
      text.truncate(text.trim_end_matches(' ').len());
      ctx.count("fault:torn_file");
    }
    let bytes = if crlf { text.replace('\n', "\r\n").into_bytes() } else { text.clone().into_bytes() };
    let utf16 = ctx.ch.chance(10);
    let bytes = if utf16 {
      crate::tree::encode(std::str::from_utf8(&bytes).unwrap(), crate::tree::Enc::Utf16LeBom)
    } else {
      bytes
    };
    w.plan.push(Fault::Bytes(bytes));
    w.files.insert(path.clone(), Vec::new());
    let (sel, attr) = gen_sel(&mut ctx.ch, lines.len());
    // unselected tag directives must not be read as headings
    let listing = !sel.by_tags() || ctx.ch.chance(70);
    let mut attrs = Vec::new();
    if !attr.is_empty() {
      attrs.push(attr);
    }
    let mut text = text;
    if path.ends_with("adoc") {
      text = text.split('\n').map(|l| l.trim_end_matches([' ', '\t'])).collect::<Vec<_>>().join("\n");
    }
    let mut p = pick(&sel, &text);
    if listing && ctx.ch.chance(30) {
      let i = ctx.ch.below(4) as usize;
      attrs.push(format!("indent={i}"));
      reindent(&mut p.lines, i);
    }
    if ctx.ch.chance(20) {
      attrs.reverse();
    }
    if listing {
      main.push("----".into());
      flat.push("----".into());
      let a = ctx.ch.chance(30);
      if a {
        main.push(format!("v{inc} before"));
        flat.push(format!("v{inc} before"));
      }
    }
    main.push(format!("include::{}[{}]", path.rsplit('/').next().unwrap(), attrs.join(",")));
    for (line, msg) in &p.diags {
      match line {
        0 => want.push((MAIN.into(), main.len() as u32, msg.clone())),
        l => want.push((path.clone(), *l, msg.clone())),
      }
    }
    if p.proper {
      ctx.nontrivial = true;
    }
    shape.push_str(&format!("{sel:?}/{}/{}/{torn}{listing};", p.lines.len(), p.diags.len()));
    flat.extend(p.lines.iter().cloned());
    if listing {
      if ctx.ch.chance(30) {
        main.push(format!("v{inc} after"));
        flat.push(format!("v{inc} after"));
      }
      main.push("----".into());
      flat.push("----".into());
    }
    main.push(String::new());
    flat.push(String::new());
    main.push(format!("w{inc} between"));
    flat.push(format!("w{inc} between"));
    main.push(String::new());
    flat.push(String::new());
  }
  ctx.state(fnv_str(&shape));
  let mut job = Job::new(main.join("\n") + "\n", MAIN);
  job.backend = if ctx.ch.chance(20) { Backend::Html5s } else { Backend::DrHtml };
  let mut fj = job.clone();
  fj.src = flat.join("\n") + "\n";
  ctx.log(format!("main:\n{}", job.src));
  for f in &w.plan {
    if let Fault::Bytes(b) = f {
      ctx.log(format!("delivered: {:?}", String::from_utf8_lossy(b)));
    }
  }
  let a = convert(&job, Some(Rc::new(RefCell::new(w))));
  let b = convert(&fj, None);
  ctx.add("conversions", 2);
  ctx.log(format!("outcome: {}", a.kind()));
  if a.html().is_none() || a.html() != b.html() {
    return Err(viol("selection", format!("with include: {}\nselected lines inline: {}\nflat:\n{}", a.show(), b.show(), fj.src)));
  }
  // a torn `# tag::…` line reads as a heading, with the inline document too
  let own = |d: &&Diag| !b.diags().iter().any(|f| f.msg == d.msg);
  let mut got: Vec<(String, u32, String)> = a.diags().iter().filter(own).map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  got.sort();
  want.sort();
  ctx.add("tag_warnings", got.len() as u64);
  if got != want {
    return Err(viol("tag-warnings", format!("reported {got:?}\nexpected {want:?}")));
  }
  Ok(())
}

// ------------------------------------------------------------------ I04
fn decode(bytes: &[u8], attr16: bool) -> Result<String, &'static str> {
  fn u16s(b: &[u8], le: bool) -> Result<String, &'static str> {
    let e = if le { "Invalid UTF-16 (LE)" } else { "Invalid UTF-16 (BE)" };
    if b.len() % 2 != 0 {
      return Err(e);
    }
    let it = b.chunks(2).map(|c| if le { u16::from(c[0]) | u16::from(c[1]) << 8 } else { u16::from(c[1]) | u16::from(c[0]) << 8 });
    char::decode_utf16(it).collect::<Result<String, _>>().map_err(|_| e)
  }
  match bytes {
    [0xFF, 0xFE, rest @ ..] => u16s(rest, true),
    [0xFE, 0xFF, rest @ ..] => u16s(rest, false),
    _ if attr16 => u16s(bytes, true),
    [0xEF, 0xBB, 0xBF, rest @ ..] => String::from_utf8(rest.to_vec()).map_err(|_| "Invalid UTF-8"),
    _ => String::from_utf8(bytes.to_vec()).map_err(|_| "Invalid UTF-8"),
  }
}

fn decoding(ctx: &mut Ctx) -> Verdict {
  const MAIN: &str = "/docs/main.adoc";
  let mut main: Vec<String> = vec!["w0".into(), String::new()];
  let mut flat = main.clone();
  let mut w = World { base_dir: Some("/docs".into()), ..World::default() };
  let mut want = Vec::new();
  let k = ctx.ch.range(1, 3);
  for i in 0..k {
    let ch = &mut ctx.ch;
    let alphabets: [&[char]; 4] = [
      &['a', 'z', 'é', 'ß'],
      &['Ж', '中', '日', '\u{0301}'],
      &['😀', '𝒳', '\u{10FFFF}', 'q'],
      &['\u{FFFD}', '\u{FEFF}', '\u{200B}', 'x'],
    ];
    let mut text = String::new();
    let nl = ch.range(1, 3);
    for l in 0..nl {
      let al = alphabets[ch.idx(4)];
      text.push_str(&format!("L{l}"));
      for _ in 0..ch.below(5) {
        text.push(*ch.pick(al));
      }
      text.push_str("e\n");
    }
    if ch.chance(30) {
      text.pop();
    }
    let enc = ch.below(6);
    let mut bytes = match enc {
      0 => text.clone().into_bytes(),
      1 => [&[0xEF, 0xBB, 0xBF], text.as_bytes()].concat(),
      2 | 3 => {
        let mut v = if enc == 2 { vec![0xFF, 0xFE] } else { vec![] };
        text.encode_utf16().for_each(|u| v.extend(u.to_le_bytes()));
        v
      }
      4 => {
        let mut v = vec![0xFE, 0xFF];
        text.encode_utf16().for_each(|u| v.extend(u.to_be_bytes()));
        v
      }
      // latin-1 bytes: not UTF-8
      _ => text.chars().map(|c| if (c as u32) < 256 { c as u8 } else { b'?' }).collect(),
    };
    let attr = match enc {
      3 => true,
      2 => ch.chance(40),
      _ => ch.chance(8),
    };
    let kind = ch.weighted(&[6, 4, 3, 2, 2]);
    let name = match kind {
      0 => "none",
      1 => {
        let n = ch.idx(bytes.len() + 1);
        bytes.truncate(n);
        "truncated"
      }
      2 => {
        if !bytes.is_empty() {
          let at = ch.idx(bytes.len());
          bytes[at] ^= 1 << ch.below(8);
        }
        "bit_flip"
      }
      3 => {
        let at = ch.idx(bytes.len() + 1);
        bytes.insert(at, ch.below(256) as u8);
        "byte_inserted"
      }
      _ => {
        let at = ch.idx(bytes.len() + 1);
        bytes.truncate(at);
        for _ in 0..ch.below(8) {
          bytes.push(ch.below(256) as u8);
        }
        "tail_garbage"
      }
    };
    // texts whose decoded form the line model below does not cover are left out
    let dec = decode(&bytes, attr);
    if let Ok(t) = &dec
      && (t.chars().any(|c| c.is_control() && c != '\n')
        || t.chars().any(|c| c.is_ascii_punctuation() && c != '?')
        || t.chars().any(|c| c.is_whitespace() && c != '\n'))
    {
      continue;
    }
    if kind != 0 {
      ctx.count(&format!("fault:{name}"));
    }
    if kind != 0 || enc != 0 {
      ctx.nontrivial = true;
    }
    ctx.state(fnv_str(&format!("{enc}{attr}{name}{}{}", dec.is_ok(), w.plan.len())));
    let ch = &mut ctx.ch;
    let ext = *ch.pick(&["adoc", "rb"]);
    let spelled = *ch.pick(&["utf-16", "UTF-16", "utf16"]);
    let attrs = match attr {
      true => format!("encoding={spelled}"),
      false => (*ch.pick(&["", "", "encoding=utf-8"])).to_string(),
    };
    let dir = format!("include::p{i}.{ext}[{attrs}]");
    let path = format!("/docs/p{i}.{ext}");
    w.plan.push(Fault::Bytes(bytes.clone()));
    w.files.insert(path, vec![]);
    let listing = ch.chance(50);
    if listing {
      main.push("----".into());
      flat.push("----".into());
    }
    main.push(dir.clone());
    match dec {
      Ok(t) => flat.extend(t.strip_suffix('\n').unwrap_or(&t).split('\n').map(String::from)),
      Err(e) => {
        want.push((MAIN.to_string(), main.len() as u32, format!("Error resolving file contents: {e}")));
        flat.push(format!("link:p{i}.{ext}[role=include,{attrs}]"));
      }
    }
    if listing {
      main.push("----".into());
      flat.push("----".into());
    }
    for v in [&mut main, &mut flat] {
      v.push(String::new());
      v.push(format!("w{i} between"));
      v.push(String::new());
    }
    ctx.log(format!("delivered for p{i}: {bytes:02x?}"));
  }
  w.resize_dance = ctx.ch.chance(30);
  let job = Job::new(main.join("\n") + "\n", MAIN);
  let mut fj = job.clone();
  fj.src = flat.join("\n") + "\n";
  ctx.log(format!("main:\n{}", job.src));
  let a = convert(&job, Some(Rc::new(RefCell::new(w))));
  let b = convert(&fj, None);
  ctx.add("conversions", 2);
  if a.html().is_none() || a.html() != b.html() {
    return Err(viol("decoded", format!("with include: {}\ndecoded text inline: {}", a.show(), b.show())));
  }
  let got: Vec<(String, u32, String)> = a.diags().iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  if got != want {
    return Err(viol("decode-warnings", format!("reported {got:?}\nexpected {want:?}")));
  }
  Ok(())
}

// ------------------------------------------------------------------ I05
#[derive(Debug, Clone)]
enum Item {
  Text(String),
  Inc { file: usize, depth: Option<u16>, cell: bool },
}

struct Graph {
  files: Vec<Vec<Item>>,
  max: u16,
  reads: Vec<usize>,
  refused: Vec<(usize, u32, String)>,
  words: Vec<String>,
}

impl Graph {
  /// depth: nesting of the current file; rel: (relative limit, depth of the file it was set on)
  fn visit(&mut self, file: usize, depth: u16, rel: Option<(u16, u16)>) -> bool {
    let items = self.files[file].clone();
    for (i, it) in items.iter().enumerate() {
      match it {
        Item::Text(t) => self.words.push(t.clone()),
        Item::Inc { file: f, depth: d, .. } => {
          if self.reads.len() > 300 {
            return false;
          }
          let (r, at) = rel.unwrap_or((self.max, 0));
          let limit = (r + at).min(self.max);
          if depth + 1 > limit {
            self.refused.push((file, line_of(&items, i), format!("Maximum include depth of {r} exceeded")));
            continue;
          }
          self.reads.push(*f);
          let inner = d.map(|d| (d, depth + 1)).or(rel);
          if !self.visit(*f, depth + 1, inner) {
            return false;
          }
        }
      }
    }
    true
  }
}

fn name(f: usize) -> String {
  if f == 0 { "main.adoc".into() } else { format!("g{f}.adoc") }
}

fn render(items: &[Item]) -> (String, Vec<u32>) {
  let mut s = String::new();
  let mut lines = Vec::new();
  let mut ln = 1;
  for it in items {
    match it {
      Item::Text(t) => {
        lines.push(ln);
        s.push_str(&format!("{t}\n\n"));
        ln += 2;
      }
      Item::Inc { file, depth, cell } => {
        let d = match depth {
          Some(d) => format!("depth={d}"),
          None => String::new(),
        };
        if *cell {
          s.push_str("[cols=\"1a\"]\n|===\n");
          ln += 2;
          s.push_str(&format!("|\ninclude::{}[{d}]\n|===\n\n", name(*file)));
          lines.push(ln + 1);
          ln += 4;
        } else {
          lines.push(ln);
          s.push_str(&format!("include::{}[{d}]\n\n", name(*file)));
          ln += 2;
        }
      }
    }
  }
  (s, lines)
}

fn line_of(items: &[Item], i: usize) -> u32 {
  render(items).1[i]
}

fn depth(ctx: &mut Ctx) -> Verdict {
  let nfiles = ctx.ch.range(1, 4) as usize;
  let cells = ctx.ch.chance(25);
  let max = *ctx.ch.pick(&[64u16, 0, 1, 2, 3, 5, 20]);
  let set_max = max != 64 || ctx.ch.chance(20);
  let mut files: Vec<Vec<Item>> = Vec::new();
  for f in 0..=nfiles {
    let mut v = vec![Item::Text(format!("f{f}start"))];
    let k = if f == 0 { ctx.ch.range(1, 2) } else { ctx.ch.below(3) };
    for j in 0..k {
      let t = ctx.ch.range(if f > 0 { 0 } else { 1 }, nfiles as u64) as usize;
      let d = if ctx.ch.chance(25) { Some(ctx.ch.below(5) as u16) } else { None };
      // a cell inside a cell's document cannot use the same separator: cells in main only
      let cell = cells && f == 0 && ctx.ch.chance(50);
      v.push(Item::Inc { file: t, depth: d, cell });
      v.push(Item::Text(format!("f{f}after{j}")));
    }
    files.push(v);
  }
  // tables nested through a cycle back to main would need another cell separator
  if files[0].iter().any(|i| matches!(i, Item::Inc { cell: true, .. })) {
    for v in files.iter_mut().skip(1) {
      for it in v.iter_mut() {
        if let Item::Inc { file, .. } = it
          && *file == 0
        {
          *file = 1;
        }
      }
    }
  }
  let mut g = Graph { files: files.clone(), max, reads: vec![], refused: vec![], words: vec![] };
  if !g.visit(0, 0, None) {
    ctx.count("graphs_too_big");
    return Ok(());
  }
  let mut w = World { base_dir: Some("/docs".into()), max_calls: 400, ..World::default() };
  let mut shape = String::new();
  for (f, items) in files.iter().enumerate() {
    let (text, _) = render(items);
    ctx.log(format!("{}: {text:?}", name(f)));
    shape.push_str(&text);
    w.files.insert(format!("/docs/{}", name(f)), text.into_bytes());
  }
  let mut job = Job::new(render(&files[0]).0, "/docs/main.adoc");
  if set_max {
    job.attrs.push(("max-include-depth".into(), JobAttr::readonly(max.to_string())));
  }
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Server]);
  ctx.log(format!("max-include-depth {max}"));
  let w = Rc::new(RefCell::new(w));
  let a = convert(&job, Some(w.clone()));
  ctx.add("conversions", 1);
  let reads: Vec<String> = w.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  ctx.add("reads", reads.len() as u64);
  ctx.add("refused", g.refused.len() as u64);
  ctx.nontrivial = !g.refused.is_empty();
  ctx.state(fnv_str(&format!("{max}{shape}")));
  ctx.log(format!("reads: {} refused: {}", reads.len(), g.refused.len()));
  let Out::Ok(html, diags) = &a else {
    return Err(viol("depth-outcome", a.show()));
  };
  let want: Vec<String> = g.reads.iter().map(|f| format!("/docs/{}", name(*f))).collect();
  if reads != want {
    return Err(viol("depth-reads", format!("reads {reads:?}\nexpected {want:?}")));
  }
  let mut got: Vec<(String, u32, String)> = diags.iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  let mut wd: Vec<(String, u32, String)> =
    g.refused.iter().map(|(f, l, m)| (format!("/docs/{}", name(*f)), *l, m.clone())).collect();
  got.sort();
  wd.sort();
  if got != wd {
    return Err(viol("depth-warnings", format!("reported {got:?}\nexpected {wd:?}")));
  }
  // every piece of text that was read is there, in order
  let mut at = 0;
  let mut counts: BTreeMap<&String, usize> = BTreeMap::new();
  for word in &g.words {
    *counts.entry(word).or_insert(0) += 1;
    match html[at..].find(&format!("<p>{word}</p>")) {
      Some(i) => at += i + 1,
      None => return Err(viol("depth-content", format!("{word} missing after byte {at} in {html}"))),
    }
  }
  for (word, n) in counts {
    let m = html.matches(&format!("<p>{word}</p>")).count();
    if m != n {
      return Err(viol("depth-content", format!("{word} appears {m} times, expected {n}")));
    }
  }
  Ok(())
}
