//! Damaged documents: whatever bytes storage hands to the converter as main or included file, the
//! conversion ends with a result or with diagnostics.
use super::Check;
use crate::conv::*;
use crate::docgen::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{DocType, JobAttr, SafeMode};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::LazyLock;

const REAL: &str = "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions and overflow checks on)";
const STUB: &str = "storage behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)";

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "B01",
    run: damage,
    quick: 480000,
    thorough: 6000000,
    level: "fault_enumeration",
    rule: "a run counts when the document was damaged; distinct by hash of all bytes delivered and options",
    state_rule: "distinct (damage kinds in order, outcome kind, number of diagnostics) tuples",
    real: REAL,
    stub: STUB,
    assumptions: &["documents up to some 4 kB; the depth of nesting is bounded by that"],
  }, Check {
    id: "L01",
    run: lost_text,
    quick: 480000,
    thorough: 6000000,
    level: "fault_enumeration",
    rule: "a run counts when the document was damaged and converted; distinct by hash of all bytes delivered and options",
    state_rule: "distinct (damage kinds in order, number of sentinels, number of diagnostics) tuples",
    real: REAL,
    stub: STUB,
    assumptions: &["no construct whose documented meaning is to drop text (comments, conditionals, tables, tag and line selections) is generated around the observed paragraphs"],
  }]
}

static CORPUS: LazyLock<Vec<&str>> =
  LazyLock::new(|| include_str!("../../corpus.txt").split("\u{1e}\n").map(|d| d.trim_end_matches('\n')).collect());

const TOKENS: &[&str] = &[
  "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "++++", "[", "]", "[[", "]]", "<<", ">>", "<", ">", "{", "}", "|", "||", "|===", ",===", ":===", "!===", "!", "a|", "2+|", ".2+|", "3*|",
  "----", "....", "====", "****", "____", "```", "--", "////", "//", "\n", "\n\n", "\n+\n", " +\n", " ", "\t", "\\", "\\\\", ":", "::", ":::", "::::", ";;", ";", "=", "==", "======", "=======", ".", "..", "...", "-", "* ", ". ", "- ", "* [x] ", "1. ", "<1> ",
  "<.>", "(((", ")))", "((", "))", "'", "''", "'''", "\"", "\"`", "`\"", "'`", "`'", "[#id]", "[.role]", "[%opt]", "[a,b=c]", "[cols=\"1,a\"]", "[quote,x]", "[verse]", "[NOTE]", "NOTE: ", "[source,rust]", "[stem]", "[horizontal]", "[qanda]", "[discrete]", "[appendix]",
  "[index]", "[partintro]", "[abstract]", "[glossary]", "[bibliography]", "[[[ref]]]", "include::f.adoc[]", "ifdef::x[]", "ifndef::x[]", "endif::[]", "ifeval::[1 < 2]", ":attr: value", ":!attr:", ":attr: v \\\n", "{attr}", "{counter:c}", "{set:a:b}", "image::x.png[]", "image:x.png[]",
  "video::x[]", "audio::x[]", "link:x[y]", "xref:x[y]", "<<x,y>>", "footnote:[x]", "footnote:a[x]", "kbd:[Ctrl+A]", "btn:[x]", "menu:a[b > c]", "pass:[x]", "pass:q,a[x]", "stem:[x]", "latexmath:[x]", "indexterm:[a,b]", "anchor:x[]", "mailto:a@b.c[x]", "http://x.y[z]", "<http://x.y>",
  "a@b.co", "toc::[]", "icon:x[]", "(C)", "(R)", "(TM)", "->", "<-", "=>", "<=", "...", "&amp;", "&#169;", "&", "é", "世", "😀", "\u{a0}", "\u{200b}", "\u{0}", "\u{1b}ass:", "\u{feff}", "\r", "\r\n", "x", "0", "99999999999999999999", "%", "@", "$", "$$", "/", "?", ",", ", ", "=\"", "subs=\"+quotes\"", "leveloffset",
  ":leveloffset: +99", ":toc:", ":sectnums:", ":doctype: book", ":doctype: manpage", ":doctype: inline", ":experimental:", ":icons: font", ":data-uri:", ":hardbreaks-option:", ":xrefstyle: full", ":idprefix:", ":stem:", "asciidorkinclude::[false]", "\u{c}", "\u{b}", "====\n====", "[start=9]", "[%reversed]", "[upperroman]",
  "[cols=3*]", "[%header,format=csv]", "[separator=;]", "[width=50%]", "[subs=none]", "[subs=\"attributes,-quotes\"]", "[indent=2]", "[lines=1..3]", "// tag::x[]", "// end::x[]", "== ", "= ", "=== ", ":max-include-depth: 3", "[[id,text]]", "term:: ", "term::\n", ". a\n.. b\n", "* a\n** b\n", "+\n--\n", "[.lead]",
];

pub fn cut(s: &str, mut i: usize) -> usize {
  i = i.min(s.len());
  while !s.is_char_boundary(i) {
    i -= 1;
  }
  i
}

pub fn piece(ctx: &mut Ctx) -> String {
  match ctx.ch.weighted(&[6, 2, 2, 2]) {
    3 => attributed(ctx),
    0 => ctx.ch.pick(&CORPUS).to_string(),
    1 => {
      let blocks = ctx.ch.range(1, 3);
      let feat = super::includes::swarm(ctx);
      let mut g = DocGen::new(&mut ctx.ch, feat);
      g.body(blocks).into_iter().map(|l| l.text).collect::<Vec<_>>().join("\n")
    }
    _ => {
      let n = ctx.ch.range(1, 8);
      (0..n).map(|_| *ctx.ch.pick(TOKENS)).collect()
    }
  }
}

const ATTRS: &[&str] = &[
  "link=self", "link=none", "link=http://l.m/n", "link=x.html", "window=_blank", "opts=interactive", "opts=inline", "opts=nofollow", "opts=noopener", "opts=autoplay", "opts=loop", "opts=nocontrols", "align=left", "align=center", "float=right", "role=r1 r2", "id=an-id",
  "loading=lazy", "fallback=y.png", "alt=an alt", "title=A title", "width=50", "width=50%", "height=20", "format=svg", "size=2x", "flip=vertical", "rotate=90", "start=3", "end=9", "start=x", "poster=youtube", "poster=vimeo", "poster=wistia", "poster=p.png", "preload=auto", "theme=light",
  "lang=de", "list=PL", "playlist=a;b", "hash=h", "caption=Cap", "caption=", "scaledwidth=5", "subject=s", "body=b", "xrefstyle=full", "labelwidth=20", "itemwidth=80", "frame=ends", "grid=rows", "stripes=even", "cols=2*", "options=\"header,footer\"", "%header", "%interactive", ".rr", "#ii",
  "language=rust", "linenums", "indent=1", "reftext=ref", "attribution=me", "citetitle=it",
];

const MACROS: &[&str] = &[
  "image:", "image::", "icon:", "link:", "xref:", "video::", "audio::", "footnote:", "anchor:", "mailto:", "http:", "kbd:", "btn:", "menu:", "indexterm:", "indexterm2:", "toc::", "stem:", "image:", "image::",
];

/// a macro or a block with a list of attributes it may or may not know
fn attributed(ctx: &mut Ctx) -> String {
  let mut list: Vec<String> = vec![];
  for i in 0..ctx.ch.below(6) {
    list.push(match ctx.ch.below(4) {
      0 if i < 3 => ctx.ch.pick(&["text", "two words", "*b*", "", "1", "x^", "\"q, q\"", "NOTE", "source", "quote", "verse"]).to_string(),
      1 => {
        let a = *ctx.ch.pick(ATTRS);
        match a.split_once('=') {
          Some((n, v)) if !v.starts_with('"') => format!("{n}=\"{v}\""),
          _ => a.to_string(),
        }
      }
      _ => ctx.ch.pick(ATTRS).to_string(),
    });
  }
  let list = list.join(",");
  if ctx.ch.chance(25) {
    let block = *ctx.ch.pick(&[
      "image::a.svg[]", "image::a.png[]", "----\nx\n----", "====\nx\n====", "* a\n* b", ". a\n. b", "a:: b", "|===\n|a |b\n|===", "____\nx\n____", "--\nx\n--", "****\nx\n****", "text", "video::a[]", "== S", "....\nx\n....", "```\nx\n```", "'''",
    ]);
    let title = if ctx.ch.chance(30) { ".T _t_\n" } else { "" };
    return format!("{title}[{list}]\n{block}");
  }
  let name = *ctx.ch.pick(MACROS);
  let target = *ctx.ch.pick(&["a.svg", "a.svg", "a.png", "x", "", "https://s.t/c.svg", "RvRh/Px", "//h/p", "a b", "a&b", "heart", "f.adoc#id", "#id"]);
  let title = if name.ends_with("::") && ctx.ch.chance(30) { ".T _t_\n" } else { "" };
  let tail = if name.ends_with("::") { "" } else { *ctx.ch.pick(&["", " tail", "^", "s"]) };
  format!("{title}{name}{target}[{list}]{tail}")
}

pub fn compose(ctx: &mut Ctx) -> String {
  let n = ctx.ch.range(1, 4);
  let mut t = String::new();
  for i in 0..n {
    if i > 0 {
      let j = *ctx.ch.pick(&["\n\n", "\n", "", " "]);
      t.push_str(j);
    }
    t.push_str(&piece(ctx));
  }
  t
}

pub fn damaged(ctx: &mut Ctx, mut t: String, kinds: &mut String) -> String {
  let n = ctx.ch.below(7);
  for _ in 0..n {
    let a = ctx.ch.idx(t.len() + 1);
    let a = cut(&t, a);
    let len = if ctx.ch.chance(50) { ctx.ch.idx(6) } else { ctx.ch.idx(60) };
    let b = cut(&t, a + len);
    let k = ctx.ch.weighted(&[8, 6, 6, 4, 2, 4, 4, 1]);
    kinds.push(b"idswtlrn"[k] as char);
    ctx.count(["fault:bytes overwritten", "fault:bytes lost", "fault:bytes duplicated", "fault:bytes moved", "fault:torn", "fault:line lost", "fault:bytes inserted", "fault:bytes repeated"][k]);
    match k {
      0 | 6 => {
        let tok = *ctx.ch.pick(TOKENS);
        let b = if k == 6 { a } else { cut(&t, a + 1).max(a) };
        t.replace_range(a..b, tok);
      }
      1 => t.replace_range(a..b, ""),
      2 => {
        let c = t[a..b].to_string();
        t.insert_str(a, &c);
      }
      3 => {
        let c = t[a..b].to_string();
        t.replace_range(a..b, "");
        let to = ctx.ch.idx(t.len() + 1);
        let to = cut(&t, to);
        t.insert_str(to, &c);
      }
      4 => t.truncate(a),
      7 => {
        let b = cut(&t, (a + 6).min(b)).max(a);
        let times = ctx.ch.range(2, 300) as usize;
        let c = t[a..b].repeat(times);
        t.insert_str(a, &c);
      }
      _ => {
        let from = t[..a].rfind('\n').map(|i| i + 1).unwrap_or(0);
        let to = t[a..].find('\n').map(|i| a + i + 1).unwrap_or(t.len());
        t.replace_range(from..to, "");
      }
    }
  }
  t
}

pub fn setup(ctx: &mut Ctx, w: &mut World, main: &str) -> Job {
  w.anything = ctx.ch.chance(30).then(|| b"<svg></svg>".to_vec());
  let mut job = Job::new(main.to_string(), "/d/main.adoc");
  job.backend = if ctx.ch.chance(40) { Backend::Html5s } else { Backend::DrHtml };
  job.embedded = ctx.ch.chance(70);
  job.strict = ctx.ch.chance(10);
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  job.stamps = Some((1_700_000_000, None, None));
  if ctx.ch.chance(20) {
    job.doctype = Some(*ctx.ch.pick(&[DocType::Book, DocType::Inline, DocType::Manpage]));
  }
  for a in ["sectnums", "toc", "data-uri", "icons", "experimental", "hardbreaks-option", "sectanchors", "sectlinks", "idseparator", "linkattrs", "partnums", "compat-mode", "nofooter"] {
    if ctx.ch.chance(6) {
      job.attrs.push((a.into(), JobAttr::modifiable(true)));
    }
  }
  job
}

fn damage(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let t = compose(ctx);
  let mut main = damaged(ctx, t, &mut kinds);
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let split = ctx.ch.below(3);
  for i in 0..split {
    kinds.push('/');
    let t = compose(ctx);
    let t = damaged(ctx, t, &mut kinds);
    let name = if i == 0 { "f.adoc".to_string() } else { format!("f{i}.adoc") };
    let mut bytes = t.into_bytes();
    if ctx.ch.chance(10) {
      let cutoff = ctx.ch.idx(bytes.len() + 1);
      bytes.truncate(cutoff);
      kinds.push('t');
    }
    w.files.insert(format!("/d/{name}"), bytes);
    let at = ctx.ch.idx(main.len() + 1);
    let at = cut(&main, at);
    let at = main[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
    main.insert_str(at, &format!("include::{name}[{}]\n", ctx.ch.pick(&["", "", "leveloffset=+1", "lines=2..4", "tag=x", "tags=**", "indent=1", "opts=optional"])));
  }
  let job = setup(ctx, &mut w, &main);
  ctx.nontrivial = !kinds.is_empty();
  ctx.log(format!("{:?} embedded={} strict={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main:?}"));
  for (n, b) in &w.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  let out = convert(&job, Some(Rc::new(RefCell::new(w))));
  ctx.count("conversions");
  ctx.state(fnv_str(&format!("{kinds}{}{}", out.kind(), out.diags().len())));
  ctx.log(match &out {
    Out::Ok(h, d) => format!("ok {} bytes {:x}, {} warnings", h.len(), fnv_str(h), d.len()),
    o => clip(&o.show()),
  });
  if let Out::Panic(m) = &out {
    if survey(m, ctx) {
      return Ok(());
    }
    let class = format!("panic {}", m.rsplit(" @ ").next().unwrap_or("").replace("/repo/", ""));
    return Err(viol(class, m.clone()));
  }
  Ok(())
}

/// text whose documented meaning is that other text is not shown
const SWALLOWS: &[&str] = &["////", "===|", "|===", ",===", ":===", "!===", "ifdef", "ifndef", "ifeval", "comment", "inline", "doctype", "index"];

fn defused(mut t: String) -> String {
  while let Some(s) = SWALLOWS.iter().find(|s| t.contains(**s)) {
    t = t.replace(s, "");
  }
  t
}

fn lost_text(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let mut w = World { base_dir: Some("/d".into()), max_calls: 400, storage_ends: true, ..World::default() };
  let n = ctx.ch.range(1, 3);
  let mut main = String::new();
  let mut names = vec![];
  if ctx.ch.chance(10) {
    // a comment hides what is in it, and nothing else
    main.push_str("////\n");
    for _ in 0..ctx.ch.below(4) {
      main.push_str(ctx.ch.pick::<&str>(&["hidden\n", "\n", "----\n", "[NOTE]\n", "include::none.adoc[]\n", ":a: b\n", "= No title\n"]));
    }
    main.push_str("////\n");
    main.push_str(ctx.ch.pick::<&str>(&["", "\n", "// line\n"]));
    main.push_str("Sentinelhead\n\n");
    names.push("Sentinelhead".to_string());
  }
  for i in 0..n {
    let t = compose(ctx);
    let t = damaged(ctx, t, &mut kinds);
    if ctx.ch.chance(30) {
      let name = format!("f{i}.adoc");
      kinds.push('/');
      main.push_str(&format!("include::{name}[]\n"));
      let own = format!("Sentinelfile{i}");
      let text = if ctx.ch.chance(50) {
        names.push(own.clone());
        format!("{}\n\n{own}\n", defused(t))
      } else {
        defused(t)
      };
      w.files.insert(format!("/d/{name}"), text.into_bytes());
    } else {
      main.push_str(&defused(t));
    }
    let s = format!("Sentinelmain{i}");
    main.push_str(&format!("\n\n{s}\n\n"));
    names.push(s);
  }
  let mut job = setup(ctx, &mut w, &main);
  job.doctype = ctx.ch.chance(30).then_some(DocType::Book);
  ctx.log(format!("{:?} embedded={} strict={} {:?} {:?} attrs {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>()));
  ctx.log(format!("main {main:?}"));
  for (n, b) in &w.files {
    ctx.log(format!("{n} {:?}", String::from_utf8_lossy(b)));
  }
  let given = w.files.values().map(|b| String::from_utf8_lossy(b).into_owned()).fold(main.clone(), |a, b| a + &b);
  let refused = !matches!(job.safe, SafeMode::Unsafe | SafeMode::Safe | SafeMode::Server);
  let out = convert(&job, Some(Rc::new(RefCell::new(w))));
  let Out::Ok(html, diags) = &out else { return Ok(()) };
  ctx.count("conversions");
  ctx.nontrivial = !kinds.is_empty();
  ctx.state(fnv_str(&format!("{kinds}{}{}", names.len(), diags.len())));
  if let Some(marker) = internal_marker(html, &given)
    && !survey("internal marker", ctx)
  {
    return Err(viol("marker", format!("the output shows the internal marker {marker:?}: {}", clip(html))));
  }
  let mut at = 0;
  for n in names.iter().filter(|n| !refused || !n.starts_with("Sentinelfile")) {
    match html[at..].find(n.as_str()) {
      Some(i) => at += i + n.len(),
      None => {
        let (class, what) = if html.contains(n.as_str()) { ("order", "is not where it was written") } else { ("lost", "is not in the output") };
        if survey(&format!("paragraph {class}"), ctx) {
          return Ok(());
        }
        return Err(viol(class, format!("the paragraph {n} {what}; {} diagnostics: {:?}; output {}", diags.len(), diags.first(), clip(html))));
      }
    }
  }
  Ok(())
}

/// text that only ever exists within the converter: the placeholder of an inline passthrough, and
/// what stands for an escape character
pub fn internal_marker(html: &str, given: &str) -> Option<String> {
  if html.contains('\u{1b}') && !given.contains('\u{1b}') {
    return Some("\u{1b}".into());
  }
  if given.contains("000") || given.contains('\0') {
    return None;
  }
  html.match_indices("^000").map(|(i, _)| &html[i + 1..]).find(|t| t.len() >= 5 && t.as_bytes()[..5].iter().all(u8::is_ascii_digit)).map(|t| format!("^{}", &t[..5]))
}

pub fn survey(m: &str, ctx: &Ctx) -> bool {
  if std::env::var_os("SIM_SURVEY").is_none() {
    return false;
  }
  use std::io::Write;
  let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/survey.txt").unwrap();
  let m = m.replace(['\n', '\t'], " ");
  let _ = f.write_all(format!("{}\t{}\t{:?}\n", m.rsplit(" @ ").next().unwrap(), m, ctx.trace).as_bytes());
  true
}

pub fn clip(s: &str) -> String {
  s.chars().take(600).collect()
}
