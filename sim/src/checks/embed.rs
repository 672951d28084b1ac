//! Content read beside the document proper: docinfo files and embedded images.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, Path, SafeMode};
use asciidork_parser::parser::SourceFile;
use std::cell::RefCell;
use std::rc::Rc;

const REAL: &str = "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)";
const STUB: &str = "storage/network behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)";

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "E01",
      run: docinfo,
      quick: 450000,
      thorough: 6000000,
      level: "fault_enumeration",
      rule: "a run counts when at least one docinfo file was asked for; distinct by hash of the full scenario",
      state_rule: "distinct (selection, directory kind, substitutions, per-file outcome) fingerprints",
      real: REAL,
      stub: STUB,
      assumptions: &["line breaks inside docinfo are compared only when the code keeps them (known finding docinfo-lines-joined)"],
    },
    Check {
      id: "E02",
      run: images,
      quick: 450000,
      thorough: 6000000,
      level: "fault_enumeration",
      rule: "a run counts when at least one image was read from simulated storage; distinct by hash of the full scenario",
      state_rule: "distinct sequences of (image kind, delivered length mod 3 or fault, position kind)",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
  ]
}

// ------------------------------------------------------------------ E01
#[derive(Clone, Debug)]
struct DocinfoFile {
  /// decoded text storage means to deliver, None when the read fails or is undecodable
  text: Option<String>,
  bytes: Vec<u8>,
  fault: Fault,
}

fn utf16(s: &str, be: bool) -> Vec<u8> {
  let mut v = if be { vec![0xFE, 0xFF] } else { vec![0xFF, 0xFE] };
  for u in s.encode_utf16() {
    v.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
  }
  v
}

fn docinfo_file(ctx: &mut Ctx, tag: &str) -> DocinfoFile {
  let ch = &mut ctx.ch;
  let k = ch.weighted(&[1, 4, 4, 3, 2]);
  let mut lines = Vec::new();
  for i in 0..k {
    let body = *ch.pick(&[
      "<meta name=\"x\" content=\"y\">",
      "<script>let a = 'b' && c;</script>",
      "{foo}",
      "{nope} after",
      "{foo}/{bar}.js",
      "(C) x -> y <- z => (TM) (R)",
      "wait...",
      "",
      "é 世界 \u{1F600}",
      "<style>p { color: red }</style>",
      "*not bold* `nor mono`",
      "{unsetattr}",
      "{set-empty}|",
      "  indented  ",
    ]);
    lines.push(format!("{tag}{i}<{body}>"));
  }
  let eol = *ch.pick(&["\n", "\r\n"]);
  let mut text = lines.join(eol);
  if ch.chance(60) && k > 0 {
    text.push_str(eol);
  }
  let mut bytes = text.clone().into_bytes();
  let mut ok = true;
  let mut fault = Fault::None;
  match ch.weighted(&[10, 2, 1, 1, 2, 2, 2]) {
    1 => {
      bytes.splice(0..0, [0xEF, 0xBB, 0xBF]);
    }
    2 => bytes = utf16(&text, false),
    3 => bytes = utf16(&text, true),
    // torn inside a character
    4 => {
      bytes.extend_from_slice(*ch.pick(&[&[0xC3u8][..], &[0xE2, 0x82], &[0xFF], &[0xF0, 0x9F]]));
      ok = false;
    }
    5 => {
      fault = Fault::NotFound;
      ok = false;
    }
    6 => {
      fault = ch.pick(&[Fault::Io("EIO".into()), Fault::Restricted, Fault::CaseMismatch, Fault::UriRead, Fault::BaseDir]).clone();
      ok = false;
    }
    _ => {}
  }
  DocinfoFile { text: ok.then_some(text), bytes, fault }
}

fn docinfo(ctx: &mut Ctx) -> Verdict {
  let with_path = ctx.ch.chance(85);
  let mut hdr: Vec<String> = Vec::new();
  // which files: the reference selection
  let sel = ctx.ch.weighted(&[2, 3, 3, 3, 8, 2]);
  let mut on: Vec<String> = Vec::new();
  match sel {
    0 => {}
    1 => {
      hdr.push(":docinfo1:".into());
      on.push("shared".into());
    }
    2 => {
      hdr.push(":docinfo2:".into());
      on.extend(["private".to_string(), "shared".into()]);
    }
    3 => {
      hdr.push(":docinfo:".into());
      on.push("private".into());
    }
    4 => {
      let k = ctx.ch.range(1, 4);
      for _ in 0..k {
        on.push(
          ctx.ch
            .pick(&["shared", "private", "shared-head", "private-head", "shared-header", "private-header", "shared-footer", "private-footer", "bogus"])
            .to_string(),
        );
      }
      let sep = *ctx.ch.pick(&[",", ", "]);
      hdr.push(format!(":docinfo: {}", on.join(sep)));
      if ctx.ch.chance(20) {
        // the explicit form wins over the numbered ones
        hdr.push(ctx.ch.pick(&[":docinfo1:", ":docinfo2:"]).to_string());
      }
    }
    _ => {
      hdr.push(":docinfo1:".into());
      hdr.push(":docinfo2:".into());
      on.extend(["private".to_string(), "shared".into()]);
    }
  }
  let has = |on: &[String], scope: &str, place: &str| on.iter().any(|o| o == scope || *o == format!("{scope}-{place}"));
  let (dirk, dir) = match ctx.ch.weighted(&[5, 3, 2, 1]) {
    0 => ("base", "/docs".to_string()),
    1 => {
      hdr.push(":docinfodir: info".into());
      ("rel", "/docs/info".to_string())
    }
    2 => {
      hdr.push(":docinfodir: /abs/info".into());
      ("abs", "/abs/info".to_string())
    }
    _ => {
      hdr.push(":docinfodir: ../up".into());
      ("up", "/up".to_string())
    }
  };
  let (attrs, repl) = match ctx.ch.weighted(&[4, 2, 2, 2, 1]) {
    0 => (true, false),
    1 => {
      hdr.push(":docinfosubs: attributes,replacements".into());
      (true, true)
    }
    2 => {
      hdr.push(":docinfosubs: replacements".into());
      (false, true)
    }
    3 => {
      hdr.push(":docinfosubs: macros".into());
      (false, false)
    }
    _ => {
      hdr.push(":docinfosubs: quotes, attributes".into());
      (true, false)
    }
  };
  let missing = *ctx.ch.pick(&["skip", "drop", "drop-line", "warn"]);
  if missing != "skip" || ctx.ch.chance(30) {
    hdr.push(format!(":attribute-missing: {missing}"));
  }
  hdr.push(":foo: FOO".into());
  hdr.push(":bar: b-{foo}".into());
  hdr.push(":unsetattr: x".into());
  hdr.push(":!unsetattr:".into());
  hdr.push(":set-empty:".into());
  let suffix = if ctx.ch.chance(20) { ".xhtml" } else { ".html" };
  let noheader = ctx.ch.chance(15);
  if noheader {
    hdr.push(":noheader:".into());
  }
  let nofooter = ctx.ch.chance(15);
  if nofooter {
    hdr.push(":nofooter:".into());
  }
  // every file that could be asked for exists or fails as planned
  let mut fs: Vec<(String, DocinfoFile)> = Vec::new();
  for (place, q) in [("head", ""), ("header", "-header"), ("footer", "-footer")] {
    for scope in ["shared", "private"] {
      let name = if scope == "shared" { format!("docinfo{q}{suffix}") } else { format!("main-docinfo{q}{suffix}") };
      let f = docinfo_file(ctx, &format!("{}{}x", place.replace("header", "hdr"), &scope[..2]));
      fs.push((format!("{dir}/{name}"), f));
    }
  }
  let safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  let embedded = ctx.ch.chance(12);
  let src = format!("= Title\n{}\n\nBody text.\n", hdr.join("\n"));
  let mut job = Job::new(src.clone(), "/docs/main.adoc");
  if !with_path {
    job.file = SourceFile::Stdin { cwd: Path::new("/docs") };
  }
  job.safe = safe;
  job.embedded = embedded;
  job.strict = ctx.ch.chance(30);
  job.backend = *ctx.ch.pick(&[Backend::DrHtml, Backend::Html5s]);
  if suffix != ".html" {
    job.attrs.push(("outfilesuffix".into(), JobAttr::readonly(suffix)));
  }
  ctx.log(format!("safe={safe:?} embedded={embedded} path={with_path} suffix={suffix} backend={:?}", job.backend));
  ctx.log(src);
  let mut w = World { base_dir: Some("/docs".into()), max_calls: 60, resize_dance: ctx.ch.chance(30), ..World::default() };
  for (p, f) in &fs {
    ctx.log(format!("{p} [{}]: {:?} bytes {:?}", f.fault.name(), f.text, &f.bytes[..f.bytes.len().min(40)]));
    w.files.insert(p.clone(), f.bytes.clone());
    if f.fault != Fault::None {
      w.path_plan.insert(p.clone(), f.fault.clone());
    }
  }
  // without docinfo: the same document, the attribute taken away
  let mut base = job.clone();
  base.src = job.src.lines().filter(|l| !l.starts_with(":docinfo")).map(|l| format!("{l}\n")).collect();
  let plain = convert(&base, None);
  let w = Rc::new(RefCell::new(w));
  let out = convert(&job, Some(w.clone()));
  ctx.add("conversions", 2);
  let (Some(html), Some(plain)) = (out.html(), plain.html()) else {
    return Err(viol("docinfo-outcome", format!("{}\n{}", out.show(), plain.show())));
  };
  if !out.diags().is_empty() {
    return Err(viol("docinfo-reported", out.show()));
  }
  // model: reads and content
  let mut want_reads = Vec::new();
  let mut content = Vec::new();
  let mut outcome = String::new();
  for (i, place) in ["head", "header", "footer"].iter().enumerate() {
    let mut parts: Vec<String> = Vec::new();
    for (j, scope) in ["shared", "private"].iter().enumerate() {
      if !has(&on, scope, place) || (*scope == "private" && !with_path) || safe == SafeMode::Secure {
        continue;
      }
      let (p, f) = &fs[2 * i + j];
      want_reads.push(p.clone());
      outcome.push_str(if f.text.is_some() { "o" } else { f.fault.name() });
      if f.text.is_none() {
        ctx.count(&format!("fault:{}", if f.fault == Fault::None { "undecodable" } else { f.fault.name() }));
      }
      if let Some(t) = &f.text {
        parts.push(render_docinfo(t, attrs, repl, missing));
      }
    }
    content.push(parts.join("\n"));
  }
  ctx.nontrivial = !want_reads.is_empty();
  ctx.state(fnv_str(&format!("{sel}{dirk}{attrs}{repl}{missing}{outcome}{embedded}")));
  let reads: Vec<String> = w.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  if !embedded && reads != want_reads {
    return Err(viol("docinfo-reads", format!("read {reads:?}\nexpected {want_reads:?}")));
  }
  if w.borrow().calls.iter().any(|c| c.uri || c.safe != safe) {
    return Err(viol("docinfo-call", format!("{:?}", w.borrow().calls)));
  }
  let mut want = plain.to_string();
  if !embedded {
    // end first, so that positions stay put
    let foot = want.rfind("</body>").unwrap();
    want.insert_str(foot, &content[2]);
    let b = want.find("<body").unwrap();
    let hdr = b + want[b..].find('>').unwrap() + 1;
    want.insert_str(hdr, &content[1]);
    let head = want.find("</head>").unwrap();
    want.insert_str(head, &content[0]);
  }
  let flat = |s: &str| s.replace('\n', "");
  let same = *html == want || (ctx.known("docinfo-lines-joined") && flat(html) == flat(&want));
  if !same {
    return Err(viol("docinfo-content", format!("got  {html}\nwant {want}")));
  }
  Ok(())
}

fn render_docinfo(text: &str, attrs: bool, repl: bool, missing: &str) -> String {
  let text = text.replace("\r\n", "\n");
  let mut out = Vec::new();
  'line: for l in text.lines() {
    let mut l = l.to_string();
    if attrs {
      l = l.replace("{foo}", "FOO").replace("{bar}", "b-FOO").replace("{set-empty}", "");
      for m in ["{nope}", "{unsetattr}"] {
        if l.contains(m) {
          match missing {
            "drop" => l = l.replace(m, ""),
            "drop-line" => continue 'line,
            _ => {}
          }
        }
      }
    }
    if repl {
      // left to right, longest first
      let table = [
        ("(TM)", "&#8482;"),
        ("(C)", "&#169;"),
        ("(R)", "&#174;"),
        ("...", "&#8230;&#8203;"),
        ("->", "&#8594;"),
        ("=>", "&#8658;"),
        ("<-", "&#8592;"),
        ("<=", "&#8656;"),
      ];
      let mut r = String::new();
      let mut i = 0;
      'ch: while i < l.len() {
        for (from, to) in table {
          if l[i..].starts_with(from) {
            r.push_str(to);
            i += from.len();
            continue 'ch;
          }
        }
        let c = l[i..].chars().next().unwrap();
        r.push(c);
        i += c.len_utf8();
      }
      l = r;
    }
    out.push(l);
  }
  out.join("\n")
}

// ------------------------------------------------------------------ E02
fn b64(b: &[u8]) -> String {
  const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut s = String::new();
  for c in b.chunks(3) {
    let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 {
      if i <= c.len() {
        s.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
      } else {
        s.push('=');
      }
    }
  }
  s
}


#[derive(Clone, Debug, PartialEq)]
enum Use {
  /// an image reference: (unique file name, as inline svg, width, height)
  Img { file: String, svg: bool, alt: Option<String>, w: Option<String>, h: Option<String> },
  /// an admonition showing an icon image
  Icon,
}

#[derive(Clone, Debug)]
struct Want {
  what: Use,
  /// the file it must read (normalised), None when it stays a link
  read: Option<String>,
  mime: String,
  file: String,
  line: u32,
}

struct Gen {
  n: u32,
  data: bool,
  icons: Option<&'static str>,
  icontype: Option<&'static str>,
  imagesdir: Option<&'static str>,
  iconsdir: Option<&'static str>,
  wants: Vec<Want>,
  contents: Vec<(String, Vec<u8>)>,
  files: Vec<(String, String, String)>,
  kinds: String,
  budget: i32,
}

struct Lines {
  file: String,
  real: Vec<String>,
  base: Vec<String>,
}

impl Lines {
  fn push(&mut self, s: impl Into<String>) {
    let s = s.into();
    self.base.push(s.clone());
    self.real.push(s);
  }
  fn push2(&mut self, real: String, base: String) {
    self.real.push(real);
    self.base.push(base);
  }
}

fn svg_text(ch: &mut Choices) -> String {
  let pre = *ch.pick(&[
    "",
    "<?xml version=\"1.0\"?>\n",
    "<!-- drawn by hand -->\n",
    "<!-- optimised with <svgo> -->\n",
    "\n  ",
    "<?xml version=\"1.0\"?>\n<!DOCTYPE svg PUBLIC \"x\">\n<!-- c -->\n",
  ]);
  let mut s = format!("{pre}<svg");
  for a in ["viewBox=\"0 0 1 1\"", "xmlns=\"http://www.w3.org/2000/svg\"", "width=\"5\"", "height='6'", "style=\"a:b\"", "data-x=\"y\""] {
    if ch.chance(45) {
      s.push_str(*ch.pick(&[" ", "\n", "  "]));
      s.push_str(a);
    }
  }
  s.push('>');
  for _ in 0..ch.below(4) {
    s.push_str(*ch.pick(&[
      "<path d=\"M0 0\"/>",
      "<rect width=\"3\" height=\"4\" style=\"fill:red\"/>",
      "<svg width=\"9\"><g/></svg>",
      "é世\u{1F600}",
      "\n  <text>a &lt; b</text>\n",
    ]));
  }
  s.push_str("</svg>");
  s.push_str(*ch.pick(&["\n", "", "  \n\n"]));
  s
}

impl Gen {
  fn join(&self, dir: Option<&str>, f: &str) -> String {
    match dir {
      None | Some("") => norm(&format!("/docs/{f}")),
      Some(d) if d.starts_with('/') => norm(&format!("{d}/{f}")),
      Some(d) => norm(&format!("/docs/{d}/{f}")),
    }
  }

  /// an image macro, as (real, baseline) text
  fn img(&mut self, ch: &mut Choices, block: bool, l: &Lines) -> (String, String) {
    self.n += 1;
    if ch.chance(5) {
      // is its own content: never read
      let m = if block { "image::" } else { "image:" };
      let t = format!("{m}data:image/gif;base64,R0lGODlhAQABAAAAACw={}[dot]", self.n);
      return (t.clone(), t);
    }
    let ext = *ch.pick(&["png", "gif", "svg", "jpg", "svg"]);
    let file = format!("im{}.{ext}", self.n);
    let sub = if ch.chance(20) { "sub/" } else { "" };
    let mut pos: Vec<String> = Vec::new();
    let mut named: Vec<String> = Vec::new();
    let alt = match ch.weighted(&[5, 3, 1]) {
      0 => None,
      1 => Some(format!("alt {}", self.n)),
      _ => Some(format!("a < b {}", self.n)),
    };
    let (mut w, mut h) = (None, None);
    if let Some(a) = &alt {
      pos.push(a.clone());
    }
    match ch.weighted(&[6, 2, 2, 1, 1]) {
      1 if alt.is_some() => {
        w = Some("100".to_string());
        pos.push("100".into());
      }
      2 => {
        w = Some("70".to_string());
        h = Some("80".to_string());
        named.extend(["width=70".into(), "height=80".into()]);
      }
      3 => {
        h = Some("50%".to_string());
        named.push("height=50%".into());
      }
      4 if alt.is_some() => {
        w = Some("7".to_string());
        h = Some("8".to_string());
        pos.extend(["7".into(), "8".into()]);
      }
      _ => {}
    }
    if block && ch.chance(15) {
      named.push("link=http://x.example".into());
    }
    let mut inline = false;
    let mut svg = false;
    if ch.chance(45) {
      inline = true;
      svg = ext == "svg";
      if ch.chance(15) {
        named.push("format=svg".into());
        svg = true;
      } else if ch.chance(8) {
        named.push("format=png".into());
        svg = false;
      }
    }
    let base: Vec<String> = pos.iter().chain(&named).cloned().collect();
    let mut real = pos.clone();
    real.extend(named.clone());
    if inline {
      real.push("opts=inline".into());
    }
    let m = if block { "image::" } else { "image:" };
    let t = format!("{sub}{file}");
    let path = self.join(self.imagesdir, &t);
    let read = (svg || self.data).then(|| path.clone());
    self.kinds.push_str(&format!("{}{}{};", if svg { 's' } else if self.data { 'd' } else { 'l' }, block as u8, ext));
    // storage
    let bytes = if ext == "svg" || svg {
      let t = svg_text(ch);
      match ch.weighted(&[12, 2, 1, 1, 1, 1, 2]) {
        1 => [&[0xEFu8, 0xBB, 0xBF][..], t.as_bytes()].concat(),
        2 => utf16(&t, false),
        3 => utf16(&t, true),
        4 => b" \n ".to_vec(),
        5 => b"no markup".to_vec(),
        6 => {
          // torn
          let n = ch.idx(t.len());
          t.as_bytes()[..n].to_vec()
        }
        _ => t.into_bytes(),
      }
    } else {
      let n = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 6, 31, 64, 300]);
      (0..n).map(|_| ch.below(256) as u8).collect()
    };
    self.contents.push((path, bytes));
    if svg || self.data {
      self.wants.push(Want {
        what: Use::Img { file: file.clone(), svg, alt, w, h },
        read,
        mime: if ext == "svg" { "svg+xml".into() } else { ext.into() },
        file: l.file.clone(),
        line: l.real.len() as u32 + 1,
      });
    }
    (format!("{m}{t}[{}]", real.join(",")), format!("{m}{t}[{}]", base.join(",")))
  }

  fn inline(&mut self, ch: &mut Choices, l: &Lines, pre: &str, post: &str) -> (String, String) {
    let (r, b) = self.img(ch, false, l);
    match ch.below(5) {
      0 => (format!("{pre}{r}{post}"), format!("{pre}{b}{post}")),
      1 => (format!("{pre}word {r} word{post}"), format!("{pre}word {b} word{post}")),
      2 => (format!("{pre}*bold {r} x*{post}"), format!("{pre}*bold {b} x*{post}")),
      3 => (format!("{pre}_em {r}_{post}"), format!("{pre}_em {b}_{post}")),
      _ => {
        let (r2, b2) = self.img(ch, false, l);
        (format!("{pre}{r} and {r2} word{post}"), format!("{pre}{b} and {b2} word{post}"))
      }
    }
  }

  /// the icon an admonition starting on the next line needs
  fn icon(&mut self, kind: &str, custom: Option<&str>, l: &Lines) {
    let image = matches!(self.icons, Some(i) if i != "font");
    if !image && custom.is_none() {
      return;
    }
    let ext = match (self.icontype, self.icons) {
      (Some(t), _) if !t.is_empty() => t,
      (_, Some(i)) if !matches!(i, "" | "font" | "image") => i,
      _ => "png",
    };
    let name = match custom {
      Some(c) if c.contains('.') => c.to_string(),
      Some(c) => format!("{c}.{ext}"),
      None => format!("{kind}.{ext}"),
    };
    let ext = name.rsplit('.').next().unwrap();
    let dir = self.iconsdir.unwrap_or("./images/icons");
    self.kinds.push_str(&format!("i{}{:?}{};", self.data as u8, self.icons, custom.is_some()));
    self.wants.push(Want {
      what: Use::Icon,
      read: (image && self.data).then(|| self.join(Some(dir), &name)),
      mime: if ext == "svg" { "svg+xml".into() } else { ext.into() },
      file: l.file.clone(),
      line: l.real.len() as u32 + 1,
    });
  }

  fn blocks(&mut self, ch: &mut Choices, l: &mut Lines, depth: u32, cell: bool) {
    let k = ch.range(1, if depth == 0 { 5 } else { 2 });
    for _ in 0..k {
      if self.budget <= 0 {
        break;
      }
      self.budget -= 1;
      match ch.weighted(&[6, 6, 4, 3, 3, 2, 3, 2, 5, 2, 4, 2, 3, 2, 2]) {
        0 => {
          let (r, b) = self.img(ch, true, l);
          l.push2(r, b);
        }
        1 => {
          for i in 0..ch.range(1, 3) {
            if i > 0 && ch.chance(50) {
              l.push("plain line");
            }
            let (r, b) = self.inline(ch, l, "text ", "");
            l.push2(r, b);
          }
        }
        2 => {
          for _ in 0..ch.range(1, 3) {
            let (r, b) = { let m = *ch.pick(&["* ", ". ", "** "]); self.inline(ch, l, m, "") };
            l.push2(r, b);
            if ch.chance(40) {
              l.push("+");
              let (r, b) = self.img(ch, true, l);
              l.push2(r, b);
            }
          }
        }
        3 if depth == 0 => {
          let d = *ch.pick(&["====", "****", "--", "____"]);
          l.push(d);
          self.blocks(ch, l, depth + 1, cell);
          l.push(d);
        }
        4 if depth < 2 => {
          self.n += 1;
          let f = format!("inc{}.adoc", self.n);
          let mut inner = Lines { file: f.clone(), real: vec![], base: vec![] };
          self.blocks(ch, &mut inner, depth + 1, cell);
          l.push(format!("include::{f}[]"));
          self.files.push((f, inner.real.join("\n") + "\n", inner.base.join("\n") + "\n"));
        }
        5 if !cell => {
          l.push("|===");
          for _ in 0..ch.range(1, 3) {
            let (r, b) = self.inline(ch, l, "|", "");
            l.push2(r, b);
          }
          l.push("|===");
        }
        6 if !cell => {
          l.push("[%noheader]");
          l.push("|===");
          l.push("a|");
          // attribute entries in a cell are its own
          let keep = (self.data, self.icons, self.icontype, self.imagesdir, self.iconsdir);
          self.blocks(ch, l, depth + 1, true);
          (self.data, self.icons, self.icontype, self.imagesdir, self.iconsdir) = keep;
          if ch.chance(40) {
            l.push("a|");
            self.blocks(ch, l, depth + 1, true);
            (self.data, self.icons, self.icontype, self.imagesdir, self.iconsdir) = keep;
          }
          l.push("|===");
        }
        7 if depth == 0 => {
          l.push(format!("[#sec{}]", self.n));
          let (r, b) = self.inline(ch, l, "== Section ", " end");
          l.push2(r, b);
        }
        8 => {
          let (label, kind) = *ch.pick(&[("NOTE", "note"), ("TIP", "tip"), ("WARNING", "warning")]);
          let custom = match ch.weighted(&[5, 2, 1]) {
            0 => None,
            1 => Some("cust"),
            _ => Some("cust.gif"),
          };
          let delimited = ch.chance(35) && depth == 0;
          if delimited || custom.is_some() || ch.chance(30) {
            self.icon(kind, custom, l);
            match custom {
              Some(c) => l.push(format!("[{label},icon={c}]")),
              None => l.push(format!("[{label}]")),
            }
            if delimited {
              let d = *ch.pick(&["====", "--"]);
              l.push(d);
              self.blocks(ch, l, depth + 1, cell);
              l.push(d);
            } else {
              let (r, b) = if ch.chance(50) { self.inline(ch, l, "see ", "") } else { ("text".into(), "text".into()) };
              l.push2(r, b);
            }
          } else {
            self.icon(kind, None, l);
            let (r, b) = if ch.chance(50) { self.inline(ch, l, "see ", "") } else { ("text".into(), "text".into()) };
            l.push2(format!("{label}: {r}"), format!("{label}: {b}"));
          }
        }
        9 => {
          let (r, b) = self.inline(ch, l, "term ", ":: ");
          let (r2, b2) = self.inline(ch, l, "def ", "");
          l.push2(r + &r2, b + &b2);
        }
        10 if !cell => {
          // change what is in effect
          match ch.below(9) {
            0 => {
              self.data = true;
              l.push2(":data-uri:".into(), ":other:".into());
            }
            1 => {
              self.data = false;
              l.push2(":!data-uri:".into(), ":other:".into());
            }
            2 => {
              self.imagesdir = Some(*ch.pick(&["pics", "/abs", "../up"]));
              l.push(format!(":imagesdir: {}", self.imagesdir.unwrap()));
            }
            3 => {
              self.imagesdir = None;
              l.push(":!imagesdir:");
            }
            4 => {
              self.iconsdir = Some(*ch.pick(&["icons", "/abs/ic"]));
              l.push(format!(":iconsdir: {}", self.iconsdir.unwrap()));
            }
            5 => {
              self.icons = Some(*ch.pick(&["", "image", "font"]));
              l.push(format!(":icons: {}", self.icons.unwrap()).trim_end().to_string());
            }
            6 => {
              self.icontype = Some(*ch.pick(&["gif", "jpg", "svg"]));
              l.push(format!(":icontype: {}", self.icontype.unwrap()));
            }
            7 => {
              self.icontype = None;
              l.push(":!icontype:");
            }
            _ => {
              self.icons = None;
              l.push(":!icons:");
            }
          }
        }
        11 => {
          // never read
          l.push("----");
          l.push("image::never.png[] image:never.svg[opts=inline]");
          l.push("----");
        }
        12 => {
          self.n += 1;
          let (r, b) = (format!("image::never{}.svg[opts=inline]", self.n), String::new());
          let _ = b;
          match ch.below(3) {
            0 => {
              l.push("ifdef::nope[]");
              l.push(r);
              l.push("endif::[]");
            }
            1 => l.push(format!("// {r}")),
            _ => l.push(format!("\\{}", r.replace("::", ":"))),
          }
        }
        13 => {
          let (r, b) = self.inline(ch, l, ".Title ", "");
          l.push2(r, b);
          if ch.chance(50) {
            l.push("paragraph");
          } else {
            let (r, b) = self.img(ch, true, l);
            l.push2(r, b);
          }
        }
        _ => l.push("plain paragraph"),
      }
      l.push("");
    }
  }
}

fn svg_markup(bytes: &[u8], w: &Option<String>, h: &Option<String>) -> Result<String, &'static str> {
  let text = decode(bytes).ok_or("Error resolving file contents for inline svg: ")?;
  let mut t = text.as_str();
  let mut root = None;
  let mut from = 0;
  while let Some(i) = t[from..].find("<svg") {
    let i = from + i;
    if t[i + 4..].chars().next().is_none_or(|c| c.is_ascii_whitespace() || c == '>' || c == '/') {
      root = Some(i);
      break;
    }
    from = i + 4;
  }
  if let Some(i) = root {
    t = &t[i..];
  }
  let t = t.trim_matches(|c: char| c.is_ascii_whitespace());
  if t.is_empty() {
    return Err("Empty svg file");
  }
  if (w.is_none() && h.is_none()) || root.is_none() {
    return Ok(t.to_string());
  }
  let end = t.find('>').unwrap_or(t.len());
  let mut tag = t[4..end].to_string();
  for a in ["width=\"5\"", "height='6'", "style=\"a:b\""] {
    if let Some(i) = tag.find(a) {
      tag.replace_range(i - 1..i + a.len(), "");
    }
  }
  let mut s = "<svg".to_string();
  if let Some(w) = w {
    s.push_str(&format!(" width=\"{w}\""));
  }
  if let Some(h) = h {
    s.push_str(&format!(" height=\"{h}\""));
  }
  Ok(format!("{s}{tag}{}", &t[end..]))
}

fn decode(b: &[u8]) -> Option<String> {
  let units = |le: bool| {
    let b = &b[2..];
    if b.len() % 2 != 0 {
      return None;
    }
    let u: Vec<u16> =
      b.chunks(2).map(|c| if le { u16::from_le_bytes([c[0], c[1]]) } else { u16::from_be_bytes([c[0], c[1]]) }).collect();
    String::from_utf16(&u).ok()
  };
  match b {
    [0xEF, 0xBB, 0xBF, r @ ..] => String::from_utf8(r.to_vec()).ok(),
    [0xFF, 0xFE, ..] => units(true),
    [0xFE, 0xFF, ..] => units(false),
    _ => String::from_utf8(b.to_vec()).ok(),
  }
}

fn images(ctx: &mut Ctx) -> Verdict {
  let mut g = Gen {
    n: 0,
    data: false,
    icons: None,
    icontype: None,
    imagesdir: None,
    iconsdir: None,
    wants: vec![],
    contents: vec![],
    files: vec![],
    kinds: String::new(),
    budget: 14,
  };
  let mut l = Lines { file: "main.adoc".into(), real: vec![], base: vec![] };
  l.push("= Title");
  if ctx.ch.chance(70) {
    g.data = true;
    l.push2(":data-uri:".into(), ":other:".into());
  }
  if ctx.ch.chance(40) {
    g.imagesdir = Some(*ctx.ch.pick(&["pics", "/abs/pics", "../up"]));
    l.push(format!(":imagesdir: {}", g.imagesdir.unwrap()));
  }
  if ctx.ch.chance(30) {
    g.iconsdir = Some(*ctx.ch.pick(&["icons", "/abs/ic"]));
    l.push(format!(":iconsdir: {}", g.iconsdir.unwrap()));
  }
  if ctx.ch.chance(65) {
    g.icons = Some(*ctx.ch.pick(&["", "image", "font"]));
    l.push(format!(":icons: {}", g.icons.unwrap()).trim_end().to_string());
  }
  if ctx.ch.chance(25) {
    g.icontype = Some(*ctx.ch.pick(&["gif", "svg"]));
    l.push(format!(":icontype: {}", g.icontype.unwrap()));
  }
  l.push("");
  g.blocks(&mut ctx.ch, &mut l, 0, false);
  let src = l.real.join("\n") + "\n";
  let bsrc = l.base.join("\n") + "\n";
  let mut job = Job::new(src.clone(), "/docs/main.adoc");
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server]);
  job.embedded = ctx.ch.chance(80);
  job.backend = *ctx.ch.pick(&[Backend::DrHtml, Backend::Html5s]);
  job.strict = ctx.ch.chance(20);
  ctx.log(format!("safe={:?} strict={} backend={:?}", job.safe, job.strict, job.backend));
  ctx.log(src);
  let mut w = World { base_dir: Some("/docs".into()), max_calls: 200, resize_dance: ctx.ch.chance(30), ..World::default() };
  let mut bw = World { base_dir: Some("/docs".into()), max_calls: 200, ..World::default() };
  for (f, r, b) in &g.files {
    ctx.log(format!("{f}: {r:?}"));
    w.files.insert(format!("/docs/{f}"), r.clone().into_bytes());
    bw.files.insert(format!("/docs/{f}"), b.clone().into_bytes());
  }
  for (p, b) in &g.contents {
    w.files.insert(p.clone(), b.clone());
  }
  // every icon file exists, each different
  for want in &g.wants {
    if let (Use::Icon, Some(p)) = (&want.what, &want.read)
      && !w.files.contains_key(p)
    {
      let n = 3 + (w.files.len() % 4);
      let mut b = p.clone().into_bytes();
      b.truncate(p.len() - n % 3);
      w.files.insert(p.clone(), b);
    }
  }
  // faults: keyed by path, so that the schedule of reads may be anything the property allows
  for want in &g.wants {
    if let Some(p) = &want.read
      && ctx.ch.chance(18)
    {
      let f = ctx
        .ch
        .pick(&[Fault::NotFound, Fault::Io("EIO".into()), Fault::Restricted, Fault::CaseMismatch, Fault::BaseDir, Fault::Bytes(vec![]), Fault::Bytes(vec![0xFF, 0x00, 0xC3])])
        .clone();
      ctx.log(format!("{p}: {}", f.name()));
      w.path_plan.insert(p.clone(), f);
    }
  }
  let mut base = job.clone();
  base.src = bsrc;
  base.strict = false;
  let plain = convert(&base, Some(Rc::new(RefCell::new(bw))));
  let w = Rc::new(RefCell::new(w));
  let out = convert(&job, Some(w.clone()));
  ctx.add("conversions", 2);
  let Out::Ok(plain, pd) = &plain else {
    return Err(viol("images-baseline", plain.show()));
  };
  if !pd.is_empty() {
    return Err(viol("images-baseline-warns", format!("{pd:?}")));
  }
  // the model
  let w = w.borrow();
  let mut want = plain.clone();
  let mut want_reads = Vec::new();
  let mut want_diags = Vec::new();
  let mut states = String::new();
  let mut icon_at = 0;
  for x in &g.wants {
    let got: Option<Result<Vec<u8>, String>> = x.read.as_ref().map(|p| {
      want_reads.push(p.clone());
      let f = w.path_plan.get(p).cloned().unwrap_or(Fault::None);
      if f != Fault::None {
        ctx.count(&format!("fault:{}", f.name()));
      }
      match (&f, f.err()) {
        (Fault::Bytes(b), _) => Ok(b.clone()),
        (_, Some(e)) => Err(e.to_string()),
        _ => Ok(w.files[p].clone()),
      }
    });
    let mut report = |msg: String| want_diags.push((x.file.clone(), x.line, msg));
    match &x.what {
      Use::Img { file, svg, alt, w, h } => {
        let at = want.find(&format!("{file}\"")).ok_or_else(|| viol("images-baseline-img", format!("{file}: {plain}")))?;
        let a = want[..at].rfind("<img src=\"").unwrap();
        let q = at + file.len();
        let b = q + want[q..].find('>').unwrap() + 1;
        if !*svg {
          let data = match got.unwrap() {
            Ok(d) => b64(&d),
            Err(e) => {
              report(format!("Error including data uri image: {e}"));
              String::new()
            }
          };
          states.push_str(&format!("d{}", data.len() % 12));
          want.replace_range(a + 10..q, &format!("data:image/{};base64,{data}", x.mime));
        } else {
          let m = match got.unwrap() {
            Ok(d) => svg_markup(&d, w, h).map_err(|e| e.to_string()),
            Err(e) => Err(format!("Error including inline svg: {e}")),
          };
          states.push_str(if m.is_ok() { "s+" } else { "s-" });
          let m = m.unwrap_or_else(|e| {
            report(e);
            let alt = alt.clone().unwrap_or(file.split('.').next().unwrap().to_string());
            format!("<span class=\"alt\">{}</span>", alt.replace('<', "&lt;"))
          });
          want.replace_range(a..b, &m);
        }
      }
      Use::Icon => {
        let data = got.map(|d| match d {
          Ok(d) => b64(&d),
          Err(e) => {
            report(format!("Error including data uri admonition icon: {e}"));
            String::new()
          }
        });
        states.push_str(if data.is_some() { "i+" } else { "i-" });
        // icons are shown by one of the backends only
        if job.backend == Backend::DrHtml {
          let pat = "<td class=\"icon\"><img src=\"";
          let a = icon_at + want[icon_at..].find(pat).ok_or_else(|| viol("images-baseline-icon", plain.clone()))? + pat.len();
          icon_at = a;
          if let Some(d) = data {
            let q = a + want[a..].find('"').unwrap();
            want.replace_range(a..q, &format!("data:image/{};base64,{d}", x.mime));
          }
        }
      }
    }
  }
  ctx.nontrivial = !want_reads.is_empty();
  ctx.state(fnv_str(&format!("{}{states}", g.kinds)));
  let got_diags: Vec<(String, u32, String)> =
    out.diags().iter().map(|d| (d.file.rsplit('/').next().unwrap().to_string(), d.line, d.msg.clone())).collect();
  let same = |a: &(String, u32, String), b: &(String, u32, String)| {
    a.0 == b.0 && a.1 == b.1 && (a.2 == b.2 || (b.2.ends_with(": ") && a.2.starts_with(&b.2)))
  };
  if job.strict && !want_diags.is_empty() {
    match &out {
      Out::Err(_) if got_diags.len() == 1 && want_diags.iter().any(|d| same(&got_diags[0], d)) => return Ok(()),
      _ => return Err(viol("images-strict", format!("expected one of {want_diags:?}, got {}", out.show()))),
    }
  }
  let Out::Ok(html, _) = &out else {
    return Err(viol("images-outcome", out.show()));
  };
  let mut reads: Vec<String> = w.calls.iter().map(|c| norm(&c.target)).filter(|c| !c.ends_with(".adoc")).collect();
  let mut wr = want_reads.clone();
  reads.sort();
  wr.sort();
  if reads != wr {
    return Err(viol("images-reads", format!("read     {reads:?}\nexpected {wr:?}")));
  }
  let mut left = got_diags.clone();
  for d in &want_diags {
    match left.iter().position(|g| same(g, d)) {
      Some(i) => {
        left.remove(i);
      }
      None => return Err(viol("images-not-reported", format!("{d:?} not among {got_diags:?}"))),
    }
  }
  if !left.is_empty() {
    return Err(viol("images-over-reported", format!("{left:?}")));
  }
  if *html != want {
    return Err(viol("images-content", diff(html, &want)));
  }
  Ok(())
}

fn diff(a: &str, b: &str) -> String {
  let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
  let mut s = n.saturating_sub(80);
  while !a.is_char_boundary(s) {
    s -= 1;
  }
  let cut = |t: &str| t[s..].chars().take(400).collect::<String>();
  format!("got  …{}\nwant …{}", cut(a), cut(b))
}
