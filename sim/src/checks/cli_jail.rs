//! Path containment of the real CLI: a file tree with links, dot-dot paths, sibling prefixes and
//! links that are retargeted while the process runs. Whatever a document names, in safe and server
//! mode nothing outside the base directory is opened; and what is inside is not refused.
use super::Check;
use super::cli_io::{Events, Lower, Sink, clip_text, explains};
use crate::cli::*;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, Path, SafeMode};
use asciidork_parser::includes::ResolveError;
use asciidork_parser::parser::SourceFile;
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "S02",
    run: jail,
    quick: 16000,
    thorough: 400000,
    level: "fault_enumeration",
    rule: "a run counts when the document names something outside the base directory, or a link was retargeted while the process ran; distinct by hash of the full scenario",
    state_rule: "distinct (safe mode, base directory form, input form, kinds of references, faults fired) tuples",
    real: "the asciidork CLI binary: argument parsing, path resolution and containment checks, stylesheet; parser, eval, backends; the kernel's own path resolution",
    stub: "a scratch file tree; system calls observed, failed, or preceded by a swap of two links through a preloaded seam",
    assumptions: &[
      "an adversary who can replace directories (not just links) inside the base directory is out of scope: that needs openat2",
      "a stylesheet is confined to the working directory, in every mode but unsafe",
    ],
  }]
}

/// (target as written, must not be a link of the kind that gets swapped)
const TARGETS: &[&str] = &[
  "f0.adoc",
  "sub/f1.adoc",
  "./f0.adoc",
  "sub/../f0.adoc",
  "sub//f1.adoc",
  "sub/./f2.adoc",
  "../jail/f0.adoc",
  "fl-in.adoc",
  "dl-in/f1.adoc",
  "dl-in/../f0.adoc",
  "sub/fl-back.adoc",
  "sub/deep/f5.adoc",
  "/S/jail/f0.adoc",
  "/S/jail/sub/f1.adoc",
  "/S/jl/f0.adoc",
  // outside
  "fl-out.adoc",
  "fl-evil.adoc",
  "fl-chain.adoc",
  "dl-out/zz-secret.adoc",
  "dl-out/../out/f8.adoc",
  "dl-out/../jail/f0.adoc",
  "dl-root/out/f8.adoc",
  "../out/f8.adoc",
  "../jail-evil/f9.adoc",
  "../jailx.adoc",
  "sub/../../out/f8.adoc",
  "sub/fl-up.adoc",
  "/S/out/f8.adoc",
  "/S/jail/../out/f8.adoc",
  "/S/jail-evil/f9.adoc",
  "/S//jail/../jail-evil/f9.adoc",
  "//S/out/f8.adoc",
  // nothing there
  "fgone.adoc",
  "fdangle.adoc",
  "floop.adoc",
  "f0.adoc/",
  "f0.adoc/../f0.adoc",
  "sub",
  "file:///S/out/f8.adoc",
  "/etc/hostname",
  "../../../../../../etc/hostname",
];

const SECRET: &str = "zz-secret";

fn tree(s: &Scratch, ctx: &mut Ctx) {
  let nested = |ctx: &mut Ctx, from: &str| -> String {
    if ctx.ch.chance(40) {
      let t = *ctx.ch.pick(&["fl-out.adoc", "../out/f8.adoc", "../../out/f8.adoc", "sub/f2.adoc", "f6.adoc", "/S/out/f8.adoc", "../jail-evil/f9.adoc", "../f6.adoc", "deep/f5.adoc"]);
      format!("\ninclude::{t}[]\n\nafter {from}\n")
    } else {
      String::new()
    }
  };
  for f in ["jail/f0.adoc", "jail/f6.adoc", "jail/sub/f1.adoc", "jail/sub/f2.adoc", "jail/sub/deep/f5.adoc"] {
    let n = if f.contains("f0") || f.contains("f1") { nested(ctx, f) } else { String::new() };
    s.file(f, s.show(&format!("INSIDE {f}\n{n}")).as_bytes());
  }
  for f in ["out/f8.adoc", "out/zz-secret.adoc", "jail-evil/f9.adoc", "jailx.adoc"] {
    s.file(f, format!("OUTSIDE {f}\n").as_bytes());
  }
  for d in ["jail", "jail/sub", "out", "jail-evil"] {
    let w = if d.starts_with("jail/") || d == "jail" { "INSIDE" } else { "OUTSIDE" };
    s.file(&format!("{d}/pic.svg"), format!("<svg><title>{w} {d}</title></svg>").as_bytes());
    s.file(&format!("{d}/docinfo.html"), format!("<meta name=\"{w} {d}\">\n").as_bytes());
    s.file(&format!("{d}/style.css"), format!("/* sheet in {d} */ b {{}}").as_bytes());
  }
  s.link("jail/fl-in.adoc", "f6.adoc");
  s.link("jail/fl-out.adoc", "../out/zz-secret.adoc");
  s.link("jail/fl-evil.adoc", "/S/jail-evil/f9.adoc");
  s.link("jail/fl-chain.adoc", "sub/fl-up.adoc");
  s.link("jail/sub/fl-up.adoc", "../../out/zz-secret.adoc");
  s.link("jail/sub/fl-back.adoc", "../f6.adoc");
  s.link("jail/dl-in", "sub");
  s.link("jail/dl-out", "../out");
  s.link("jail/dl-root", "..");
  s.link("jail/fdangle.adoc", "nothing.adoc");
  s.link("jail/floop.adoc", "floop.adoc");
  s.link("jail/pic-in.svg", "sub/pic.svg");
  s.link("jail/pic-out.svg", "../out/pic.svg");
  s.link("jail/style-out.css", "../out/style.css");
  s.link("jail/style-in.css", "style.css");
  s.link("jl", "jail");
  s.link("ml.adoc", "jail/main.adoc");
}

fn jail(ctx: &mut Ctx) -> Verdict {
  let s = Scratch::new();
  tree(&s, ctx);
  // ---- the document
  let mut text = String::new();
  let header = ctx.ch.chance(60);
  if header {
    text.push_str("= Title\n");
    for l in [
      ":imagesdir: ../out", ":imagesdir: /S/out", ":imagesdir: sub", ":docinfo: shared", ":docinfodir: ../out", ":docinfodir: /S/jail-evil", ":docinfodir: dl-out",
      ":stylesheet: ../out/style.css", ":stylesdir: ../out", ":stylesheet: style.css", ":data-uri:", ":up: ..",
    ] {
      if ctx.ch.chance(12) {
        text.push_str(l);
        text.push('\n');
      }
    }
    text.push('\n');
  }
  let mut kinds = String::new();
  for i in 0..ctx.ch.range(1, 6) {
    text.push_str(&format!("para {i}\n\n"));
    let t = ctx.ch.idx(TARGETS.len());
    let target = if header && text.contains(":up:") && ctx.ch.chance(30) { TARGETS[t].replace("..", "{up}") } else { TARGETS[t].to_string() };
    let opts = *ctx.ch.pick(&["", "", "", "opts=optional", "leveloffset=1"]);
    let k = ctx.ch.weighted(&[8, 2, 2, 1, 3]);
    match k {
      0 => text.push_str(&format!("include::{target}[{opts}]\n\n")),
      1 => text.push_str(&format!("----\ninclude::{target}[{opts}]\n----\n\n")),
      2 => text.push_str(&format!("|===\na|\ninclude::{target}[{opts}]\n|===\n\n")),
      3 => text.push_str(&format!("====\n* item\n+\n--\ninclude::{target}[{opts}]\n--\n====\n\n")),
      _ => {
        let pic = *ctx.ch.pick(&["pic.svg", "pic-in.svg", "pic-out.svg", "../out/pic.svg", "/S/out/pic.svg", "dl-out/pic.svg", "sub/pic.svg", "../jail-evil/pic.svg"]);
        if ctx.ch.chance(50) {
          text.push_str(&format!("image::{pic}[alt,opts=inline]\n\n"));
        } else {
          text.push_str(&format!("ab image:{pic}[alt] cd\n\n"));
        }
      }
    }
    kinds.push_str(&format!("{k}.{t},"));
  }
  text.push_str("the end\n");
  // ---- where, and with which powers
  let safe = *ctx.ch.pick(&[SafeMode::Safe, SafeMode::Server, SafeMode::Safe, SafeMode::Server, SafeMode::Unsafe, SafeMode::Secure]);
  let cwd = *ctx.ch.pick(&["/S", "/S/jail", "/S/jail", "/S/jail/sub", "/S/jl"]);
  let input = ctx.ch.weighted(&[5, 2, 1, 3]);
  let base = *ctx.ch.pick(&["", "", "", "/S/jail", "/S/jl", "rel", "/S/jail/sub", "rel/sub", "/S/jail/../jail", "/S/jail/", "/S/nodir"]);
  let rel = match cwd {
    "/S" => "jail",
    "/S/jail" => ".",
    "/S/jl" => "../jail",
    _ => "..",
  };
  let text = s.show(&text);
  s.file("jail/main.adoc", text.as_bytes());
  let mut p = Proc { plan: base_plan(ctx.ch.below(1000)), cwd: cwd.into(), ..Proc::default() };
  let main_real = s.path("jail/main.adoc");
  let mut job = Job::new(text.clone(), &main_real);
  let cwd_real = std::fs::canonicalize(s.show(cwd)).unwrap();
  let mut base_dir = match input {
    0 => {
      p.args.extend(["-i".into(), "/S/jail/main.adoc".into()]);
      s.path("jail")
    }
    1 => {
      p.args.extend(["-i".into(), format!("{rel}/main.adoc")]);
      s.path("jail")
    }
    2 => {
      p.args.extend(["-i".into(), "/S/ml.adoc".into()]);
      s.path("jail")
    }
    _ => {
      p.stdin = text.clone().into_bytes();
      // the working directory as the kernel names it
      job.file = SourceFile::Stdin { cwd: Path::new(cwd_real.to_string_lossy()) };
      cwd_real.to_string_lossy().into_owned()
    }
  };
  if !base.is_empty() {
    let b = base.replace("rel", rel);
    p.args.extend(["-B".into(), b.clone()]);
    base_dir = s.show(&b);
  }
  let base_real: Option<PathBuf> = std::fs::canonicalize(cwd_real.join(&base_dir)).ok();
  job.safe = safe;
  job.strict = ctx.ch.chance(20);
  job.embedded = ctx.ch.chance(50);
  job.backend = if ctx.ch.chance(30) { Backend::Html5s } else { Backend::DrHtml };
  job.stamps = Some((NOW, if input == 3 { None } else { Some(MTIME) }, None));
  p.args.extend(["-s".into(), safe.to_string_lower()]);
  if job.embedded {
    p.args.push("-e".into());
  }
  if job.strict {
    p.args.push("--strict".into());
  }
  if job.backend == Backend::Html5s {
    p.args.extend(["-f".into(), "html5".into()]);
  }
  if ctx.ch.chance(25) {
    p.args.extend(["-a".into(), "data-uri".into()]);
    job.attrs.push(("data-uri".into(), JobAttr::readonly(true)));
  }
  if ctx.ch.chance(25) {
    let css = *ctx.ch.pick(&["style.css", "../out/style.css", "/S/out/style.css", "style-out.css", "style-in.css", "gone.css", "dl-out/style.css", "sub", "../jail-evil/style.css"]);
    p.args.extend(["-a".into(), format!("stylesheet={css}")]);
    job.attrs.push(("stylesheet".into(), JobAttr::readonly(s.show(css))));
  }
  // ---- what changes while it runs
  let racing = ctx.ch.chance(45);
  if racing {
    for _ in 0..ctx.ch.range(1, 4) {
      let (a, b) = *ctx.ch.pick(&[("fl-in.adoc", "fl-out.adoc"), ("fl-in.adoc", "fl-evil.adoc"), ("dl-in", "dl-out"), ("pic-in.svg", "pic-out.svg"), ("style-in.css", "style-out.css"), ("sub/fl-back.adoc", "sub/fl-up.adoc")]);
      let op = *ctx.ch.pick(&["open", "open", "open", "realpath", "stat", "read"]);
      p.plan.push(format!("{op} {} rename /S/jail/{a} /S/jail/{b}", ctx.ch.below(6)));
    }
    if ctx.ch.chance(20) {
      p.plan.push(format!("realpath {} err {}", ctx.ch.below(5), ctx.ch.pick(&[2, 13, 36, 40])));
    }
  }
  ctx.log(format!("in {cwd}: asciidork {:?}", p.args));
  ctx.log(format!("document {:?}", s.hide(&text)));
  ctx.log(format!("plan {:?}", &p.plan[3..]));
  // ---- what the file tree holds, before anything changes
  let real_of = {
    let (cwd_real, base_real) = (cwd_real.clone(), base_real.clone());
    move |raw: &str| -> Result<PathBuf, ResolveError> {
      let p = std::fs::canonicalize(cwd_real.join(raw)).map_err(|_| ResolveError::NotFound)?;
      match (&base_real, safe) {
        (_, SafeMode::Unsafe) => Ok(p),
        (None, _) => Err(ResolveError::BaseDirRequired),
        (Some(b), _) if p.starts_with(b) => Ok(p),
        _ => Err(ResolveError::RestrictedPath),
      }
    }
  };
  let css = Rc::new(RefCell::new(Css::None));
  let want = {
    let fs = move |raw: &str| -> Result<Vec<u8>, ResolveError> {
      let p = real_of(raw)?;
      if raw.ends_with('/') && !p.is_dir() {
        return Err(ResolveError::NotFound);
      }
      std::fs::read(p).map_err(|e| ResolveError::Io(e.to_string()))
    };
    let w = World { base_dir: Some(base_dir.clone()), fs: Some(Rc::new(fs)), ..World::default() };
    let (cwd_real, css) = (cwd_real.clone(), css.clone());
    let sheet = move |dir: &str, file: &str| -> Option<String> {
      let p = std::fs::canonicalize(cwd_real.join(dir).join(file)).ok().filter(|p| safe == SafeMode::Unsafe || p.starts_with(&cwd_real));
      let t = p.and_then(|p| std::fs::read_to_string(p).ok());
      *css.borrow_mut() = if t.is_some() { Css::Given } else { Css::Refused };
      t
    };
    convert_css(&job, Some(Rc::new(RefCell::new(w))), Some(&sheet))
  };
  ctx.count("conversions");
  let r = run(&s, &p);
  ctx.count("processes");
  ctx.sim_secs += 1;
  for l in &r.log {
    ctx.log(clip_text(l));
  }
  ctx.log(format!("{}; stdout {:?} stderr {:?}", r.status(), clip_text(&r.out()), clip_text(&r.stderr)));
  let mut fired = String::new();
  for f in r.log.iter().filter(|l| l.starts_with('!')) {
    let k = f.split('#').next().unwrap().rsplit(' ').next().unwrap().to_string();
    ctx.count(&format!("fault:{}{k}", if f.starts_with("!swap") { "swap before " } else { "" }));
    fired.push_str(&k);
  }
  if r.hung || r.panicked() {
    return Err(viol("jail-panic", format!("{} {}", r.status(), r.stderr)));
  }
  ctx.state(fnv_str(&format!("{safe:?}{base}{input}{kinds}{fired}")));
  // ---- nothing but what is allowed was opened
  let base_shown = base_real.as_ref().map(|b| s.hide(&b.to_string_lossy()));
  let cwd_shown = s.hide(&cwd_real.to_string_lossy());
  let within = |p: &str, d: &str| p == d || p.starts_with(&format!("{d}/"));
  let css_named = *css.borrow() != Css::None;
  for l in r.calls("open") {
    let Some((path, real)) = l.split_once(" r = ") else { continue };
    if real.starts_with('-') || !(real.starts_with("/S") || real == "/etc/hostname" || real == "/etc") {
      continue;
    }
    let main = input != 3 && real == "/S/jail/main.adoc";
    let base_ok = match safe {
      SafeMode::Unsafe => true,
      SafeMode::Secure => false,
      _ => base_shown.as_ref().is_some_and(|b| within(real, b)),
    };
    let css_ok = css_named && real.ends_with(".css") && within(real, &cwd_shown);
    let dir = css_named && within(real, &cwd_shown) && !real.ends_with(".adoc");
    if !(main || base_ok || css_ok || dir) {
      return Err(viol("outside-opened", format!("{safe:?}: {path} opened {real}, base directory {base_shown:?}")));
    }
  }
  let outside = |t: &str| t.contains("OUTSIDE");
  if matches!(safe, SafeMode::Safe | SafeMode::Server | SafeMode::Secure) && !base_shown.as_deref().is_some_and(|b| b == "/S") {
    if outside(&r.out()) || outside(&r.stderr) {
      return Err(viol("outside-content", format!("{} {}", r.out(), r.stderr)));
    }
    if !text.contains(SECRET) && (r.out().contains(SECRET) || r.stderr.contains(SECRET)) {
      return Err(viol("outside-name", format!("what a link leads to outside the base directory: {} {}", r.out(), r.stderr)));
    }
  }
  ctx.nontrivial = !fired.is_empty() || TARGETS[15..].iter().any(|t| text.contains(&s.show(t)));
  if racing && !fired.is_empty() {
    if !matches!(r.code, Some(0 | 1)) {
      return Err(viol("jail-exit", r.status()));
    }
    return Ok(());
  }
  // ---- and what is allowed was delivered
  let mut r = r;
  if *css.borrow() == Css::Refused && matches!(want, Out::Ok(..)) {
    if !r.stderr.contains("stylesheet") && !r.stderr.contains("ERROR") {
      return Err(viol("stylesheet-silent", "a stylesheet that cannot be used is not mentioned"));
    }
    if job.strict {
      return if r.code == Some(0) { Err(viol("stylesheet-strict", "exit 0")) } else { Ok(()) };
    }
    r.stderr.clear();
  }
  let sink = Sink { to_file: false, out_ok: true, json_errors: false, timings: false, formatter: None };
  explains(&want, &r, &Events::default(), &sink, &s)
}

#[derive(PartialEq, Clone, Copy)]
enum Css {
  None,
  Given,
  Refused,
}
