//! Safe modes: what a document may make the converter read, and what it may reveal.
use super::Check;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, SafeMode};
use std::cell::RefCell;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "S01",
    run: gating,
    quick: 450000,
    thorough: 6000000,
    level: "fault_enumeration",
    rule: "a run counts when the document held at least one reference the safe mode or allow-uri-read must refuse, or one it must serve; distinct by hash of the full scenario",
    state_rule: "distinct (safe mode, allow-uri-read, kinds of references and targets, storage calls, faults) fingerprints",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)",
    stub: "storage and network behind IncludeResolver (simulated; every file and URI exists unless a fault is planned), HOME (set by the simulator)",
    assumptions: &["the embedder's resolver is the only way out: the code under test is scanned for no other I/O here; the CLI's own accesses are decided by S02"],
  }]
}

const HOST: &str = "hostsecret";

#[derive(Clone, Debug)]
struct Dirs {
  imagesdir: Option<String>,
  iconsdir: Option<String>,
  docinfodir: Option<String>,
}

/// (text in the document, is a plain local path, is a spelled-out http(s) URI)
fn target(ch: &mut Choices, exts: &[&str], n: u32) -> (String, bool, bool) {
  let ext = *ch.pick(exts);
  let f = format!("f{n}{ext}");
  match ch.weighted(&[6, 2, 1, 1, 3, 3, 2, 2, 1, 2, 2, 1, 1, 1]) {
    0 => (f, true, false),
    1 => (format!("sub/{f}"), true, false),
    2 => (format!("../{f}"), true, false),
    3 => (format!("/abs/{f}"), true, false),
    4 => (format!("http://evil.example/{f}"), false, true),
    5 => (format!("https://evil.example/{f}"), false, true),
    6 => (format!("http:/evil.example/{f}"), false, false),
    7 => (format!("https:evil.example/{f}"), false, false),
    8 => (format!("HTTP://evil.example/{f}"), false, false),
    9 => (format!("{{evil}}/{f}"), false, false),
    10 => (format!("{{scheme}}://evil.example/{f}"), false, false),
    11 => (format!("file:///etc/{f}"), false, false),
    12 => (format!("./http:/evil.example/{f}"), false, false),
    _ => (format!("ftp://evil.example/{f}"), false, false),
  }
}

fn dir(ch: &mut Choices) -> Option<String> {
  match ch.weighted(&[8, 3, 1, 2, 2, 2, 1, 1]) {
    0 => None,
    1 => Some("dir".into()),
    2 => Some("/abs".into()),
    3 => Some("http://evil.example/d".into()),
    4 => Some("https:/evil.example/d".into()),
    5 => Some("{evil}/d".into()),
    6 => Some("HTTPS://evil.example/d".into()),
    _ => Some("../up".into()),
  }
}

const GRABS: [&str; 14] = [
  ":allow-uri-read:",
  ":allow-uri-read: true",
  ":safe-mode-level: 0",
  ":safe-mode-name: UNSAFE",
  ":!safe-mode-secure:",
  ":safe-mode-unsafe:",
  ":docdir: /etc",
  ":docfile: /etc/passwd",
  ":data-uri:",
  ":icons: image",
  ":icons:",
  ":max-include-depth: 99",
  ":user-home: /root",
  ":!linkcss:",
];

struct Plan {
  kinds: String,
  /// an include that must be read: (target as requested)
  must: Vec<String>,
  must_uri: Vec<String>,
  /// (target, a URI): left as a link when not served
  links: Vec<(String, bool)>,
  refused: bool,
}

fn refs(ctx: &mut Ctx, n: &mut u32, depth: usize, out: &mut Vec<String>, p: &mut Plan, files: &mut Vec<(String, String)>) {
  let k = ctx.ch.range(1, 4);
  for _ in 0..k {
    *n += 1;
    let id = *n;
    match ctx.ch.weighted(&[6, 3, 3, 3, 2, 2, 2, 2]) {
      // include
      0 => {
        let (t, local, uri) = target(&mut ctx.ch, &[".adoc", ".txt", ".svg"], id);
        let attrs = *ctx.ch.pick(&["", "opts=optional", "leveloffset=+1", "indent=0"]);
        let wrap = ctx.ch.weighted(&[5, 2, 2]);
        p.kinds.push_str(&format!("i{wrap}{local}{uri};"));
        if depth == 0 && local && !t.starts_with('/') {
          p.must.push(t.clone());
        }
        if depth == 0 && wrap != 1 && (uri || local) {
          p.links.push((t.clone(), uri));
        }
        if uri {
          p.must_uri.push(t.clone());
        }
        p.refused |= uri || !local;
        match wrap {
          0 => out.push(format!("include::{t}[{attrs}]")),
          1 => out.extend(["----".into(), format!("include::{t}[{attrs}]"), "----".into()]),
          _ => out.extend(["|===".into(), format!("a|include::{t}[{attrs}]"), "|===".into()]),
        }
        if local && depth < 2 && ctx.ch.chance(40) {
          let mut inner = Vec::new();
          refs(ctx, n, depth + 1, &mut inner, p, files);
          files.push((t, inner.join("\n") + "\n"));
        }
      }
      // block image
      1 => {
        let (t, local, uri) = target(&mut ctx.ch, &[".png", ".svg", ".jpg", ""], id);
        let a = *ctx.ch.pick(&["", "alt", "opts=inline", "opts=interactive", "format=svg,opts=inline", "link=http://x.example"]);
        p.kinds.push_str(&format!("b{a}{local}{uri};"));
        p.refused = true;
        out.push(format!("image::{t}[{a}]"));
      }
      // inline image
      2 => {
        let (t, local, uri) = target(&mut ctx.ch, &[".png", ".svg", ""], id);
        let a = *ctx.ch.pick(&["", "alt", "opts=inline", "opts=interactive"]);
        p.kinds.push_str(&format!("n{a}{local}{uri};"));
        p.refused = true;
        out.push(format!("word image:{t}[{a}] word"));
      }
      // admonition with an icon
      3 => {
        p.kinds.push('a');
        p.refused = true;
        if ctx.ch.chance(50) {
          let (t, ..) = target(&mut ctx.ch, &["", "icon"], id);
          out.push(format!("[icon={t}]"));
        }
        out.push(ctx.ch.pick(&["NOTE: text", "TIP: text"]).to_string());
      }
      4 => {
        p.kinds.push('c');
        let (t, ..) = target(&mut ctx.ch, &["icon", ".svg"], id);
        out.push(format!("word icon:{t}[] word"));
      }
      // the body tries to change the rules
      5 => {
        let g = *ctx.ch.pick(&GRABS);
        p.kinds.push('g');
        out.push(g.to_string());
      }
      6 => {
        let a = *ctx.ch.pick(&["imagesdir", "iconsdir", "docinfodir"]);
        if let Some(d) = dir(&mut ctx.ch) {
          p.kinds.push('d');
          out.push(format!(":{a}: {d}"));
        }
      }
      _ => {
        p.kinds.push('v');
        let (t, ..) = target(&mut ctx.ch, &[".mp4"], id);
        out.push(format!("video::{t}[poster={t}]"));
      }
    }
    out.push(String::new());
  }
}

fn gating(ctx: &mut Ctx) -> Verdict {
  let docdir = format!("/home/{HOST}/docs");
  let safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  let allow = match ctx.ch.weighted(&[6, 2, 2, 1]) {
    0 => None,
    1 => Some(JobAttr::readonly(true)),
    2 => Some(JobAttr::readonly(false)),
    _ => Some(JobAttr::modifiable(true)),
  };
  let allowed = allow.as_ref().is_some_and(|a| a.value == asciidork_core::AttrValue::Bool(true));
  let mut p = Plan { kinds: String::new(), must: vec![], must_uri: vec![], links: vec![], refused: false };
  let mut n = 0;
  let mut lines: Vec<String> = vec!["= Title".into(), ":evil: http://evil.example".into(), ":scheme: https".into()];
  let dirs = Dirs { imagesdir: dir(&mut ctx.ch), iconsdir: dir(&mut ctx.ch), docinfodir: dir(&mut ctx.ch) };
  for (k, v) in [("imagesdir", &dirs.imagesdir), ("iconsdir", &dirs.iconsdir), ("docinfodir", &dirs.docinfodir)] {
    if let Some(v) = v {
      lines.push(format!(":{k}: {v}"));
    }
  }
  let docinfo = ctx.ch.below(4);
  lines.extend(match docinfo {
    1 => vec![":docinfo: shared,private".to_string()],
    2 => vec![":docinfo2:".into()],
    3 => vec![":docinfo: shared-head,private-footer".into()],
    _ => vec![],
  });
  for _ in 0..ctx.ch.weighted(&[3, 3, 2, 1]) {
    lines.push(ctx.ch.pick(&GRABS).to_string());
  }
  if ctx.ch.chance(60) {
    lines.push(":data-uri:".into());
  }
  lines.push(String::new());
  let mut files = Vec::new();
  refs(ctx, &mut n, 0, &mut lines, &mut p, &mut files);
  lines.push("probe {safe-mode-level} {safe-mode-name} dir({docdir}) file({docfile}) home({user-home}) endprobe".into());
  lines.push(String::new());
  let src = lines.join("\n");
  let mut w = World { base_dir: Some(docdir.clone()), max_calls: 400, anything: Some(b"served text\n".to_vec()), ..World::default() };
  for (t, c) in &files {
    let path = if t.starts_with('/') { t.clone() } else { format!("{docdir}/{t}") };
    w.files.insert(norm(&path), c.clone().into_bytes());
  }
  // a few reads fail
  for i in 0..6 {
    w.plan.push(if ctx.ch.chance(12) {
      ctx.ch.pick(&[Fault::NotFound, Fault::Io("EIO".into()), Fault::UriRead, Fault::Restricted]).clone()
    } else {
      Fault::None
    });
    let _ = i;
  }
  let mut job = Job::new(src.clone(), &format!("{docdir}/main.adoc"));
  job.safe = safe;
  job.embedded = ctx.ch.chance(40);
  job.backend = *ctx.ch.pick(&[Backend::DrHtml, Backend::Html5s]);
  if let Some(a) = allow.clone() {
    job.attrs.push(("allow-uri-read".into(), a));
  }
  if ctx.ch.chance(30) {
    job.attrs.push(("data-uri".into(), JobAttr::readonly(true)));
  }
  ctx.log(format!("safe={safe:?} allow-uri-read={allow:?} embedded={} backend={:?} job attrs={:?}", job.embedded, job.backend, job.attrs));
  ctx.log(format!("plan {:?}", w.plan.iter().map(|f| f.name()).collect::<Vec<_>>()));
  ctx.log(src);
  for (t, c) in &files {
    ctx.log(format!("{t}: {c:?}"));
  }
  let w = Rc::new(RefCell::new(w));
  let out = convert(&job, Some(w.clone()));
  ctx.add("conversions", 1);
  let calls = w.borrow().calls.clone();
  for (i, c) in calls.iter().enumerate() {
    let f = &w.borrow().plan.get(i).cloned().unwrap_or(Fault::None);
    if *f != Fault::None {
      ctx.count(&format!("fault:{}", f.name()));
    }
    ctx.count(if c.uri { "uri_calls" } else { "file_calls" });
  }
  ctx.nontrivial = p.refused || !calls.is_empty();
  ctx.state(fnv_str(&format!("{safe:?}{allowed}{}{:?}", p.kinds, calls.iter().map(|c| (c.uri, c.reply.clone())).collect::<Vec<_>>())));
  let list: Vec<String> = calls.iter().map(|c| format!("{}{}", if c.uri { "URI " } else { "" }, c.target)).collect();
  ctx.log(format!("calls {list:?}"));
  let Out::Ok(html, _) = &out else {
    return Err(viol("gating-outcome", out.show()));
  };
  if safe == SafeMode::Secure && !calls.is_empty() {
    return Err(viol("secure-mode-read", format!("secure mode, yet: {list:?}")));
  }
  if let Some(c) = calls.iter().find(|c| c.safe != safe) {
    return Err(viol("safe-mode-not-passed-on", format!("{c:?}")));
  }
  if !allowed && let Some(c) = calls.iter().find(|c| c.uri) {
    return Err(viol("uri-read-not-allowed", format!("{c:?}")));
  }
  // what is allowed is served
  if safe != SafeMode::Secure {
    for t in &p.must {
      let want = norm(&format!("{docdir}/{t}"));
      if !calls.iter().any(|c| !c.uri && norm(&c.target) == want) {
        return Err(viol("local-include-not-read", format!("{want} not among {list:?}")));
      }
    }
    if allowed {
      for t in &p.must_uri {
        if !calls.iter().any(|c| c.uri && c.target == *t) && files_reach(&files, &lines, t, &calls) {
          return Err(viol("uri-include-not-read", format!("{t} not among {list:?}")));
        }
      }
    }
  }
  for (t, uri) in &p.links {
    if (safe == SafeMode::Secure || (*uri && !allowed)) && !html.contains(&format!("<a href=\"{t}\" class=\"bare include\">")) {
      return Err(viol("refused-include-not-linked", format!("{t}: {html}")));
    }
  }
  let (lvl, name) = match safe {
    SafeMode::Unsafe => ("0", "UNSAFE"),
    SafeMode::Safe => ("1", "SAFE"),
    SafeMode::Server => ("10", "SERVER"),
    SafeMode::Secure => ("20", "SECURE"),
  };
  let (d, f, h) = match safe {
    SafeMode::Server | SafeMode::Secure => ("".to_string(), "main.adoc".to_string(), ".".to_string()),
    _ => (docdir.clone(), format!("{docdir}/main.adoc"), format!("/home/{HOST}")),
  };
  let probe = format!("probe {lvl} {name} dir({d}) file({f}) home({h}) endprobe");
  if !html.contains(&probe) {
    return Err(viol("probe", format!("expected {probe:?} in {html}")));
  }
  if matches!(safe, SafeMode::Server | SafeMode::Secure) && html.contains(HOST) {
    return Err(viol("host-path-revealed", html.to_string()));
  }
  Ok(())
}

/// is the URI named in the main document itself (an unread file's directives never run)
fn files_reach(_files: &[(String, String)], main: &[String], t: &str, _calls: &[Call]) -> bool {
  main.iter().any(|l| l.contains(&format!("include::{t}[")))
}
