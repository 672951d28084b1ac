//! The real CLI process under simulated descriptors: everything it is given is read, everything
//! it produces is delivered, and whatever cannot be is a failure it admits.
//! The oracle is a refinement: storage model + library conversion predict stdout, the output
//! file, stderr and the exit status from the plan of faults that were reached.
use super::Check;
use crate::cli::*;
use crate::conv::*;
use crate::docgen::*;
use crate::json::{self, J};
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, Path, SafeMode};
use asciidork_parser::parser::SourceFile;
use std::cell::RefCell;
use std::rc::Rc;

const REAL: &str = "the asciidork CLI binary (its own main, resolver, argument parsing; debug assertions on), parser, eval, backends";
const STUB: &str = "kernel calls of the process (open, statx, realpath, read, write, clock_gettime, getrandom) through a preloaded seam; scratch file tree";

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "C01",
      run: |c| io(c, Mode::Write),
      quick: 16000,
      thorough: 400000,
      level: "fault_enumeration",
      rule: "a run counts when an injected write or open fault was reached; distinct by hash of the full scenario",
      state_rule: "distinct (sink, fault kinds in order, outcome) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &["errors reported only by close(2) are not visible to the program (std ignores them)"],
    },
    Check {
      id: "C02",
      run: |c| io(c, Mode::Read),
      quick: 16000,
      thorough: 400000,
      level: "fault_enumeration",
      rule: "a run counts when an injected read-side fault was reached; distinct by hash of the full scenario",
      state_rule: "distinct (source, fault kinds in order, outcome) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &["a file that grows between fstat and read is delivered as of the fstat"],
    },
    Check {
      id: "C04",
      run: |c| io(c, Mode::Report),
      quick: 16000,
      thorough: 400000,
      level: "fault_enumeration",
      rule: "a run counts when strict mode had something to report; distinct by hash of the full scenario",
      state_rule: "distinct (json, number of diagnostics, fault kinds in order, outcome) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &["the text of a diagnostic is the library's; this check decides that it arrives"],
    },
  ]
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
  Write,
  Read,
  Report,
}

const EINTR: i64 = 4;

fn errname(e: i64) -> String {
  std::io::Error::from_raw_os_error(e as i32).to_string()
}

fn io(ctx: &mut Ctx, mode: Mode) -> Verdict {
  let s = Scratch::new();
  // ---- the document and its files
  let feat = super::includes::swarm(ctx);
  let blocks = ctx.ch.range(1, 5);
  let nfiles = ctx.ch.below(4);
  let mut lines: Vec<String> = Vec::new();
  {
    let mut g = DocGen::new(&mut ctx.ch, feat);
    if g.ch.chance(50) {
      lines.extend(g.header().into_iter().map(|l| l.text));
      lines.push(String::new());
    }
    lines.extend(g.body(blocks).into_iter().map(|l| l.text));
  }
  if ctx.ch.chance(15) {
    // more than any buffer on the way holds
    let n = ctx.ch.range(300, 3000);
    for i in 0..n {
      lines.push(format!("long paragraph line {i} with é and {}", "x".repeat((i % 40) as usize)));
    }
  }
  lines.push(String::new());
  for i in 0..nfiles {
    let at = format!("include::f{i}.adoc[]");
    lines.push(at);
    lines.push(String::new());
  }
  if mode == Mode::Report {
    for _ in 0..ctx.ch.below(3) {
      // something to report, in lines that are awkward to quote
      let odd = *ctx.ch.pick(&["", "\"q\" ", "\\ ", "\t", "é世😀 ", "\u{7f}", "\u{1} ", "</x> "]);
      let l = match ctx.ch.below(4) {
        0 => format!("include::gone{odd}.adoc[]").replace(['\t'], ""),
        1 => format!("ifeval::[{odd}]"),
        2 => format!("== bad{odd}").replace("==", "====="),
        _ => format!("{odd}see <<nowhere>> x"),
      };
      lines.push(l);
      lines.push(String::new());
    }
  }
  let text = lines.join("\n") + if ctx.ch.chance(80) { "\n" } else { "" };
  let mut main = text.clone().into_bytes();
  let bad_utf8 = mode == Mode::Read && ctx.ch.chance(4);
  if bad_utf8 {
    let at = ctx.ch.idx(main.len() + 1);
    main.insert(at, 0xFF);
  }
  s.file("main.adoc", &main);
  let mut w = World { base_dir: Some(s.0.clone()), ..World::default() };
  for i in 0..nfiles {
    let mut t = format!("file {i} says é\n");
    if ctx.ch.chance(20) {
      for k in 0..ctx.ch.range(50, 900) {
        t.push_str(&format!("line {k} of file {i} which is long\n"));
      }
    }
    s.file(&format!("f{i}.adoc"), t.as_bytes());
    w.files.insert(s.path(&format!("f{i}.adoc")), t.into_bytes());
  }
  // ---- the invocation
  let mut job = Job::new(text.clone(), &s.path("main.adoc"));
  let stdin = ctx.ch.chance(if mode == Mode::Read { 40 } else { 25 });
  let to_file = ctx.ch.chance(if mode == Mode::Write { 50 } else { 20 });
  let mut p = Proc { plan: base_plan(ctx.ch.below(1000)), ..Proc::default() };
  job.embedded = ctx.ch.chance(70);
  job.backend = if ctx.ch.chance(30) { Backend::Html5s } else { Backend::DrHtml };
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server]);
  job.strict = ctx.ch.chance(match mode {
    Mode::Report => 85,
    _ => 10,
  });
  let json_errors = ctx.ch.chance(if mode == Mode::Report { 60 } else { 20 });
  job.stamps = Some((NOW, if stdin { None } else { Some(MTIME) }, None));
  if ctx.ch.chance(30) {
    p.args.extend(["-a".into(), "extra=1".into()]);
    job.attrs.push(("extra".into(), JobAttr::readonly("1")));
  }
  if stdin {
    p.stdin = main.clone();
    job.file = SourceFile::Stdin { cwd: Path::new(s.0.as_str()) };
  } else {
    p.args.extend(["-i".into(), (*ctx.ch.pick(&["main.adoc", "/S/main.adoc", "./main.adoc"])).into()]);
  }
  if job.embedded {
    p.args.push("-e".into());
  }
  if job.strict {
    p.args.push("--strict".into());
  }
  if json_errors {
    p.args.push("--json-errors".into());
  }
  if job.backend == Backend::Html5s {
    p.args.extend(["-f".into(), "html5".into()]);
  }
  p.args.extend(["-s".into(), job.safe.to_string_lower()]);
  let timings = ctx.ch.chance(8);
  if timings {
    p.args.push("-t".into());
  }
  // an external formatter (like prettier it reads everything before it prints anything) that works, gives up, is killed, or is not there
  let mut formatter = None;
  if ctx.ch.chance(match mode {
    Mode::Write => 12,
    _ => 4,
  }) {
    let i = p.args.iter().position(|a| a == "-f").unwrap_or_else(|| {
      p.args.extend(["-f".into(), "dr-html".into()]);
      p.args.len() - 2
    });
    p.args[i + 1].push_str("-prettier");
    let how = ctx.ch.weighted(&[4, 2, 2, 1]);
    let (script, ok) = match how {
      0 => ("/bin/cat >$0.in\necho '<!-- formatted -->'\n/bin/cat $0.in\n", true),
      1 => ("/bin/cat >/dev/null\nexit 2\n", false),
      2 => ("/bin/cat >$0.in\n/bin/cat $0.in\nkill -9 $$\n", false),
      _ => ("", false),
    };
    if how < 3 {
      s.file("bin/prettier", format!("#!/bin/sh\n{script}").as_bytes());
      let mut perm = std::fs::metadata(s.path("bin/prettier")).unwrap().permissions();
      std::os::unix::fs::PermissionsExt::set_mode(&mut perm, 0o755);
      std::fs::set_permissions(s.path("bin/prettier"), perm).unwrap();
    }
    p.env.insert("PATH".into(), s.path("bin"));
    ctx.count(["formatter:works", "fault:formatter exit 2", "fault:formatter killed", "fault:formatter missing"][how]);
    formatter = Some(ok);
  }
  let mut out_ok = true;
  if to_file {
    let target = match ctx.ch.weighted(&[6, 3, 1, 1]) {
      0 => "out.html",
      1 => {
        s.file("out.html", b"previous output that is much longer than what replaces it, or perhaps not\n");
        "out.html"
      }
      2 => {
        out_ok = false;
        s.dir("adir");
        "adir"
      }
      _ => {
        out_ok = false;
        "nodir/out.html"
      }
    };
    p.args.extend(["-o".into(), format!("/S/{target}")]);
  }
  // ---- faults
  let n = match mode {
    Mode::Report => ctx.ch.below(3),
    _ => ctx.ch.range(0, 5),
  };
  for _ in 0..n {
    let wr = match mode {
      Mode::Write => ctx.ch.chance(85),
      Mode::Read => ctx.ch.chance(10),
      Mode::Report => ctx.ch.chance(50),
    };
    let line = if wr {
      let k = ctx.ch.below(4);
      match ctx.ch.weighted(&[5, 3, 4, 1]) {
        0 => format!("write {k} short {}", ctx.ch.pick(&[1u64, 2, 7, 100, 4096, 65536])),
        1 => format!("write {k} err 4"),
        2 => format!("write {k} err {}", ctx.ch.pick(&[28, 5, 32, 27, 122])),
        // no room from here on
        _ => format!("write -{} err 28", k + 1),
      }
    } else {
      match ctx.ch.weighted(&[6, 4, 4, 3, 1, 2, 2]) {
        0 => format!("read {} short {}", ctx.ch.below(8), ctx.ch.pick(&[1u64, 2, 5, 33, 1000])),
        1 => format!("read {} err 4", ctx.ch.below(8)),
        2 => format!("read {} err {}", ctx.ch.below(8), ctx.ch.pick(&[5, 116, 12])),
        3 => format!("open {} err {}", ctx.ch.below(5), ctx.ch.pick(&[13, 24, 2, 5, 4])),
        4 => format!("stat {} err {}", ctx.ch.below(8), ctx.ch.pick(&[13, 5])),
        5 => format!("realpath {} err {}", ctx.ch.below(4), ctx.ch.pick(&[2, 13, 40])),
        _ if nfiles > 0 => {
          // the file shrinks once its size is known
          let f = ctx.ch.below(nfiles);
          format!("read {} resize /S/f{f}.adoc {}", ctx.ch.below(8), ctx.ch.below(12))
        }
        _ => format!("read {} short 3", ctx.ch.below(8)),
      }
    };
    // one call meets one fault
    let slot = |l: &str| l.split(' ').take(2).map(String::from).collect::<Vec<_>>();
    let shrinks = |l: &str| l.contains(" resize ");
    let tail = |l: &str| l.starts_with("write -");
    if p.plan.iter().any(|l| slot(l) == slot(&line) || (shrinks(l) && shrinks(&line)) || (l.starts_with("write") && tail(&line)) || (tail(l) && line.starts_with("write"))) {
      continue;
    }
    p.plan.push(line);
  }
  ctx.log(format!("args {:?}", p.args));
  ctx.log(format!("document: {:?}", s.hide(&clip_text(&text))));
  ctx.log(format!("plan: {:?}", &p.plan[3..]));
  let r = run(&s, &p);
  ctx.count("processes");
  ctx.sim_secs += 1;
  for l in &r.log {
    ctx.log(clip_text(l));
  }
  ctx.log(format!("{}; stdout {} bytes {:x}; stderr {:?}", r.status(), r.stdout.len(), fnv(&r.stdout), clip_text(&r.stderr)));
  // ---- what the reached faults mean
  let ev = Events::of(&r.log, nfiles as usize);
  let mut kinds = Vec::new();
  for f in r.fired() {
    let k = f.split_whitespace().filter(|x| !x.contains('/')).map(|x| x.split('#').next().unwrap()).collect::<Vec<_>>().join(" ");
    ctx.count(&format!("fault:{k}"));
    kinds.push(k);
  }
  ctx.nontrivial = match mode {
    Mode::Write => kinds.iter().any(|k| k.starts_with("write") || k.starts_with("open")),
    Mode::Read => kinds.iter().any(|k| !k.starts_with("write")),
    Mode::Report => job.strict,
  };
  if r.hung {
    return Err(viol("hung", "the process did not end"));
  }
  if r.signal.is_some() {
    return Err(viol("signal", r.status()));
  }
  ctx.state(fnv_str(&format!("{stdin}{to_file}{}{json_errors}{kinds:?}{:?}", job.strict, r.code)));
  let sink = Sink { to_file, out_ok, json_errors, timings, formatter };
  let refused = refused_input(&r, &ev, &sink, &s);
  if ev.main_hard || bad_utf8 {
    return refused;
  }
  // A fault on a lookup (not on the data) may or may not matter to a correct program: every
  // combination of "it did" and "it did not" is a candidate, and one of them has to explain
  // everything that was observed.
  let mut cands: Vec<(Vec<Fault>, bool)> = vec![(vec![], false)];
  for (i, f) in ev.files.iter().enumerate() {
    let content = &w.files[&s.path(&format!("f{i}.adoc"))];
    let mut opts: Vec<Fault> = Vec::new();
    if f.hard {
      opts.push(Fault::Io("?".into()));
    } else {
      if f.shrunk {
        opts.push(Fault::Io("?".into()));
        opts.push(Fault::Bytes(content[..f.got.min(content.len())].to_vec()));
      } else {
        opts.push(Fault::None);
      }
      if f.soft || ev.soft_all {
        opts.push(Fault::Io("?".into()));
      }
      if ev.soft_all {
        opts.push(Fault::BaseDir);
      }
    }
    cands = cands.iter().flat_map(|(c, m)| opts.iter().map(move |o| ([c.clone(), vec![o.clone()]].concat(), *m))).collect();
  }
  if ev.main_soft {
    cands = cands.iter().flat_map(|(c, _)| [(c.clone(), true), (c.clone(), false)]).collect();
  }
  let mut first = None;
  for (plan, no_mtime) in cands {
    let mut job = job.clone();
    if no_mtime {
      job.stamps = Some((NOW, None, None));
    }
    let w = World { plan, base_dir: w.base_dir.clone(), files: w.files.clone(), ..World::default() };
    let want = convert(&job, Some(Rc::new(RefCell::new(w))));
    ctx.count("conversions");
    match explains(&want, &r, &ev, &sink, &s) {
      Ok(()) => return Ok(()),
      Err(e) => first = first.or(Some(e)),
    }
  }
  if ev.main_soft && refused.is_ok() {
    return Ok(());
  }
  Err(first.unwrap())
}

pub struct Sink {
  pub to_file: bool,
  pub out_ok: bool,
  pub json_errors: bool,
  pub timings: bool,
  pub formatter: Option<bool>,
}

fn refused_input(r: &Ran, ev: &Events, k: &Sink, s: &Scratch) -> Verdict {
  if r.code == Some(0) {
    return Err(viol("input-error-hidden", "reading the input failed, yet the exit status is 0"));
  }
  if !r.stdout.is_empty() {
    return Err(viol("input-error-output", format!("output although the input could not be read: {:?}", clip_text(&r.out()))));
  }
  if r.stderr.is_empty() && !ev.write_failed("2") {
    return Err(viol("input-error-silent", "nothing on stderr"));
  }
  if r.panicked() {
    return Err(viol("input-error-panic", r.stderr.clone()));
  }
  no_output_file(s, k.to_file, k.out_ok)
}

pub fn explains(want: &Out, r: &Ran, ev: &Events, k: &Sink, s: &Scratch) -> Verdict {
  let err_fault = ev.write_failed("2");
  let html = match want {
    Out::Panic(m) => return Err(viol("library-panic", m.clone())),
    Out::Err(ds) => {
      // ---- refused by strict mode
      if r.code == Some(0) {
        return Err(viol("strict-exit", format!("exit 0 with something to report: {}", s.hide(&want.show()))));
      }
      if !r.stdout.is_empty() {
        return Err(viol("strict-output", format!("stdout: {:?}", clip_text(&r.out()))));
      }
      if !err_fault {
        report(ds, r, k.json_errors, s)?;
      }
      return no_output_file(s, k.to_file, k.out_ok);
    }
    Out::Ok(h, _) => s.hide(h),
  };
  // ---- delivery
  if k.formatter == Some(false) {
    if r.code == Some(0) {
      return Err(viol("formatter-failure-hidden", "the formatter failed, yet the exit status is 0"));
    }
    if !r.stdout.is_empty() || r.panicked() || (r.stderr.is_empty() && !err_fault) {
      return Err(viol("formatter-failure", format!("stdout {:?} stderr {:?}", clip_text(&r.out()), r.stderr)));
    }
    return no_output_file(s, k.to_file, k.out_ok);
  }
  let html = if k.formatter.is_some() { format!("<!-- formatted -->\n{html}") } else { html };
  let (got, full) = if k.to_file {
    let b = std::fs::read(s.path("out.html")).unwrap_or_default();
    if !r.stdout.is_empty() {
      return Err(viol("stray-stdout", format!("{:?}", clip_text(&r.out()))));
    }
    (strip_css(s.hide(&String::from_utf8_lossy(&b))), html)
  } else {
    (strip_css(r.out()), format!("{html}\n"))
  };
  let lost = ev.writes.iter().any(|(f, x)| (if k.to_file { f != "1" && f != "2" } else { f == "1" }) && *x != 0 && *x != EINTR) || (k.to_file && !k.out_ok);
  if lost {
    if r.code == Some(0) {
      return Err(viol("lost-output-hidden", "writing the output failed, yet the exit status is 0"));
    }
    if r.stderr.is_empty() && !err_fault {
      return Err(viol("lost-output-silent", "nothing on stderr"));
    }
    if r.panicked() {
      return Err(viol("lost-output-panic", r.stderr.clone()));
    }
    let untouched = got.is_empty() || got.starts_with("previous output");
    if k.formatter.is_none() && !untouched && !got.contains("<style>") && !full.contains("<style>") && !full.starts_with(got.trim_end_matches('\u{fffd}')) {
      return Err(viol("lost-output-mangled", format!("delivered {:?}\nis not a beginning of {:?}", clip_text(&got), clip_text(&full))));
    }
    return Ok(());
  }
  let chatty = k.timings || k.formatter.is_some();
  if r.code != Some(0) && !(chatty && err_fault) {
    return Err(viol("exit", format!("{} although everything could be read and written\nstderr {}", r.status(), r.stderr)));
  }
  if !chatty && !r.stderr.is_empty() {
    return Err(viol("stderr", format!("unexpected: {}", r.stderr)));
  }
  if r.code == Some(0) && got != full {
    return Err(viol("output", format!("delivered {:?}\nexpected  {:?}", clip_diff(&got, &full), clip_diff(&full, &got))));
  }
  Ok(())
}

fn no_output_file(s: &Scratch, to_file: bool, out_ok: bool) -> Verdict {
  if to_file && out_ok {
    // a result that does not exist must not replace or pretend to be one
    match std::fs::read_to_string(s.path("out.html")) {
      Ok(t) if !t.starts_with("previous output") => {
        return Err(viol("output-file-touched", format!("output file holds {:?}", clip_text(&t))));
      }
      _ => {}
    }
  }
  Ok(())
}

fn lookup(line: &str) -> bool {
  ["include::f", "include::http", "include::n", "image::http"].iter().any(|p| line.contains(p))
}

/// which of several lookup errors an include failed with is not decided here
fn msg(d: &Diag, s: &Scratch) -> String {
  if lookup(&d.text) { "?".into() } else { s.hide(&d.msg) }
}

/// every diagnostic of the library arrives on stderr, once, and nothing else does
fn report(ds: &[Diag], r: &Ran, json_errors: bool, s: &Scratch) -> Verdict {
  if r.panicked() {
    return Err(viol("report-panic", r.stderr.clone()));
  }
  if json_errors {
    let v = match json::parse(r.stderr.trim_end()) {
      Ok(J::Arr(v)) => v,
      _ => return Err(viol("report-json", format!("stderr is not a JSON array: {:?}", r.stderr))),
    };
    let name = |d: &Diag| d.file.rsplit('/').next().unwrap().to_string();
    let want: Vec<(String, String, u64, u64, u64, String)> = ds
      .iter()
      .map(|d| (s.hide(&d.text), msg(d, s), d.line as u64, d.ustart as u64, (d.ustart + d.uwidth) as u64, name(d)))
      .collect();
    let get = |j: &J, k: &str| j.get(k).and_then(|x| Some(x.as_str().to_string())).unwrap_or("?".into());
    let num = |j: &J, k: &str| j.get(k).map(|x| x.as_u64()).unwrap_or(u64::MAX);
    let got: Vec<(String, String, u64, u64, u64, String)> = v
      .iter()
      .map(|j| {
        (
          get(j, "full_line"),
          if lookup(&get(j, "full_line")) { "?".into() } else { get(j, "message") },
          num(j, "line_num"),
          num(j, "column_num_start"),
          num(j, "column_num_end"),
          get(j, "source_file"),
        )
      })
      .collect();
    if got != want {
      return Err(viol("report-json-content", format!("reported {got:?}\nexpected {want:?}")));
    }
    return Ok(());
  }
  for d in ds {
    let name = d.file.rsplit('/').next().unwrap();
    let head = format!("--> {name}:{}:{}\n", d.line, d.ustart + 1);
    if r.stderr.matches(&head).count() < 1 || (msg(d, s) != "?" && !r.stderr.contains(&msg(d, s))) || !r.stderr.contains(&s.hide(&d.text)) {
      return Err(viol("report-human", format!("stderr {:?}\nlacks {}", r.stderr, d.short())));
    }
  }
  if r.stderr.matches("--> ").count() != ds.len() {
    return Err(viol("report-human-count", format!("stderr {:?}\nexpected {} diagnostics", r.stderr, ds.len())));
  }
  Ok(())
}

pub fn clip_text(t: &str) -> String {
  match t.char_indices().nth(700) {
    None => t.to_string(),
    Some((i, _)) => format!("{}…[{} bytes {:x}]", &t[..i], t.len(), fnv_str(t)),
  }
}

/// the neighbourhood of the first difference
pub fn clip_diff(a: &str, b: &str) -> String {
  let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
  let mut lo = at.saturating_sub(120);
  while !a.is_char_boundary(lo) {
    lo -= 1;
  }
  clip_text(&a[lo..])
}

pub trait Lower {
  fn to_string_lower(&self) -> String;
}
impl Lower for SafeMode {
  fn to_string_lower(&self) -> String {
    match self {
      SafeMode::Unsafe => "unsafe",
      SafeMode::Safe => "safe",
      SafeMode::Server => "server",
      SafeMode::Secure => "secure",
    }
    .into()
  }
}

#[derive(Default, Clone)]
struct FileSeen {
  /// the data could not be had
  hard: bool,
  /// a lookup failed
  soft: bool,
  shrunk: bool,
  got: usize,
}

/// What happened to which file, whatever calls the program makes in whatever order.
#[derive(Default)]
pub struct Events {
  main_hard: bool,
  main_soft: bool,
  soft_all: bool,
  files: Vec<FileSeen>,
  /// (what the descriptor is, errno or 0)
  writes: Vec<(String, i64)>,
}

impl Events {
  pub fn of(log: &[String], nfiles: usize) -> Events {
    let mut e = Events { files: vec![FileSeen::default(); nfiles], ..Events::default() };
    let mut pending: Option<i64> = None;
    let mut opened = String::new();
    for l in log {
      if let Some(f) = l.strip_prefix('!') {
        let f: Vec<&str> = f.split_whitespace().collect();
        if f[0] == "resize" {
          if let Some(i) = index(f[1]) {
            e.files[i].shrunk = true;
          }
          continue;
        }
        match f.get(1) {
          Some(&"err") => pending = f[2].parse().ok(),
          Some(&"short") => pending = None,
          _ => {}
        }
        continue;
      }
      let (op, arg) = l.split_once(' ').unwrap_or((l, ""));
      let err = pending.take();
      let result: i64 = arg.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(-1);
      let mut path = arg.split(" = ").next().unwrap_or("").to_string();
      match op {
        "open" => {
          // `open PATH r = REAL`
          let writing = path.ends_with(" w");
          path = path[..path.len() - 2].to_string();
          opened = path.clone();
          if writing {
            if let Some(x) = err {
              e.writes.push((path.clone(), x));
            }
            continue;
          }
        }
        "read" | "write" => {
          if op == "write" {
            e.writes.push((path.clone(), err.unwrap_or(0)));
            continue;
          }
          if path == "0" {
            path = "main.adoc".into();
          }
        }
        "stat" if path == "(fd)" => path = opened.clone(),
        _ => {}
      }
      let data = op == "open" || op == "read";
      let hard = data && err.is_some_and(|x| x != EINTR);
      let soft = !data && err.is_some();
      if path.ends_with("main.adoc") {
        e.main_hard |= hard;
        e.main_soft |= soft;
      } else if let Some(i) = index(&path) {
        let f = &mut e.files[i];
        f.hard |= hard;
        f.soft |= soft;
        if op == "read" && err.is_none() && result > 0 {
          f.got += result as usize;
        }
      } else if hard || soft {
        e.soft_all = true;
      }
    }
    e
  }
  pub fn write_failed(&self, to: &str) -> bool {
    self.writes.iter().any(|(f, e)| f.ends_with(to) && *e != 0 && *e != EINTR)
  }
}

fn index(path: &str) -> Option<usize> {
  path.rsplit('/').next()?.strip_prefix('f')?.strip_suffix(".adoc")?.parse().ok()
}
