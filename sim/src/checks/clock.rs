//! Time and randomness are inputs like any other: the clock, the file's modification time and
//! the hash seeds of the process are simulated.
use super::Check;
use super::cli_io::{Lower, clip_diff, clip_text};
use crate::cli::*;
use crate::conv::*;
use crate::docgen::*;
use crate::json::{self, J};
use crate::rt::*;
use asciidork_core::SafeMode;
use asciidork_parser::parser::SourceFile;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "C05",
      run: clock,
      quick: 16000,
      thorough: 400000,
      level: "exploration",
      rule: "a run counts when the document shows a date or time attribute, or when two executions of it under different clocks and seeds were compared; distinct by hash of the full scenario",
      state_rule: "distinct (clock class, mtime class, source, overrides present) tuples",
      real: "the asciidork CLI binary (its own main), parser, eval, backends",
      stub: "clock_gettime, statx times, getrandom of the process through a preloaded seam; scratch file tree",
      assumptions: &["dates are UTC", "how a clock outside 1970..9999 is clamped is not decided, only that the result is consistent"],
    },
    Check {
      id: "W01",
      run: wasm,
      quick: 80000,
      thorough: 2000000,
      level: "exploration",
      rule: "every run converts one document at one clock value through the exported function; distinct by hash of (document, clock)",
      state_rule: "distinct (clock class, reply kind, kinds of escapes needed) tuples",
      real: "dr-html-wasm's exported convert function, compiled natively; parser, eval, dr-html backend",
      stub: "the JavaScript host: its clock (the timestamp argument) and its JSON.parse (an independent strict JSON reader)",
      assumptions: &["the native build of the exported function behaves as its wasm32 build"],
    },
  ]
}

/// civil date of a day number, by Hinnant's algorithm
fn civil(days: i64) -> (i64, i64, i64) {
  let z = days + 719468;
  let era = z.div_euclid(146097);
  let doe = z.rem_euclid(146097);
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

fn date(t: i64) -> String {
  let (y, m, d) = civil(t.div_euclid(86400));
  format!("{y:04}-{m:02}-{d:02}")
}

fn time(t: i64) -> String {
  let s = t.rem_euclid(86400);
  format!("{:02}:{:02}:{:02}+0000", s / 3600, s / 60 % 60, s % 60)
}

/// instants every clock library can represent
fn ordinary(t: i64) -> bool {
  (0..253_402_000_000).contains(&t)
}

fn instant(ctx: &mut Ctx) -> (i64, &'static str) {
  match ctx.ch.weighted(&[8, 4, 2, 2]) {
    0 => (ctx.ch.below(4_000_000_000) as i64, "ordinary"),
    1 => {
      // the seconds around a boundary
      let at = *ctx.ch.pick(&[
        0i64,
        951_782_400,
        951_868_800,
        1_709_164_800,
        1_709_251_200,
        1_704_067_200,
        1_735_689_600,
        2_147_483_648,
        4_102_444_800,
        4_107_542_400,
        253_401_000_000,
      ]);
      (at + ctx.ch.below(3) as i64 - 1, "boundary")
    }
    2 => (-(ctx.ch.below(1 << 40) as i64) - 1, "before 1970"),
    _ => (
      *ctx.ch.pick(&[
        253_402_207_199i64,
        253_402_207_200,
        253_402_207_201,
        253_402_300_799,
        253_402_300_800,
        1_000_000_000_000,
        1 << 45,
        i64::MAX / 2,
        i64::MAX - 1,
      ]),
      "beyond 9999",
    ),
  }
}

const NAMES: [&str; 8] =
  ["docyear", "docdate", "doctime", "docdatetime", "localyear", "localdate", "localtime", "localdatetime"];

fn clock(ctx: &mut Ctx) -> Verdict {
  let s = Scratch::new();
  let (now, now_class) = instant(ctx);
  let (mtime, mtime_class) = instant(ctx);
  let stdin = ctx.ch.chance(30);
  let shows = ctx.ch.chance(75);
  let mut p = Proc::default();
  // ---- explicit values
  let mut given: BTreeMap<&str, String> = BTreeMap::new();
  if shows {
    for name in NAMES {
      if ctx.ch.chance(8) {
        let v = match name {
          n if n.ends_with("year") => *ctx.ch.pick(&["1999", "Y2"]),
          n if n.ends_with("datetime") => *ctx.ch.pick(&["2001-02-03 04:05:06+0000", "some day"]),
          n if n.ends_with("date") => *ctx.ch.pick(&["2015-01-01", "9999-12-31", "2015-02-30", "January 2020", "0001-01-01", "12015-01-01"]),
          _ => *ctx.ch.pick(&["10:00:00-0700", "23:59:60+0000", "noon", "00:00:00+0000"]),
        };
        p.args.extend(["-a".into(), format!("{name}={v}{}", if ctx.ch.chance(30) { "@" } else { "" })]);
        given.insert(name, v.to_string());
      }
    }
  }
  // ---- the document
  let mut text = String::new();
  let mut inc = String::new();
  let mut expect: Vec<String> = Vec::new();
  let doc = if stdin { now } else { mtime };
  let want = |name: &str| -> Option<String> {
    let get = |n: &str| given.get(n).cloned();
    let t = if name.starts_with("doc") { doc } else { now };
    let pre = if name.starts_with("doc") { "doc" } else { "local" };
    let d = get(&format!("{pre}date")).unwrap_or_else(|| date(t));
    let tm = get(&format!("{pre}time")).unwrap_or_else(|| time(t));
    get(name).or_else(|| match &name[pre.len()..] {
      "year" => d.split_once('-').map(|x| x.0.to_string()).filter(|y| y.len() == 4),
      "date" => Some(d),
      "time" => Some(tm),
      _ => Some(format!("{d} {tm}")),
    })
  };
  // a date nobody can tell the year of leaves the year unset; what is shown then is not decided here
  let refs = NAMES.map(|n| if want(n).is_some() { format!("{{{n}}}") } else { "-".into() }).join("/");
  let shown = NAMES.map(|n| want(n).unwrap_or_else(|| "-".into())).join("/");
  let mut feat = 0;
  if shows {
    // the same instant wherever it is asked for
    for place in 0..5 {
      if !ctx.ch.chance(if place == 1 { 90 } else { 35 }) {
        continue;
      }
      let tag = format!("P{place}:");
      match place {
        0 => {
          text.push_str(&format!("= Title\n:held: {tag}{refs};\n\n{{held}}\n\n"));
        }
        1 => text.push_str(&format!("{tag}{refs};\n\n")),
        2 => {
          text.push_str("include::f0.adoc[]\n\n");
          inc.push_str(&format!("{tag}{refs};\n"));
        }
        3 => text.push_str(&format!("|===\na|{tag}{refs};\n|===\n\n")),
        _ => text.push_str(&format!(":late: {tag}{refs};\n\n{{late}}\n\n")),
      }
      expect.push(format!("{tag}{shown};"));
    }
  } else {
    feat = super::includes::swarm(ctx);
    let blocks = ctx.ch.range(1, 6);
    let mut g = DocGen::new(&mut ctx.ch, feat);
    match g.ch.below(4) {
      0 => {}
      1 => {
        let d = *g.ch.pick(&["2024-01-02", "October 31, 2021", "31 October 2021", "10/31/2021", "2021-12-31 23:59:59", "May 27", "next year", "Oct 31, 2021"]);
        text.push_str(&format!("= Title\nJane Doe <j@example.org>\nv1.{}, {d}{}\n\n", g.ch.below(3), if g.ch.chance(30) { ": remark" } else { "" }));
      }
      _ => {
        text.push_str(&g.header().into_iter().map(|l| l.text + "\n").collect::<String>());
        text.push('\n');
      }
    }
    text.push_str(&g.body(blocks).into_iter().map(|l| l.text + "\n").collect::<String>());
  }
  s.file("main.adoc", text.as_bytes());
  s.file("f0.adoc", inc.as_bytes());
  p.args.extend(["-s".into(), SafeMode::Unsafe.to_string_lower()]);
  if ctx.ch.chance(60) {
    p.args.push("-e".into());
  }
  if ctx.ch.chance(30) {
    p.args.extend(["-f".into(), "html5".into()]);
  }
  if ctx.ch.chance(30) && !shows {
    p.args.push("--strict".into());
  }
  if stdin {
    p.stdin = text.clone().into_bytes();
  } else {
    p.args.extend(["-i".into(), "main.adoc".into()]);
  }
  let step = *ctx.ch.pick(&[0i64, 0, 1, 86400, -86400, 31_622_400]);
  p.plan = vec![
    format!("clock {now} {}", ctx.ch.pick(&[0u64, 1, 500_000_000, 999_999_999])),
    format!("mtime {mtime}"),
    format!("rand {}", ctx.ch.below(1_000_000)),
    format!("clockstep {step}"),
  ];
  ctx.count(&format!("clock: {now_class}"));
  ctx.count(&format!("mtime: {mtime_class}"));
  if step != 0 {
    ctx.count("fault:clock jumps between two reads");
  }
  ctx.log(format!("now {now} ({now_class}) mtime {mtime} ({mtime_class}) stdin {stdin}"));
  ctx.log(format!("args {:?}", p.args));
  ctx.log(format!("document {:?}", clip_text(&text)));
  const TZ: [&str; 6] = ["UTC", "EST5EDT", "<+14>-14", "JST-9", "<-12>12", ""];
  p.env.insert("TZ".into(), ctx.ch.pick(&TZ).to_string());
  let r = run(&s, &p);
  ctx.count("processes");
  ctx.sim_secs += 1;
  ctx.log(format!("{} stdout {:?} stderr {:?}", r.status(), clip_text(&strip_css(r.out())), clip_text(&r.stderr)));
  ctx.nontrivial = true;
  ctx.state(fnv_str(&format!("{now_class}{mtime_class}{stdin}{:?}{feat}", given.keys().collect::<Vec<_>>())));
  // what a date parsing dependency makes of an incomplete date
  let incomplete = ["v1.0, ", "v1.1, ", "v1.2, "].iter().any(|v| text.contains(&format!("{v}2021-12-31 23")) || text.contains(&format!("{v}May 27")));
  if incomplete && ctx.known("revdate-incomplete") {
    ctx.count("known:revdate-incomplete");
    return Ok(());
  }
  if r.hung || r.panicked() {
    return Err(viol("clock-panic", format!("{} {}", r.status(), r.stderr)));
  }
  if shows {
    if r.code != Some(0) {
      return Err(viol("clock-exit", format!("{} {}", r.status(), r.stderr)));
    }
    let out = r.out();
    if ordinary(doc) && ordinary(now) {
      for e in &expect {
        if !out.contains(e) {
          return Err(viol("clock-value", format!("{e:?} is not in {:?}", clip_text(&strip_css(out)))));
        }
      }
    } else {
      consistent(&out, &expect, &given)?;
    }
  }
  // ---- a second execution that differs in nothing the document may depend on
  let mut q = p.clone();
  let sub = ctx.ch.below(1_000_000_000);
  q.env.insert("TZ".into(), ctx.ch.pick(&TZ).to_string());
  let (now2, mtime2) = if shows { (now, mtime) } else { (instant(ctx).0, instant(ctx).0) };
  q.plan = vec![
    format!("clock {now2} {sub}"),
    format!("mtime {mtime2}"),
    format!("rand {}", ctx.ch.below(1_000_000)),
    format!("clockstep {}", if shows { step } else { 86400 }),
  ];
  let r2 = run(&s, &q);
  ctx.count("processes");
  if (r2.code, &r2.stdout, &r2.stderr) != (r.code, &r.stdout, &r.stderr) {
    let (a, b) = (strip_css(r.out()), strip_css(r2.out()));
    return Err(viol(
      "clock-leak",
      format!(
        "the result depends on clock, mtime or random seeds\n{} {:?} {}\n{} {:?} {}",
        r.status(),
        clip_diff(&a, &b),
        r.stderr,
        r2.status(),
        clip_diff(&b, &a),
        r2.stderr
      ),
    ));
  }
  Ok(())
}

/// a clock nobody can represent: the shown values at least agree with each other
fn consistent(out: &str, expect: &[String], given: &BTreeMap<&str, String>) -> Verdict {
  let mut seen: Option<String> = None;
  for e in expect {
    let tag = &e[..3];
    let Some(i) = out.find(tag) else {
      return Err(viol("clock-value", format!("{tag} is not in the output")));
    };
    let v = out[i + 3..].split(';').next().unwrap().to_string();
    if seen.as_ref().is_some_and(|s| *s != v) {
      return Err(viol("clock-places", format!("two places show {seen:?} and {v:?}")));
    }
    seen = Some(v.clone());
    let f: Vec<&str> = v.split('/').collect();
    if f.len() != 8 {
      return Err(viol("clock-value", v));
    }
    for k in [0, 4] {
      let name = |i: usize| NAMES[k + i];
      let free = |i: usize| !given.contains_key(name(i));
      for i in 0..4 {
        if let Some(g) = given.get(name(i))
          && f[k + i] != g
        {
          return Err(viol("clock-override", format!("{} is {} instead of {g}", name(i), f[k + i])));
        }
      }
      if free(0) && f[k] != "-" && f[k] != f[k + 1].split('-').next().unwrap() {
        return Err(viol("clock-consistency", v.clone()));
      }
      if free(3) && f[k + 3] != format!("{} {}", f[k + 1], f[k + 2]) {
        return Err(viol("clock-consistency", v.clone()));
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------

fn wasm(ctx: &mut Ctx) -> Verdict {
  let feat = super::includes::swarm(ctx);
  let blocks = ctx.ch.range(1, 6);
  let mut lines: Vec<String> = Vec::new();
  {
    let mut g = DocGen::new(&mut ctx.ch, feat);
    if g.ch.chance(50) {
      lines.extend(g.header().into_iter().map(|l| l.text));
      lines.push(String::new());
    }
    lines.extend(g.body(blocks).into_iter().map(|l| l.text));
  }
  let mut esc = 0u32;
  const ODD: [&str; 14] = [
    "C:\\dir\\new", "a\ttab", "say \"hi\"", "\u{1}\u{1f}\u{7f}", "é世😀", "\u{2028}\u{2029}", "\\\"", "\\n \\u0041", "{docdate} {localtime}",
    "`a\\\\`", "\u{feff}x", "</script>", "\u{85}nel", "+++\\+++",
  ];
  for _ in 0..ctx.ch.below(4) {
    let k = ctx.ch.idx(ODD.len());
    esc |= 1 << k;
    let l = match ctx.ch.below(4) {
      0 => format!("text {} text", ODD[k]),
      1 => format!("----\n{}\n----", ODD[k]),
      2 => format!(".{}\n====\nx\n====", ODD[k]),
      _ => format!("* {}", ODD[k]),
    };
    let at = if ctx.ch.chance(30) { ctx.ch.idx(lines.len() + 1) } else { lines.len() };
    lines.insert(at, String::new());
    lines.insert(at + 1, l);
    lines.insert(at + 2, String::new());
  }
  let text = lines.join("\n");
  let (t, class) = instant(ctx);
  let (ts, class) = match ctx.ch.below(12) {
    0 => (f64::NAN, "nan"),
    1 => (f64::INFINITY, "inf"),
    2 => (f64::NEG_INFINITY, "-inf"),
    3 => (t as f64 + 0.75, class),
    // a host that passes milliseconds
    4 => (t as f64 * 1000.0, class),
    _ => (t as f64, class),
  };
  ctx.log(format!("timestamp {ts}"));
  ctx.log(format!("document {text:?}"));
  ctx.count(&format!("clock: {class}"));
  ctx.nontrivial = true;
  let reply = match catch_unwind(AssertUnwindSafe(|| dr_html_wasm::convert(&text, ts))) {
    Ok(r) => r,
    Err(_) => return Err(viol("wasm-panic", last_panic())),
  };
  ctx.count("conversions");
  let mut job = Job::new(text, "/none");
  job.file = SourceFile::Tmp;
  job.safe = SafeMode::Secure;
  job.stamps = Some((ts as u64, None, None));
  let want = convert(&job, None);
  ctx.state(fnv_str(&format!("{class}{}{esc}", want.kind())));
  let j = match json::parse(&reply) {
    Ok(j) => j,
    Err(e) => return Err(viol("wasm-json", format!("{e}: {}", clip_text(&reply)))),
  };
  match &want {
    Out::Panic(m) => Err(viol("wasm-library-panic", m.clone())),
    Out::Ok(html, _) => {
      let got = j.get("html").map(|h| h.as_str().to_string());
      if j.get("success") != Some(&J::Bool(true)) || got.as_deref() != Some(html) {
        return Err(viol("wasm-html", format!("reply {}\nexpected {:?}", clip_text(&reply), clip_text(html))));
      }
      Ok(())
    }
    Out::Err(ds) => {
      let n = j.get("errors").map(|e| e.arr().len());
      if j.get("success") != Some(&J::Bool(false)) || n != Some(ds.len()) {
        return Err(viol("wasm-errors", format!("reply {}\nexpected {} errors", clip_text(&reply), ds.len())));
      }
      for (d, e) in ds.iter().zip(j.get("errors").unwrap().arr()) {
        if !e.as_str().contains(&d.msg) || !e.as_str().contains(&d.text) {
          return Err(viol("wasm-errors", format!("reply {}\nlacks {}", clip_text(&reply), d.short())));
        }
      }
      Ok(())
    }
  }
}
