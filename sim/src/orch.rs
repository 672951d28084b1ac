//! Orchestration: worker processes, watchdog, shrinking, replay files, evidence.
use crate::checks::{Check, all_checks};
use crate::conv::{install_panic_hook, last_panic};
use crate::json::{self, J};
use crate::rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct RunOut {
  pub verdict: Verdict,
  pub ctx: Ctx,
}

fn scratch_root() -> PathBuf {
  PathBuf::from(std::env::var("SIM_OUT").unwrap_or_else(|_| "/verif/out".into()))
}

/// Execute one simulated run on a fresh thread (fresh hash keys, fresh thread locals).
pub fn run_once(check: &Check, ch: Choices, thorough: bool) -> RunOut {
  let f = check.run;
  let h = std::thread::Builder::new()
    .stack_size(8 << 20)
    .spawn(move || {
      let mut ctx = Ctx::new(ch, thorough);
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
      let verdict = match r {
        Ok(v) => v,
        Err(_) => {
          let m = last_panic();
          Err(viol("panic-outside-conversion", m))
        }
      };
      SendBox(RunOut { verdict, ctx })
    })
    .expect("spawn run thread");
  h.join().expect("run thread").0
}

struct SendBox(RunOut);
unsafe impl Send for SendBox {}

pub fn run_seed(master: u64, check: &str, idx: u64) -> u64 {
  mix(mix(master) ^ fnv_str(check) ^ mix(idx.wrapping_mul(0xD6E8_FEB8_6659_FD93)))
}

fn hash_seed_for(seed: u64) -> u64 {
  mix(seed ^ 0x5151)
}

fn exec_seed(check: &Check, seed: u64, thorough: bool) -> RunOut {
  set_hash_seed(hash_seed_for(seed));
  run_once(check, Choices::seeded(seed), thorough)
}

fn exec_choices(check: &Check, seed: u64, choices: &[u64], thorough: bool) -> RunOut {
  set_hash_seed(hash_seed_for(seed));
  run_once(check, Choices::replaying(choices.to_vec()), thorough)
}

pub fn find_check(id: &str) -> Option<Check> {
  all_checks().into_iter().find(|c| c.id == id)
}

fn digest(o: &RunOut) -> u64 {
  let mut s = String::new();
  for l in &o.ctx.trace {
    s.push_str(l);
    s.push('\n');
  }
  if let Err(v) = &o.verdict {
    s.push_str(&v.class);
    s.push_str(&v.detail);
  }
  fnv_str(&s)
}

// ---------------------------------------------------------------- worker
/// args: check seed thorough worker nworkers runs outdir
pub fn worker(a: &[String]) -> i32 {
  install_panic_hook();
  limit_memory();
  let check = find_check(&a[0]).expect("check");
  let master: u64 = a[1].parse().unwrap();
  let thorough = a[2] == "1";
  let (w, nw, runs): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
  let out = PathBuf::from(&a[6]);
  let mut prog = std::fs::File::create(out.join(format!("progress.{w}"))).unwrap();
  let mut stats: BTreeMap<String, u64> = BTreeMap::new();
  let mut states: BTreeSet<u64> = BTreeSet::new();
  let mut scen: BTreeSet<u64> = BTreeSet::new();
  let mut samples: Vec<J> = Vec::new();
  let (mut evals, mut nontrivial, mut sim_secs) = (0u64, 0u64, 0u64);
  let mut digests: Vec<J> = Vec::new();
  let mut failed: Option<J> = None;
  let mut i = w;
  let stop = out.join("stop");
  while i < runs {
    use std::os::unix::fs::FileExt;
    let _ = prog.write_at(format!("{i:>20}").as_bytes(), 0);
    let seed = run_seed(master, check.id, i);
    let o = exec_seed(&check, seed, thorough);
    evals += 1;
    sim_secs += o.ctx.sim_secs;
    for (k, v) in &o.ctx.stats {
      *stats.entry(k.clone()).or_insert(0) += v;
    }
    states.extend(o.ctx.states.iter().copied());
    if o.ctx.nontrivial {
      nontrivial += 1;
      scen.insert(fnv_str(&o.ctx.trace.join("\n")));
      if samples.len() < 2 && w < 2 {
        samples.push(J::obj(vec![
          ("run", J::U(i)),
          ("seed", J::U(seed)),
          ("scenario", J::Arr(o.ctx.trace.iter().take(40).map(|s| J::s(clip(s, 600))).collect())),
        ]));
      }
    }
    if i < 64 {
      digests.push(J::Arr(vec![J::U(i), J::s(format!("{:x}", digest(&o)))]));
    }
    if let Err(v) = &o.verdict {
      failed = Some(J::obj(vec![
        ("run", J::U(i)),
        ("seed", J::U(seed)),
        ("class", J::s(&v.class)),
        ("detail", J::s(&v.detail)),
        ("choices", J::Arr(o.ctx.ch.rec.iter().map(|c| J::U(*c)).collect())),
      ]));
      let _ = std::fs::write(&stop, b"1");
      break;
    }
    if evals % 16 == 0 && stop.exists() {
      break;
    }
    i += nw;
  }
  let _ = prog.flush();
  let res = J::obj(vec![
    ("evals", J::U(evals)),
    ("nontrivial", J::U(nontrivial)),
    ("sim_secs", J::U(sim_secs)),
    ("stats", J::Obj(stats.into_iter().map(|(k, v)| (k, J::U(v))).collect())),
    ("states", J::Arr(states.into_iter().map(|x| J::s(format!("{x:x}"))).collect())),
    ("scen", J::Arr(scen.into_iter().map(|x| J::s(format!("{x:x}"))).collect())),
    ("samples", J::Arr(samples)),
    ("digests", J::Arr(digests)),
    ("failed", failed.unwrap_or(J::Null)),
  ]);
  let tmp = out.join(format!("res.{w}.tmp"));
  std::fs::write(&tmp, res.dump()).unwrap();
  std::fs::rename(&tmp, out.join(format!("res.{w}"))).unwrap();
  0
}

fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

fn limit_memory() {
  #[repr(C)]
  struct Rl {
    cur: u64,
    max: u64,
  }
  unsafe extern "C" {
    fn setrlimit(res: i32, rl: *const Rl) -> i32;
  }
  // address space 6 GB, no core dumps
  let r = Rl { cur: 6 << 30, max: 6 << 30 };
  let z = Rl { cur: 0, max: 0 };
  unsafe {
    setrlimit(9, &r);
    setrlimit(4, &z);
  }
}

// ---------------------------------------------------------------- shrinking
/// Delta-debug the recorded choices while the same violation class persists.
fn shrink(
  check: &Check,
  seed: u64,
  choices: Vec<u64>,
  class: &str,
  thorough: bool,
  budget: Duration,
) -> (Vec<u64>, u64) {
  let t0 = Instant::now();
  let mut tries = 0u64;
  let mut best = choices;
  let mut test = |c: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
    *tries += 1;
    let o = exec_choices(check, seed, c, thorough);
    match &o.verdict {
      Err(v) if v.class == class => Some(o.ctx.ch.rec),
      _ => None,
    }
  };
  let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
  loop {
    let before = best.clone();
    // delete chunks
    let mut size = (best.len() / 2).max(1);
    while size >= 1 {
      let mut i = 0;
      while i < best.len() {
        if t0.elapsed() > budget {
          return (best, tries);
        }
        let mut c = best.clone();
        c.drain(i..(i + size).min(c.len()));
        if let Some(r) = test(&c, &mut tries)
          && better(&r, &best)
        {
          best = r;
          continue;
        }
        i += size;
      }
      if size == 1 {
        break;
      }
      size /= 2;
    }
    // zero / lower single choices
    let mut i = 0;
    while i < best.len() {
      if t0.elapsed() > budget {
        return (best, tries);
      }
      if best[i] > 0 {
        for cand in [0, best[i] / 2, best[i] - 1] {
          if i >= best.len() || cand >= best[i] {
            continue;
          }
          let mut c = best.clone();
          c[i] = cand;
          if let Some(r) = test(&c, &mut tries)
            && better(&r, &best)
          {
            best = r;
            break;
          }
        }
      }
      i += 1;
    }
    if best == before {
      return (best, tries);
    }
  }
}

/// args: check seed thorough class choicesfile outfile budget_secs
pub fn shrink_cmd(a: &[String]) -> i32 {
  install_panic_hook();
  limit_memory();
  let check = find_check(&a[0]).expect("check");
  let seed: u64 = a[1].parse().unwrap();
  let thorough = a[2] == "1";
  let class = &a[3];
  let choices = read_choices(&a[4]);
  let budget = Duration::from_secs(a[6].parse().unwrap());
  let (best, tries) = shrink(&check, seed, choices, class, thorough, budget);
  let txt: String = best.iter().map(|c| format!("{c}\n")).collect();
  std::fs::write(&a[5], txt).unwrap();
  println!("shrunk to {} choices in {tries} executions", best.len());
  0
}

fn read_choices(p: &str) -> Vec<u64> {
  std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()
}

/// args: check seed thorough choicesfile  -> prints class/detail/scenario as JSON
pub fn exec_cmd(a: &[String]) -> i32 {
  install_panic_hook();
  limit_memory();
  let check = find_check(&a[0]).expect("check");
  let seed: u64 = a[1].parse().unwrap();
  let thorough = a[2] == "1";
  let o = if a[3] == "-" {
    exec_seed(&check, seed, thorough)
  } else {
    exec_choices(&check, seed, &read_choices(&a[3]), thorough)
  };
  let (class, detail) = match &o.verdict {
    Ok(()) => ("".to_string(), "".to_string()),
    Err(v) => (v.class.clone(), v.detail.clone()),
  };
  println!(
    "{}",
    J::obj(vec![
      ("class", J::s(class)),
      ("detail", J::s(detail)),
      ("digest", J::s(format!("{:x}", digest(&o)))),
      ("scenario", J::Arr(o.ctx.trace.iter().map(J::s).collect())),
    ])
    .dump()
  );
  0
}

// ---------------------------------------------------------------- orchestrator
struct Fail {
  run: u64,
  seed: u64,
  class: String,
  detail: String,
  choices: Option<Vec<u64>>,
}

fn exe() -> PathBuf {
  std::env::current_exe().expect("current exe")
}

fn spawn(args: &[String], env: &[(&str, String)]) -> Child {
  let mut c = Command::new(exe());
  c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
  for (k, v) in env {
    c.env(k, v);
  }
  c.spawn().expect("spawn")
}

/// run a child with a stall limit; returns (exit ok, killed-as-hang)
fn wait_limit(mut c: Child, limit: Duration) -> (Option<std::process::ExitStatus>, bool) {
  let t0 = Instant::now();
  loop {
    if let Ok(Some(st)) = c.try_wait() {
      return (Some(st), false);
    }
    if t0.elapsed() > limit {
      let _ = c.kill();
      let _ = c.wait();
      return (None, true);
    }
    std::thread::sleep(Duration::from_millis(5));
  }
}

fn exec_child(check: &Check, seed: u64, thorough: bool, choices: Option<&[u64]>, dir: &PathBuf) -> Result<J, String> {
  let cf = dir.join("exec.choices");
  let arg = match choices {
    Some(c) => {
      std::fs::write(&cf, c.iter().map(|c| format!("{c}\n")).collect::<String>()).unwrap();
      cf.to_string_lossy().to_string()
    }
    None => "-".into(),
  };
  let outf = dir.join("exec.out");
  let fo = std::fs::File::create(&outf).unwrap();
  let _ = std::fs::remove_file(dir.join("exec.trace"));
  let c = Command::new(exe())
    .args(["exec", check.id, &seed.to_string(), if thorough { "1" } else { "0" }, &arg])
    .env("SIM_TRACE_FILE", dir.join("exec.trace"))
    .stdin(Stdio::null())
    .stdout(fo)
    .stderr(Stdio::null())
    .spawn()
    .expect("spawn");
  let (st, hang) = wait_limit(c, Duration::from_secs(hang_secs()));
  if hang {
    return Err("hang".into());
  }
  let st = st.unwrap();
  if let Some(sig) = st.signal() {
    return Err(format!("killed-by-signal-{sig}"));
  }
  if st.code() != Some(0) {
    return Err(format!("exit-{:?}", st.code()));
  }
  json::parse(&std::fs::read_to_string(&outf).unwrap_or_default())
}

/// what a run that died had logged
fn crash_trace(dir: &std::path::Path) -> Vec<J> {
  std::fs::read(dir.join("exec.trace")).map(|b| String::from_utf8_lossy(&b).lines().map(J::s).collect()).unwrap_or_default()
}

fn hang_secs() -> u64 {
  45
}

/// shrink a crash or hang: every candidate in its own process
fn shrink_crash(check: &Check, seed: u64, mut best: Vec<u64>, class: &str, thorough: bool, dir: &PathBuf) -> Vec<u64> {
  if class == "hang" {
    return best;
  }
  let t0 = Instant::now();
  let budget = Duration::from_secs(60);
  let same = |c: &[u64]| matches!(exec_child(check, seed, thorough, Some(c), dir), Err(e) if e == class);
  let mut size = (best.len() / 2).max(1);
  loop {
    let mut i = 0;
    while i < best.len() {
      if t0.elapsed() > budget {
        return best;
      }
      let mut c = best.clone();
      c.drain(i..(i + size).min(c.len()));
      if same(&c) {
        best = c;
      } else {
        i += size;
      }
    }
    if size == 1 {
      return best;
    }
    size = (size / 2).max(1);
  }
}

pub fn run_check(id: &str) -> i32 {
  let t0 = Instant::now();
  let Some(check) = find_check(id) else {
    eprintln!("unknown check {id}");
    return 2;
  };
  let master: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
  let mut runs = if thorough { check.thorough } else { check.quick };
  if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
    runs = n;
  }
  let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  println!("property {id}: VERIF_SEED={master} tier={} runs={runs} workers={nw}", if thorough { "thorough" } else { "quick" });
  let dir = scratch_root().join(format!("{id}.{}", std::process::id()));
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).expect("scratch dir");
  let tflag = if thorough { "1" } else { "0" }.to_string();
  let mut kids: Vec<Option<(Child, String, Instant)>> = (0..nw)
    .map(|w| {
      let args: Vec<String> = vec![
        "worker".into(),
        id.into(),
        master.to_string(),
        tflag.clone(),
        w.to_string(),
        nw.to_string(),
        runs.to_string(),
        dir.to_string_lossy().to_string(),
      ];
      Some((spawn(&args, &[("SIM_SCRATCH", dir.join(format!("w{w}")).to_string_lossy().to_string())]), String::new(), Instant::now()))
    })
    .collect();
  let mut fails: Vec<Fail> = Vec::new();
  let mut broken = false;
  loop {
    let mut live = 0;
    for w in 0..nw as usize {
      let Some((c, last, at)) = &mut kids[w] else { continue };
      live += 1;
      let p = std::fs::read_to_string(dir.join(format!("progress.{w}"))).unwrap_or_default();
      if p != *last {
        *last = p.clone();
        *at = Instant::now();
      }
      let idx: u64 = p.trim().parse().unwrap_or(0);
      if let Ok(Some(st)) = c.try_wait() {
        if let Some(sig) = st.signal() {
          fails.push(Fail { run: idx, seed: run_seed(master, id, idx), class: format!("killed-by-signal-{sig}"), detail: format!("the process converting run {idx} died with signal {sig} (abort, stack overflow or memory exhaustion)"), choices: None });
          let _ = std::fs::write(dir.join("stop"), b"1");
        } else if st.code() != Some(0) {
          eprintln!("worker {w} exited {:?} at run {idx}", st.code());
          broken = true;
        }
        kids[w] = None;
      } else if at.elapsed() > Duration::from_secs(hang_secs()) {
        let _ = c.kill();
        let _ = c.wait();
        fails.push(Fail { run: idx, seed: run_seed(master, id, idx), class: "hang".into(), detail: format!("run {idx} made no progress for {} s", hang_secs()), choices: None });
        let _ = std::fs::write(dir.join("stop"), b"1");
        kids[w] = None;
      }
    }
    if live == 0 {
      break;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
  // merge
  let mut stats: BTreeMap<String, u64> = BTreeMap::new();
  let (mut states, mut scen) = (BTreeSet::new(), BTreeSet::new());
  let (mut evals, mut nontrivial, mut sim_secs) = (0, 0, 0);
  let mut samples = Vec::new();
  let mut digests: BTreeMap<u64, String> = BTreeMap::new();
  for w in 0..nw {
    let Ok(txt) = std::fs::read_to_string(dir.join(format!("res.{w}"))) else { continue };
    let j = match json::parse(&txt) {
      Ok(j) => j,
      Err(e) => {
        eprintln!("worker {w}: bad result: {e}");
        broken = true;
        continue;
      }
    };
    let u = |k: &str| j.get(k).map(|x| x.as_u64()).unwrap_or(0);
    evals += u("evals");
    nontrivial += u("nontrivial");
    sim_secs += u("sim_secs");
    if let Some(J::Obj(m)) = j.get("stats") {
      for (k, v) in m {
        *stats.entry(k.clone()).or_insert(0) += v.as_u64();
      }
    }
    for x in j.get("states").map(|x| x.arr()).unwrap_or(&[]) {
      states.insert(x.as_str().to_string());
    }
    for x in j.get("scen").map(|x| x.arr()).unwrap_or(&[]) {
      scen.insert(x.as_str().to_string());
    }
    samples.extend(j.get("samples").map(|x| x.arr().to_vec()).unwrap_or_default());
    for d in j.get("digests").map(|x| x.arr()).unwrap_or(&[]) {
      digests.insert(d.arr()[0].as_u64(), d.arr()[1].as_str().to_string());
    }
    if let Some(f @ J::Obj(_)) = j.get("failed") {
      fails.push(Fail {
        run: f.get("run").unwrap().as_u64(),
        seed: f.get("seed").unwrap().as_u64(),
        class: f.get("class").unwrap().as_str().into(),
        detail: f.get("detail").unwrap().as_str().into(),
        choices: Some(f.get("choices").unwrap().arr().iter().map(|c| c.as_u64()).collect()),
      });
    }
  }
  fails.sort_by_key(|f| f.run);
  // replay determinism: some runs again, each in a fresh process
  let mut redo = 0u64;
  let mut mismatch = 0u64;
  if fails.is_empty() && !broken {
    for (idx, d) in digests.iter().take(12) {
      if let Ok(j) = exec_child(&check, run_seed(master, id, *idx), thorough, None, &dir) {
        redo += 1;
        if j.get("digest").map(|x| x.as_str()) != Some(d) {
          mismatch += 1;
        }
      }
    }
  }
  for (kid, key, what) in known_lines() {
    if kid == id {
      println!("KNOWN-FINDING: property={id} {key}: {what}");
    }
  }
  let mut nviol = 0;
  if let Some(f) = fails.first() {
    nviol = 1;
    let replay = report(&check, f, master, thorough, &dir);
    println!("VIOLATION property={id} replay={}", replay.display());
  }
  let wall = t0.elapsed().as_secs_f64();
  let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
  for (k, v) in &stats {
    match k.strip_prefix("fault:") {
      Some(n) => faults.insert(n.to_string(), J::U(*v)),
      None => probes.insert(k.clone(), J::U(*v)),
    };
  }
  let cov = J::obj(vec![
    ("evaluations", J::U(evals)),
    ("distinct_nontrivial", J::U(scen.len() as u64)),
    ("nontrivial_runs", J::U(nontrivial)),
    ("rule", J::s(check.rule)),
    ("samples", J::Arr(samples)),
    ("simulated_runs_per_hour", J::U((evals as f64 / wall * 3600.0) as u64)),
    ("seeds", J::s(format!("run i uses seed mix(VERIF_SEED={master}, {id}, i), i in 0..{runs}"))),
    ("simulated_seconds", J::U(sim_secs)),
    ("faults_fired", J::Obj(faults)),
    ("probes", J::Obj(probes)),
    ("distinct_states", J::U(states.len() as u64)),
    ("distinct_states_measure", J::s(check.state_rule)),
    ("real_components", J::s(check.real)),
    ("stubbed_components", J::s(check.stub)),
    ("replayed_in_fresh_process", J::U(redo)),
    ("replay_divergences", J::U(mismatch)),
    ("workers", J::U(nw)),
  ]);
  let ev = J::obj(vec![
    ("property", J::s(id)),
    ("tier", J::s(if thorough { "thorough" } else { "quick" })),
    ("seed", J::U(master)),
    ("level", J::s(check.level)),
    ("coverage", cov),
    ("assumptions", J::Arr(check.assumptions.iter().map(|s| J::s(*s)).collect())),
    ("wall_s", J::Num((wall * 100.0).round() / 100.0)),
    ("violations", J::U(nviol)),
  ]);
  let evdir = PathBuf::from(std::env::var("SIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into()));
  let _ = std::fs::create_dir_all(&evdir);
  std::fs::write(evdir.join(format!("{id}.json")), ev.dump()).expect("write evidence");
  let _ = std::fs::remove_dir_all(&dir);
  println!("property {id}: {evals} runs, {} distinct non-trivial, {} states, {wall:.1}s, replay divergences {mismatch}/{redo}", scen.len(), states.len());
  if nviol > 0 {
    return 1;
  }
  if broken {
    eprintln!("harness error");
    return 2;
  }
  0
}

fn report(check: &Check, f: &Fail, master: u64, thorough: bool, dir: &PathBuf) -> PathBuf {
  let tflag = if thorough { "1" } else { "0" };
  let mut note = String::new();
  let choices = match &f.choices {
    Some(c) => {
      let cf = dir.join("shrink.in");
      let of = dir.join("shrink.out");
      std::fs::write(&cf, c.iter().map(|c| format!("{c}\n")).collect::<String>()).unwrap();
      let child = spawn(
        &[
          "shrink".into(),
          check.id.into(),
          f.seed.to_string(),
          tflag.into(),
          f.class.clone(),
          cf.to_string_lossy().into(),
          of.to_string_lossy().into(),
          "40".into(),
        ],
        &[("SIM_SCRATCH", dir.join("shrink").to_string_lossy().to_string())],
      );
      let (_, hang) = wait_limit(child, Duration::from_secs(100));
      if hang {
        note = "shrinking stalled; unshrunk choices kept".into();
      }
      let s = read_choices(&of.to_string_lossy());
      if s.is_empty() && !of.exists() { c.clone() } else { s }
    }
    None => {
      let cl = dir.join("crash.choices");
      let mut c = Command::new(exe());
      c.args(["exec", check.id, &f.seed.to_string(), tflag, "-"])
        .env("SIM_CHOICE_LOG", &cl)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
      wait_limit(c.spawn().expect("spawn"), Duration::from_secs(hang_secs()));
      shrink_crash(check, f.seed, read_choices(&cl.to_string_lossy()), &f.class, thorough, dir)
    }
  };
  // re-execute the minimised run in a fresh process
  let (class, detail, scenario) = match exec_child(check, f.seed, thorough, Some(&choices), dir) {
    Ok(j) => (
      j.get("class").map(|x| x.as_str().to_string()).unwrap_or_default(),
      j.get("detail").map(|x| x.as_str().to_string()).unwrap_or_default(),
      j.get("scenario").map(|x| x.arr().to_vec()).unwrap_or_default(),
    ),
    Err(e) => (e.clone(), f.detail.clone(), crash_trace(dir)),
  };
  if class != f.class {
    note = format!("{note} (minimised run reports class {class:?}; original {:?}: {})", f.class, f.detail);
  }
  println!("violation class: {}\n{}", class, clip(&detail, 4000));
  for s in scenario.iter().take(60) {
    println!("  | {}", clip(s.as_str(), 1000));
  }
  let rdir = PathBuf::from(std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into()));
  let _ = std::fs::create_dir_all(&rdir);
  let p = rdir.join(format!("{}-{}-{}.json", check.id, master, f.run));
  let j = J::obj(vec![
    ("property", J::s(check.id)),
    ("class", J::s(if class.is_empty() { f.class.clone() } else { class })),
    ("detail", J::s(detail)),
    ("note", J::s(note)),
    ("verif_seed", J::U(master)),
    ("run", J::U(f.run)),
    // as text: 64-bit values survive any JSON reader
    ("run_seed", J::s(f.seed.to_string())),
    ("thorough", J::Bool(thorough)),
    ("choices", J::Arr(choices.iter().map(|c| J::s(c.to_string())).collect())),
    ("minimised_scenario_and_fault_trace", J::Arr(scenario)),
  ]);
  std::fs::write(&p, j.dump()).expect("write replay");
  p
}

/// simdork replay FILE
pub fn replay(path: &str) -> i32 {
  let j = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| json::parse(&t)) {
    Ok(j) => j,
    Err(e) => {
      eprintln!("cannot read replay file: {e}");
      return 2;
    }
  };
  let id = j.get("property").map(|x| x.as_str()).unwrap_or("");
  let Some(check) = find_check(id) else {
    eprintln!("unknown property {id}");
    return 2;
  };
  let seed: u64 = j.get("run_seed").unwrap().as_str().parse().unwrap_or(0);
  let thorough = j.get("thorough") == Some(&J::Bool(true));
  let choices: Vec<u64> = j.get("choices").unwrap().arr().iter().filter_map(|c| c.as_str().parse().ok()).collect();
  let dir = scratch_root().join(format!("replay.{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let r = exec_child(&check, seed, thorough, Some(&choices), &dir);
  let trace = crash_trace(&dir);
  let _ = std::fs::remove_dir_all(&dir);
  match r {
    Ok(o) => {
      for s in o.get("scenario").unwrap().arr() {
        println!("  | {}", s.as_str());
      }
      let class = o.get("class").unwrap().as_str();
      if class.is_empty() {
        println!("replay: property {id} holds on this run");
        0
      } else {
        println!("violation class: {class}\n{}", o.get("detail").unwrap().as_str());
        println!("VIOLATION property={id} replay={path}");
        1
      }
    }
    Err(e) => {
      for s in &trace {
        println!("  | {}", s.as_str());
      }
      println!("violation class: {e}");
      println!("VIOLATION property={id} replay={path}");
      1
    }
  }
}
