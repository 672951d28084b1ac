//! The real CLI binary as a simulated process: a scratch directory is its file system, the
//! preloaded seam (shim/shim.c) is its kernel. Everything it could learn from the outside is
//! decided by the plan; everything it did comes back as a log.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static N: AtomicU64 = AtomicU64::new(0);

/// A fresh scratch directory, removed on drop. In texts it is written `/S`.
pub struct Scratch(pub String);

impl Scratch {
  pub fn new() -> Scratch {
    let n = N.fetch_add(1, Ordering::SeqCst);
    // all names have the same length, so that nothing depends on which run this is
    let p = format!("/tmp/simdork.{:010}.{:010}", std::process::id(), n);
    std::fs::create_dir(&p).expect("scratch directory");
    Scratch(p)
  }
  pub fn path(&self, rel: &str) -> String {
    format!("{}/{}", self.0, rel)
  }
  pub fn file(&self, rel: &str, bytes: &[u8]) {
    let p = PathBuf::from(self.path(rel));
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, bytes).unwrap();
  }
  pub fn dir(&self, rel: &str) {
    std::fs::create_dir_all(self.path(rel)).unwrap();
  }
  pub fn link(&self, rel: &str, to: &str) {
    let p = PathBuf::from(self.path(rel));
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    let to = to.replace("/S/", &format!("{}/", self.0));
    std::os::unix::fs::symlink(to, p).unwrap();
  }
  pub fn hide(&self, s: &str) -> String {
    s.replace(&self.0, "/S")
  }
  pub fn show(&self, s: &str) -> String {
    if s == "/S" { self.0.clone() } else { s.replace("/S/", &format!("{}/", self.0)) }
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

#[derive(Clone, Debug, Default)]
pub struct Proc {
  pub args: Vec<String>,
  pub stdin: Vec<u8>,
  pub cwd: String,
  /// plan lines (see shim.c); `/S/` stands for the scratch directory
  pub plan: Vec<String>,
  pub env: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
pub struct Ran {
  pub code: Option<i32>,
  pub signal: Option<i32>,
  pub hung: bool,
  pub stdout: Vec<u8>,
  pub stderr: String,
  pub log: Vec<String>,
}

impl Ran {
  pub fn out(&self) -> String {
    String::from_utf8_lossy(&self.stdout).into_owned()
  }
  pub fn status(&self) -> String {
    match (self.hung, self.code, self.signal) {
      (true, ..) => "hung".into(),
      (_, Some(c), _) => format!("exit {c}"),
      (_, _, s) => format!("signal {s:?}"),
    }
  }
  pub fn panicked(&self) -> bool {
    self.code == Some(101) || self.signal.is_some() || self.stderr.contains("panicked at")
  }
  /// calls of one kind, e.g. `open`
  pub fn calls<'a>(&'a self, op: &'a str) -> impl Iterator<Item = &'a str> {
    self.log.iter().filter_map(move |l| l.strip_prefix(op)?.strip_prefix(' '))
  }
  pub fn fired(&self) -> Vec<String> {
    self.log.iter().filter_map(|l| l.strip_prefix('!')).map(String::from).collect()
  }
}

fn bin(name: &str) -> String {
  let t = std::env::var("SIM_TARGET").unwrap_or_else(|_| "/verif/target".into());
  format!("{t}/{name}")
}

pub fn run(s: &Scratch, p: &Proc) -> Ran {
  let plan_path = format!("{}.plan", s.0);
  let log_path = format!("{}.log", s.0);
  let plan: String = p.plan.iter().map(|l| s.show(l) + "\n").collect();
  std::fs::write(&plan_path, plan).unwrap();
  let mut c = Command::new(bin("cli/debug/asciidork"));
  c.args(p.args.iter().map(|a| s.show(a)))
    .current_dir(if p.cwd.is_empty() { s.0.clone() } else { s.show(&p.cwd) })
    .env_clear()
    .env("LD_PRELOAD", bin("shim.so"))
    .env("SIM_PLAN", &plan_path)
    .env("SIM_LOG", &log_path)
    .env("PATH", "/nonexistent")
    .env("NO_COLOR", "1")
    .envs(&p.env)
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped());
  let mut child = c.spawn().expect("spawn the CLI");
  let mut stdin = child.stdin.take().unwrap();
  let input = p.stdin.clone();
  let feed = std::thread::spawn(move || {
    let _ = stdin.write_all(&input);
  });
  let mut o = child.stdout.take().unwrap();
  let mut e = child.stderr.take().unwrap();
  let ot = std::thread::spawn(move || {
    let mut v = Vec::new();
    let _ = o.read_to_end(&mut v);
    v
  });
  let et = std::thread::spawn(move || {
    let mut v = Vec::new();
    let _ = e.read_to_end(&mut v);
    v
  });
  let start = Instant::now();
  let mut hung = false;
  let mut nap = 200;
  let st = loop {
    match child.try_wait().expect("wait") {
      Some(st) => break st,
      None if start.elapsed() > Duration::from_secs(30) => {
        hung = true;
        let _ = child.kill();
        break child.wait().expect("wait");
      }
      None => {
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(2000);
      }
    }
  };
  let _ = feed.join();
  let stdout = ot.join().unwrap();
  let stderr = s.hide(&String::from_utf8_lossy(&et.join().unwrap()));
  let log = std::fs::read_to_string(&log_path).unwrap_or_default();
  let _ = std::fs::remove_file(&plan_path);
  let _ = std::fs::remove_file(&log_path);
  Ran {
    code: st.code(),
    signal: st.signal(),
    hung,
    stdout: s.hide_bytes(stdout),
    stderr,
    log: log.lines().map(|l| s.hide(l)).collect(),
  }
}

impl Scratch {
  fn hide_bytes(&self, b: Vec<u8>) -> Vec<u8> {
    match String::from_utf8(b) {
      Ok(t) => self.hide(&t).into_bytes(),
      Err(e) => e.into_bytes(),
    }
  }
}

pub const NOW: u64 = 1_700_000_000;
pub const MTIME: u64 = 1_600_000_000;

pub fn base_plan(seed: u64) -> Vec<String> {
  vec![format!("clock {NOW} 0"), format!("mtime {MTIME}"), format!("rand {}", seed % 1_000_000)]
}
