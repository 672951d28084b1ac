//! Deterministic runtime: PRNG, recorded choices, hash-seed seam, run context.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf2_9ce4_8422_2325;
  for b in bytes {
    h ^= *b as u64;
    h = h.wrapping_mul(0x0000_0100_0000_01B3);
  }
  h
}

pub fn fnv_str(s: &str) -> u64 {
  fnv(s.as_bytes())
}

// ---- the randomness seam: std's HashMap seeds come from getrandom(2) ----
static HASH_SEED: AtomicU64 = AtomicU64::new(1);

pub fn set_hash_seed(seed: u64) {
  HASH_SEED.store(seed, Ordering::SeqCst);
}

/// Interposes libc's getrandom for the whole process: std draws the SipHash keys
/// of every `RandomState` from here, so the simulator decides map iteration order.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
  for i in 0..len {
    let z = HASH_SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::SeqCst);
    unsafe { *buf.add(i) = (mix(z) >> 24) as u8 };
  }
  len as isize
}

// ---- known findings: `known: property=<id> key=<key> <what fails>` ----
pub fn known_lines() -> Vec<(String, String, String)> {
  let p = std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
  std::fs::read_to_string(p)
    .unwrap_or_default()
    .lines()
    .filter_map(|l| {
      let l = l.strip_prefix("known: property=")?;
      let (id, l) = l.split_once(" key=")?;
      let (key, what) = l.split_once(' ')?;
      Some((id.to_string(), key.to_string(), what.to_string()))
    })
    .collect()
}

static KNOWN: std::sync::LazyLock<Vec<String>> =
  std::sync::LazyLock::new(|| known_lines().into_iter().map(|(_, k, _)| k).collect());

// ---- choices ----
pub struct Choices {
  state: u64,
  replay: Option<Vec<u64>>,
  pos: usize,
  pub rec: Vec<u64>,
  log: Option<std::fs::File>,
}

impl Choices {
  pub fn seeded(seed: u64) -> Self {
    let log = std::env::var_os("SIM_CHOICE_LOG").and_then(|p| std::fs::File::create(p).ok());
    Choices { state: seed, replay: None, pos: 0, rec: Vec::new(), log }
  }

  pub fn replaying(v: Vec<u64>) -> Self {
    Choices { state: 0, replay: Some(v), pos: 0, rec: Vec::new(), log: None }
  }

  fn next(&mut self) -> u64 {
    self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix(self.state)
  }

  /// A number in 0..n. 0 is by convention the simplest alternative.
  pub fn below(&mut self, n: u64) -> u64 {
    let n = n.max(1);
    let v = match &self.replay {
      Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
      None => self.next() % n,
    };
    self.pos += 1;
    self.rec.push(v);
    if let Some(f) = &mut self.log {
      let _ = f.write_all(format!("{v}\n").as_bytes());
    }
    v
  }

  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }

  /// inclusive range
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }

  /// true with probability pct/100; shrinks to false
  pub fn chance(&mut self, pct: u64) -> bool {
    self.below(100) >= 100 - pct.min(100)
  }

  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    let i = self.idx(xs.len());
    &xs[i]
  }

  /// weighted alternative; put the simplest first
  pub fn weighted(&mut self, ws: &[u64]) -> usize {
    let total: u64 = ws.iter().sum();
    let mut v = self.below(total);
    for (i, w) in ws.iter().enumerate() {
      if v < *w {
        return i;
      }
      v -= *w;
    }
    ws.len() - 1
  }
}

#[derive(Debug, Clone)]
pub struct Violation {
  /// stable label; shrinking keeps it
  pub class: String,
  pub detail: String,
}

pub fn viol(class: impl Into<String>, detail: impl Into<String>) -> Violation {
  Violation { class: class.into(), detail: detail.into() }
}

pub type Verdict = Result<(), Violation>;

pub struct Ctx {
  pub ch: Choices,
  /// human-readable scenario: files, faults, schedule, outcome
  pub trace: Vec<String>,
  /// measured counters: faults fired, probes hit, conversions made ...
  pub stats: BTreeMap<String, u64>,
  /// fingerprints of distinct states / interleavings reached
  pub states: Vec<u64>,
  /// simulated seconds covered
  pub sim_secs: u64,
  pub nontrivial: bool,
  pub thorough: bool,
}

static TRACE_FILE: std::sync::LazyLock<Option<std::ffi::OsString>> = std::sync::LazyLock::new(|| std::env::var_os("SIM_TRACE_FILE"));

impl Ctx {
  pub fn new(ch: Choices, thorough: bool) -> Self {
    Ctx {
      ch,
      trace: Vec::new(),
      stats: BTreeMap::new(),
      states: Vec::new(),
      sim_secs: 0,
      nontrivial: false,
      thorough,
    }
  }
  pub fn count(&mut self, k: &str) {
    self.add(k, 1);
  }
  pub fn add(&mut self, k: &str, n: u64) {
    if n > 0 {
      *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
  }
  pub fn log(&mut self, s: impl Into<String>) {
    let s = s.into();
    // survives the death of this process
    if let Some(path) = &*TRACE_FILE {
      use std::io::Write;
      if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
        let _ = f.write_all(format!("{}\n", s.replace('\n', "\\n")).as_bytes());
      }
    }
    self.trace.push(s);
  }
  /// is this finding listed in the committed known-findings file?
  pub fn known(&self, key: &str) -> bool {
    KNOWN.iter().any(|x| x == key)
  }
  pub fn state(&mut self, h: u64) {
    self.states.push(h);
  }
}
