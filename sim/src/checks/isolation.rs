//! Conversions neither depend on hash seeds nor on each other: earlier ones in the same thread,
//! nested ones (an embedder converting from within its resolver), or concurrent ones, interleaved
//! by a seeded scheduler at every request to storage.
use super::Check;
use super::damage::{clip, compose, damaged, setup, survey};
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "R01",
    run: isolation,
    quick: 60000,
    thorough: 1500000,
    level: "fault_enumeration",
    rule: "a run counts when at least two conversions requested something from storage or more than one was under way; distinct by hash of all bytes delivered, options and the schedule",
    state_rule: "distinct (arrangement, order in which the conversions took turns, outcome kinds) tuples",
    real: "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions and overflow checks on), on real threads that run one at a time",
    stub: "storage behind IncludeResolver (simulated), thread scheduling (seeded, at storage requests), HashMap seeds (getrandom interposed)",
    assumptions: &["preemption is only simulated at storage requests, start and end of a conversion"],
  }]
}

/// what a thread needs to perform a conversion
#[derive(Clone)]
struct Plan {
  job: Job,
  files: Vec<(String, Vec<u8>)>,
  anything: Option<Vec<u8>>,
  faults: Vec<Fault>,
}

impl Plan {
  /// the same plan in a directory, and with names of files, of its own
  fn named(&self, token: &str) -> Plan {
    let mut p = self.clone();
    p.job.src = p.job.src.replace(TOKEN, token);
    p.job.file = asciidork_parser::parser::SourceFile::Path(asciidork_core::Path::new(format!("/{token}/main.adoc").as_str()));
    for (n, b) in &mut p.files {
      *n = n.replace(TOKEN, token);
      *b = String::from_utf8_lossy(b).replace(TOKEN, token).into_bytes();
    }
    p
  }

  fn run(&self, token: &str, hook: Option<Rc<dyn Fn(&str)>>) -> Seen {
    let p = self.named(token);
    let w = World {
      base_dir: Some(format!("/{token}")),
      max_calls: 60,
      storage_ends: true,
      files: p.files.into_iter().collect(),
      anything: p.anything,
      plan: p.faults,
      hook,
      ..World::default()
    };
    let w = Rc::new(RefCell::new(w));
    let out = convert(&p.job, Some(w.clone()));
    let calls = w.borrow().calls.iter().map(|c| format!("{} {} {:?} {}", c.target, c.uri, c.safe, c.reply).replace(token, TOKEN)).collect();
    let plain = |s: &str| s.replace(token, TOKEN);
    let diags = |d: Vec<Diag>| d.into_iter().map(|d| Diag { file: plain(&d.file), text: plain(&d.text), msg: plain(&d.msg), ..d }).collect();
    let out = match out {
      Out::Ok(h, d) => Out::Ok(plain(&h), diags(d)),
      Out::Err(d) => Out::Err(diags(d)),
      Out::Panic(m) => Out::Panic(plain(&m)),
    };
    (out, calls)
  }
}

type Seen = (Out, Vec<String>);
const TOKEN: &str = "zk00000000";

struct Turns {
  running: usize,
  alive: Vec<bool>,
  taken: Vec<usize>,
}

/// passes the baton between threads as the seed has it
struct Sched {
  turns: Mutex<Turns>,
  changed: Condvar,
  plan: Vec<u8>,
}

impl Sched {
  fn next(&self, t: &mut Turns) {
    let alive: Vec<_> = (0..t.alive.len()).filter(|i| t.alive[*i]).collect();
    if !alive.is_empty() {
      t.running = alive[self.plan[t.taken.len() % self.plan.len()] as usize % alive.len()];
      let next = t.running;
      t.taken.push(next);
    }
    self.changed.notify_all();
  }
  fn wait(&self, me: usize) {
    let mut t = self.turns.lock().unwrap();
    while t.running != me {
      t = self.changed.wait(t).unwrap();
    }
  }
  fn pass(&self, me: usize) {
    self.next(&mut self.turns.lock().unwrap());
    self.wait(me);
  }
  fn end(&self, me: usize) {
    let mut t = self.turns.lock().unwrap();
    t.alive[me] = false;
    self.next(&mut t);
  }
}

fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  std::thread::Builder::new().stack_size(64 << 20).spawn(f).expect("spawn").join().expect("join")
}

fn isolation(ctx: &mut Ctx) -> Verdict {
  let mut kinds = String::new();
  let n = 2 + ctx.ch.below(2) as usize;
  let mut plans: Vec<Plan> = vec![];
  for j in 0..n {
    let mut files = vec![];
    let split = 1 + ctx.ch.below(3);
    let t = compose(ctx);
    let mut main = damaged(ctx, t, &mut kinds);
    for i in 0..split {
      let t = compose(ctx);
      let t = damaged(ctx, t, &mut kinds);
      files.push((format!("/{TOKEN}/{TOKEN}f{i}.adoc"), t.into_bytes()));
      let at = ctx.ch.idx(main.len() + 1);
      let at = super::damage::cut(&main, at);
      let at = main[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
      main.insert_str(at, &format!("include::{TOKEN}f{i}.adoc[{}]\n", ctx.ch.pick(&["", "", "leveloffset=+1", "lines=2..4", "tag=x", "tags=**", "indent=1", "opts=optional"])));
    }
    let mut w = World::default();
    let mut job = setup(ctx, &mut w, &main);
    if ctx.ch.chance(80) && job.safe == asciidork_core::SafeMode::Secure {
      job.safe = asciidork_core::SafeMode::Safe;
    }
    let mut faults = vec![];
    if ctx.ch.chance(30) {
      for _ in 0..4 {
        faults.push(match ctx.ch.below(6) {
          0 => Fault::NotFound,
          1 => Fault::Io("disk error".into()),
          2 => Fault::CaseMismatch,
          _ => Fault::None,
        });
        ctx.count(&format!("fault:{}", faults.last().unwrap().name()));
      }
    }
    // the very same document once more, among others
    if j > 0 && ctx.ch.chance(20) {
      let twin = ctx.ch.idx(j);
      job = plans[twin].job.clone();
      files = plans[twin].files.clone();
      if ctx.ch.chance(50) && let Some(f) = files.last_mut() {
        f.1 = compose(ctx).into_bytes();
      }
      ctx.count("twins");
    }
    plans.push(Plan { job, files, anything: w.anything, faults });
  }
  let token = format!("zk{:08x}", ctx.ch.below(1 << 32));
  for (j, p) in plans.iter().enumerate() {
    let job = &p.job;
    ctx.log(format!("#{j} {:?} embedded={} strict={} {:?} {:?} attrs {:?} faults {:?}", job.backend, job.embedded, job.strict, job.safe, job.doctype, job.attrs.iter().map(|a| &a.0).collect::<Vec<_>>(), p.faults));
    ctx.log(format!("#{j} main {:?}", job.src));
    for (n, b) in &p.files {
      ctx.log(format!("#{j} {n} {:?}", String::from_utf8_lossy(b)));
    }
  }
  // alone: a thread, file names and hash seeds of its own
  let mut want = vec![];
  for p in &plans {
    let seed = ctx.ch.below(u32::MAX as u64);
    let own = format!("zk{:08x}", ctx.ch.below(1 << 32));
    set_hash_seed(seed);
    let p = p.clone();
    want.push(on_thread(move || p.run(&own, None)));
  }
  let arrangement = ctx.ch.below(4) as usize;
  set_hash_seed(ctx.ch.below(u32::MAX as u64));
  let mut got: Vec<(usize, Seen)> = vec![];
  let mut order = vec![];
  match arrangement {
    0 => {
      // one after the other, in the same thread
      order = (0..n + 2).map(|_| ctx.ch.idx(n)).collect();
      let (plans, order, token) = (plans.clone(), order.clone(), token.clone());
      got = on_thread(move || order.iter().map(|i| (*i, plans[*i].run(&token, None))).collect());
    }
    1 => {
      // others from within the storage of the first
      let at = ctx.ch.below(3);
      order = (0..n).map(|_| ctx.ch.idx(n)).collect();
      let (plans, order, token) = (plans.clone(), order.clone(), token.clone());
      got = on_thread(move || {
        let inner = Rc::new(RefCell::new(vec![]));
        let calls = Rc::new(Cell::new(0));
        let hook: Rc<dyn Fn(&str)> = {
          let (plans, order, token, inner) = (plans.clone(), order.clone(), token.clone(), inner.clone());
          Rc::new(move |_: &str| {
            calls.set(calls.get() + 1);
            if calls.get() == at + 1 {
              for i in &order[1..] {
                let seen = plans[*i].run(&token, None);
                inner.borrow_mut().push((*i, seen));
              }
            }
          })
        };
        let first = plans[order[0]].run(&token, Some(hook));
        let mut all = vec![(order[0], first)];
        all.append(&mut inner.borrow_mut());
        all
      });
    }
    _ => {
      let plan: Vec<u8> = (0..24).map(|_| ctx.ch.below(12) as u8).collect();
      let sched = Arc::new(Sched { turns: Mutex::new(Turns { running: usize::MAX, alive: vec![true; n], taken: vec![] }), changed: Condvar::new(), plan });
      let threads: Vec<_> = (0..n)
        .map(|i| {
          let (p, sched, token) = (plans[i].clone(), sched.clone(), token.clone());
          std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
              sched.wait(i);
              let hook: Rc<dyn Fn(&str)> = {
                let sched = sched.clone();
                Rc::new(move |_: &str| sched.pass(i))
              };
              let seen = p.run(&token, Some(hook));
              sched.end(i);
              seen
            })
            .expect("spawn")
        })
        .collect();
      sched.next(&mut sched.turns.lock().unwrap());
      for (i, t) in threads.into_iter().enumerate() {
        got.push((i, t.join().expect("join")));
      }
      order.append(&mut sched.turns.lock().unwrap().taken);
    }
  }
  let how = ["sequential", "nested", "concurrent", "concurrent"][arrangement];
  ctx.count(how);
  ctx.add("conversions", (n + got.len()) as u64);
  ctx.log(format!("{how} {order:?}"));
  for (i, seen) in &got {
    ctx.log(format!("#{i} {} {:x} {} requests", seen.0.kind(), fnv_str(&seen.0.show()), seen.1.len()));
  }
  ctx.nontrivial = want.iter().filter(|w| !w.1.is_empty()).count() > 1;
  ctx.state(fnv_str(&format!("{arrangement}{order:?}{:?}", want.iter().map(|w| w.0.kind()).collect::<String>())));
  for (i, seen) in &got {
    let want = &want[*i];
    if seen == want {
      continue;
    }
    let class = match (&want.0, &seen.0) {
      _ if want.1 != seen.1 => "requests",
      (Out::Ok(a, _), Out::Ok(b, _)) if a != b => "output",
      (Out::Ok(..), Out::Ok(..)) | (Out::Err(_), Out::Err(_)) => "diagnostics",
      _ => "outcome",
    };
    if survey(&format!("isolation {how} {class}"), ctx) {
      return Ok(());
    }
    return Err(viol(class, format!("conversion {i} ({how} {order:?})\n  {}\n  {:?}\nbut alone\n  {}\n  {:?}", clip(&seen.0.show()), seen.1, clip(&want.0.show()), want.1)));
  }
  Ok(())
}
