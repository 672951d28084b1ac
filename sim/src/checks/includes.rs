//! Include transclusion against the flattening reference, without and with storage faults.
use super::Check;
use crate::conv::*;
use crate::docgen::*;
use crate::rt::*;
use crate::tree::*;
use crate::world::*;
use asciidork_core::SafeMode;
use std::cell::RefCell;
use std::rc::Rc;

const REAL: &str = "asciidork-parser, asciidork-eval, both HTML backends (real code, debug assertions on)";
const STUB: &str = "storage/network behind IncludeResolver (simulated), HashMap seeds (getrandom interposed)";

pub fn checks() -> Vec<Check> {
  vec![
    Check {
      id: "I01",
      run: transclusion,
      quick: 180000,
      thorough: 4000000,
      level: "exploration",
      rule: "a run counts when the document really was read from two or more simulated files; distinct by hash of the full scenario (all files, directives, options, reads)",
      state_rule: "distinct (include depth, number of reads, option kinds used, encodings used) tuples",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
    Check {
      id: "I02",
      run: failures,
      quick: 180000,
      thorough: 4000000,
      level: "fault_enumeration",
      rule: "a run counts when at least one injected storage fault was reached; distinct by hash of the full scenario (files, fault plan, reads)",
      state_rule: "distinct sequences of (fault kind, nesting depth) reached",
      real: REAL,
      stub: STUB,
      assumptions: &[],
    },
  ]
}

const MAIN: &str = "/docs/main.adoc";

pub fn gen_tree(ctx: &mut Ctx, opts: TreeOpts, feat: u32) -> Vec<Node> {
  let blocks = ctx.ch.range(1, 7);
  let header = ctx.ch.chance(50);
  let mut lines = Vec::new();
  {
    let mut g = DocGen::new(&mut ctx.ch, feat);
    if header {
      for mut l in g.header() {
        l.glue = true;
        lines.push(Node::Line(l));
      }
    }
    lines.extend(g.body(blocks).into_iter().map(Node::Line));
  }
  let count = ctx.ch.range(1, 3);
  let mut t = TreeGen { ch: &mut ctx.ch, opts, n: 0 };
  t.split(lines, count, 0, "/docs", 0)
}


pub fn swarm(ctx: &mut Ctx) -> u32 {
  let mut feat = F_ALL;
  for b in 0..13 {
    if ctx.ch.chance(25) {
      feat &= !(1 << b);
    }
  }
  feat
}

const OPTS: TreeOpts = TreeOpts {
  max_depth: 3,
  pct_more: 40,
  select: true,
  offsets: true,
  encodings: true,
  dirs: true,
  indent: true,
  repeat: false,
};

fn transclusion(ctx: &mut Ctx) -> Verdict {
  let feat = swarm(ctx);
  let nodes = gen_tree(ctx, OPTS, feat);
  compare(ctx, &nodes)
}

/// bytes no decoder accepts, for a file of this encoding
fn torn(ch: &mut Choices, enc: Enc) -> Vec<u8> {
  let mut b = encode("torn file\n\n== torn heading\n", enc);
  match enc {
    Enc::Utf8 | Enc::Utf8Bom => {
      let at = if enc == Enc::Utf8Bom { 3 + ch.idx(b.len() - 3) } else { 1 + ch.idx(b.len() - 1) };
      let bad: &[u8] = *ch.pick(&[&[0xC3u8][..], &[0xFF], &[0x80], &[0xE2, 0x82], &[0xED, 0xA0, 0x80]]);
      b.truncate(at);
      b.extend_from_slice(bad);
      b.extend_from_slice(b"\nafter\n");
    }
    _ => match ch.below(2) {
      // half a code unit
      0 => {
        let cut = 1 + 2 * ch.idx(8);
        b.truncate(b.len() - cut);
      }
      // lone surrogate
      _ => b.extend_from_slice(if enc == Enc::Utf16BeBom { &[0xD8, 0x00, 0, 65] } else { &[0x00, 0xD8, 65, 0] }),
    },
  }
  b
}

fn failures(ctx: &mut Ctx) -> Verdict {
  let feat = swarm(ctx);
  // a lost delimiter or empty line turns headings into text, to which leveloffset does not
  // apply: documents with offsets lose whole blocks only, all others anything
  let offsets = ctx.ch.chance(40);
  let mut nodes = gen_tree(ctx, TreeOpts { offsets, ..OPTS }, feat);
  let ch = &mut ctx.ch;
  for_each_inc(&mut nodes, &mut |i| {
    if (i.whole || !offsets) && ch.chance(if offsets { 60 } else { 40 }) {
      i.fault = match ch.weighted(&[5, 4, 3, 1, 1, 1, 1, 1]) {
        0 => Fault::NotFound,
        1 => Fault::Io(ch.pick(&["Input/output error (os error 5)", "Permission denied", "Too many open files"]).to_string()),
        2 => Fault::Bytes(torn(ch, i.enc)),
        3 => Fault::Restricted,
        4 => Fault::CaseMismatch,
        5 => Fault::UriRead,
        6 => Fault::UriUnsupported,
        _ => Fault::BaseDir,
      };
    }
    // being optional excuses a missing file and nothing else
    if i.fault != Fault::None && ch.chance(30) {
      i.optional = true;
      i.attrs.push(if ch.chance(50) { "opts=optional".into() } else { "options=\"optional\"".into() });
    }
  });
  compare(ctx, &nodes)
}

pub fn compare(ctx: &mut Ctx, nodes: &[Node]) -> Verdict {
  let mut w = World { base_dir: Some("/docs".into()), max_calls: 400, ..World::default() };
  store(nodes, 0, &mut w.files);
  let mut flat = Flat::default();
  flatten(nodes, MAIN, 1, 0, &mut flat);
  w.plan = flat.plan.clone();
  w.resize_dance = ctx.ch.chance(20);
  let mut job = Job::new(primary_text(nodes), MAIN);
  job.embedded = ctx.ch.chance(70);
  job.backend = if ctx.ch.chance(30) { Backend::Html5s } else { Backend::DrHtml };
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server]);
  ctx.log(format!("main {MAIN}:\n{}", job.src));
  for l in show_world(&w) {
    ctx.log(l);
  }
  ctx.log(format!("fault plan: {:?}", flat.plan));
  let flat_src: String = flat.lines.iter().map(|(l, _)| format!("{l}\n")).collect();
  let mut fj = job.clone();
  fj.src = flat_src.clone();
  let fw = World { base_dir: Some("/docs".into()), plan: flat.flat_plan.clone(), ..World::default() };
  let w = Rc::new(RefCell::new(w));
  let a = convert(&job, Some(w.clone()));
  let b = convert(&fj, Some(Rc::new(RefCell::new(fw))));
  ctx.add("conversions", 2);
  let reads: Vec<String> = w.borrow().calls.iter().map(|c| norm(&c.target)).collect();
  ctx.log(format!("reads: {reads:?}"));
  ctx.log(format!("outcome: {}", a.kind()));
  let mut faults = Vec::new();
  for f in flat.plan.iter().take(reads.len()) {
    if *f != Fault::None {
      ctx.count(&format!("fault:{}", f.name()));
      faults.push(f.name());
    }
  }
  ctx.add("reads", reads.len() as u64);
  let injecting = flat.plan.iter().any(|f| *f != Fault::None);
  ctx.nontrivial = if injecting { !faults.is_empty() } else { !reads.is_empty() };
  let mut shape = String::new();
  describe(nodes, 0, &mut shape);
  ctx.state(fnv_str(&shape));
  if let Out::Panic(m) = &b {
    return Err(viol("flat-panic", format!("{m}\nflat:\n{flat_src}")));
  }
  if let Out::Panic(m) = &a {
    return Err(viol("panic", format!("conversion panicked: {m}")));
  }
  if reads != flat.reads {
    return Err(viol("reads", format!("storage reads {reads:?}\nexpected {:?}", flat.reads)));
  }
  // verbatim content has no passthroughs: there the directive's message is shown as it is
  let open = "+++Unresolved directive in ";
  let shown = |h: &str| h.replace(open, &open[3..]).replace("]+++", "]");
  let marks = |o: &Out| o.html().map_or(0, |h| h.matches(open).count());
  if a.html().map(shown) != b.html().map(shown) || marks(&a) > marks(&b) {
    return Err(viol(
      "html",
      format!("with includes: {}\nflattened:     {}\nflat source:\n{flat_src}", a.show(), b.show()),
    ));
  }
  // every problem is reported once, at the line of the file it is in
  let mut want: Vec<(String, u32, u32, String)> =
    flat.warns.iter().map(|(o, m)| (o.file.clone(), o.line, o.alt, m.clone())).collect();
  for d in b.diags() {
    match flat.lines.get((d.line as usize).wrapping_sub(1)) {
      Some((_, o)) => want.push((o.file.clone(), o.line, o.alt, d.msg.clone())),
      None => want.push((d.file.clone(), d.line, d.line, d.msg.clone())),
    }
  }
  let mut got: Vec<(String, u32, String)> =
    a.diags().iter().map(|d| (norm(&d.file), d.line, d.msg.clone())).collect();
  got.sort();
  ctx.add("warnings", got.len() as u64);
  let tolerant = ctx.known("tag-line-numbers");
  if !matches(&want, &got, tolerant) {
    return Err(viol("warnings", format!("reported {got:?}\nexpected {want:?}\nflat source:\n{flat_src}")));
  }
  // strict mode refuses exactly the documents that have something to report
  if ctx.ch.chance(30) {
    let mut sj = job.clone();
    sj.strict = true;
    let n = w.borrow().calls.len();
    w.borrow_mut().calls.clear();
    let s = convert(&sj, Some(w.clone()));
    let _ = n;
    match (&s, got.is_empty()) {
      (Out::Ok(h, ws), true) => {
        if Some(h.as_str()) != a.html() || !ws.is_empty() {
          return Err(viol("strict-differs", format!("strict: {}\nlenient: {}", s.show(), a.show())));
        }
      }
      (Out::Err(ds), false) if !ds.is_empty() => {
        let first = &ds[0];
        if !a.diags().contains(first) {
          return Err(viol("strict-unknown", format!("strict reports {}\nlenient {}", first.short(), a.show())));
        }
      }
      _ => return Err(viol("strict", format!("strict: {}\nlenient: {}", s.show(), a.show()))),
    }
  }
  Ok(())
}

fn describe(nodes: &[Node], depth: usize, out: &mut String) {
  for n in nodes {
    if let Node::Inc(i) = n {
      out.push_str(&format!(
        "{depth}{}{}{}{:?}{}{};",
        i.fault.name(),
        i.leveloffset,
        i.shift.min(1),
        i.enc,
        i.attrs.iter().map(|a| a.chars().take(3).collect::<String>()).collect::<String>(),
        i.optional
      ));
      describe(&i.nodes, depth + 1, out);
    }
  }
}

type Want = (String, u32, u32, String);

/// a perfect matching between reported and expected diagnostics
fn matches(want: &[Want], got: &[(String, u32, String)], tolerant: bool) -> bool {
  if want.len() != got.len() {
    return false;
  }
  let ok = |w: &Want, g: &(String, u32, String)| {
    w.0 == g.0 && w.3 == g.2 && (w.1 == g.1 || (tolerant && w.2 == g.1))
  };
  fn augment(
    g: usize,
    n: usize,
    edge: &dyn Fn(usize, usize) -> bool,
    seen: &mut Vec<bool>,
    owner: &mut Vec<Option<usize>>,
  ) -> bool {
    for w in 0..n {
      if !seen[w] && edge(g, w) {
        seen[w] = true;
        if owner[w].is_none_or(|o| augment(o, n, edge, seen, owner)) {
          owner[w] = Some(g);
          return true;
        }
      }
    }
    false
  }
  let mut owner = vec![None; want.len()];
  (0..got.len()).all(|g| {
    let mut seen = vec![false; want.len()];
    augment(g, want.len(), &|g, w| ok(&want[w], &got[g]), &mut seen, &mut owner)
  })
}
