//! Includes and images over HTTP: the real CLI and its HTTP client against a simulated network
//! that fails, lies about lengths, redirects, and closes connections at any byte.
use super::Check;
use super::cli_io::{Events, Lower, Sink, clip_text, explains};
use crate::cli::*;
use crate::conv::*;
use crate::rt::*;
use crate::world::*;
use asciidork_core::{JobAttr, SafeMode};
use std::cell::RefCell;
use std::rc::Rc;

pub fn checks() -> Vec<Check> {
  vec![Check {
    id: "C03",
    run: http,
    quick: 16000,
    thorough: 400000,
    level: "fault_enumeration",
    rule: "a run counts when at least one request was attempted, or one was refused by the safe mode; distinct by hash of the full scenario",
    state_rule: "distinct (safe mode, permission, sequence of connection outcomes reached, kinds of references) tuples",
    real: "the asciidork CLI binary: its resolver, the HTTP client minreq it links, std networking; parser, eval, backends",
    stub: "name resolution, TCP connections and servers, through a preloaded seam (nothing leaves the process)",
    assumptions: &[
      "https is not simulated",
      "a response without Content-Length or chunked encoding ends when the connection is closed in order",
    ],
  }]
}

#[derive(Clone, Debug)]
struct Hop {
  /// what happens to this connection attempt
  fault: &'static str,
  errno: u64,
  response: Vec<u8>,
  end_err: u64,
  chunk: u64,
  next: Option<String>,
}

#[derive(Clone, Debug)]
struct Call {
  hops: Vec<Hop>,
  outcome: Result<Vec<u8>, String>,
  /// known finding: a cut the client cannot notice
  blind: Option<Vec<u8>>,
}

fn http(ctx: &mut Ctx) -> Verdict {
  let s = Scratch::new();
  // ---- the document
  let mut text = String::new();
  let mut kinds = String::new();
  if ctx.ch.chance(30) {
    text.push_str(if ctx.ch.chance(50) { "= Title\n:allow-uri-read:\n\n" } else { "= Title\n\n" });
  }
  let n = ctx.ch.range(1, 4);
  for i in 0..n {
    let host = *ctx.ch.pick(&["h.example", "h.example:8080", "other.example"]);
    let file = format!("u{i}.adoc");
    text.push_str(&format!("para {i}\n\n"));
    let opts = *ctx.ch.pick(&["", "", "opts=optional", "leveloffset=1", "lines=1..2"]);
    match ctx.ch.weighted(&[8, 2, 2, 2, 1]) {
      0 => text.push_str(&format!("include::http://{host}/{file}[{opts}]\n\n")),
      1 => text.push_str(&format!("----\ninclude::http://{host}/{file}[{opts}]\n----\n\n")),
      2 => text.push_str(&format!("|===\na|\ninclude::http://{host}/{file}[{opts}]\n|===\n\n")),
      3 => text.push_str(&format!("image::http://{host}/i{i}.svg[alt {i},opts=inline]\n\n")),
      _ => text.push_str(&format!(":data-uri:\n\nimage::http://{host}/i{i}.png[alt {i}]\n\n:!data-uri:\n\n")),
    }
    kinds.push_str(&text[text.len().saturating_sub(12)..]);
  }
  text.push_str("the end\n");
  s.file("main.adoc", text.as_bytes());
  // ---- what each request meets
  let mut calls: Vec<Call> = Vec::new();
  let mut ncon = 0;
  for i in 0..10 {
    let c = call(ctx, i);
    ncon += c.hops.len();
    if ncon > 30 {
      break;
    }
    calls.push(c);
  }
  // ---- the invocation
  let mut job = Job::new(text.clone(), &s.path("main.adoc"));
  job.safe = *ctx.ch.pick(&[SafeMode::Unsafe, SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  job.strict = ctx.ch.chance(20);
  job.backend = if ctx.ch.chance(30) { Backend::Html5s } else { Backend::DrHtml };
  job.stamps = Some((NOW, Some(MTIME), None));
  let allowed = ctx.ch.chance(85);
  let mut p = Proc { plan: base_plan(ctx.ch.below(1000)), ..Proc::default() };
  p.args.extend(["-i".into(), "main.adoc".into(), "-e".into(), "-s".into(), job.safe.to_string_lower()]);
  if allowed {
    p.args.extend(["-a".into(), "allow-uri-read".into()]);
    job.attrs.push(("allow-uri-read".into(), JobAttr::readonly(true)));
  }
  if job.strict {
    p.args.push("--strict".into());
  }
  if job.backend == Backend::Html5s {
    p.args.extend(["-f".into(), "html5".into()]);
  }
  let (mut dns, mut con, mut send, mut file) = (0, 0, 0, 0);
  for c in &calls {
    for h in &c.hops {
      if h.fault != "none" && h.fault != "redirect" {
        ctx.log(format!("server {}: {} bytes {:?}", h.fault, h.response.len(), clip_text(&String::from_utf8_lossy(&h.response))));
      }
      match h.fault {
        "dns" => {
          p.plan.push(format!("dns {dns} err 5"));
          dns += 1;
          continue;
        }
        "connect" => {
          p.plan.push(format!("connect {con} err {}", h.errno));
          dns += 1;
          con += 1;
          continue;
        }
        "send" => p.plan.push(format!("send {send} err {}", h.errno)),
        _ => {}
      }
      dns += 1;
      con += 1;
      send += 1;
      let f = format!("../{}.resp{file}", s.0.trim_start_matches("/tmp/"));
      s.file(&f, &h.response);
      p.plan.push(format!("http {} {} {}", h.chunk, h.end_err, s.path(&f)));
      file += 1;
    }
  }
  if ctx.ch.chance(20) {
    p.plan.push(format!("recv {} err 4", ctx.ch.below(6)));
  }
  ctx.log(format!("args {:?}", p.args));
  ctx.log(format!("document {text:?}"));
  let r = run(&s, &p);
  for k in 0..file {
    let _ = std::fs::remove_file(s.path(&format!("../{}.resp{k}", s.0.trim_start_matches("/tmp/"))));
  }
  ctx.count("processes");
  ctx.sim_secs += 1;
  for l in r.log.iter().filter(|l| ["dns", "conn", "requ", "send", "recv", "!"].iter().any(|p| l.starts_with(p))) {
    ctx.log(l.clone());
  }
  if r.hung || r.panicked() {
    return Err(viol("http-panic", format!("{} {}", r.status(), r.stderr)));
  }
  // ---- the same document over a storage that has these outcomes
  let known = ctx.known("http-unnoticed-cut");
  let mut last = None;
  let blinds: Vec<usize> = (0..calls.len()).filter(|i| known && calls[*i].blind.is_some()).take(10).collect();
  for subset in 0..1u32 << blinds.len() {
    let blind = subset != 0;
    let plan = calls
      .iter()
      .enumerate()
      .map(|(i, c)| match (&c.outcome, &c.blind) {
        (_, Some(b)) if blinds.iter().position(|k| *k == i).is_some_and(|k| subset >> k & 1 == 1) => Fault::Bytes(b.clone()),
        (Ok(b), _) => Fault::Bytes(b.clone()),
        (Err(_), _) => Fault::UriRead,
      })
      .collect();
    let w = Rc::new(RefCell::new(World { plan, base_dir: Some(s.0.clone()), ..World::default() }));
    let want = convert(&job, Some(w.clone()));
    ctx.count("conversions");
    let asked: Vec<String> = w.borrow().calls.iter().map(|c| c.target.clone()).collect();
    if asked.len() > calls.len() {
      if blind {
        continue;
      }
      return Ok(());
    }
    // which requests must have been made, in which order
    let mut reqs: Vec<String> = Vec::new();
    let mut reached = String::new();
    for (t, c) in asked.iter().zip(&calls) {
      let mut url = t.clone();
      for h in &c.hops {
        reached.push_str(h.fault);
        if !blind {
          ctx.count(&format!("fault:http {}", h.fault));
        }
        if h.fault != "dns" && h.fault != "connect" && h.fault != "send" {
          reqs.push(path_of(&url));
        }
        if let Some(n) = &h.next {
          url = n.clone();
        }
      }
      reached.push_str(if c.outcome.is_ok() { "+" } else { "-" });
    }
    ctx.nontrivial = true;
    ctx.state(fnv_str(&format!("{:?}{allowed}{reached}{kinds}", job.safe)));
    let made: Vec<String> = r.log.iter().filter_map(|l| l.strip_prefix("request GET ")).map(|l| l.trim_end_matches(" HTTP/1.1").to_string()).collect();
    if !blind {
      ctx.log(format!("outcomes {:?}", calls.iter().take(asked.len()).map(|c| c.outcome.as_ref().map(|b| clip_text(&String::from_utf8_lossy(b)))).collect::<Vec<_>>()));
      ctx.log(format!("{} stdout {:?} stderr {:?}", r.status(), clip_text(&r.out()), clip_text(&r.stderr)));
      if asked.is_empty() && r.log.iter().any(|l| l.starts_with("dns") || l.starts_with("connect")) {
        return Err(viol("http-forbidden", format!("network access although it is not permitted: {made:?}")));
      }
    }
    let v = if made != reqs {
      Err(viol("http-requests", format!("requested {made:?}\nexpected  {reqs:?}")))
    } else {
      let sink = Sink { to_file: false, out_ok: true, json_errors: false, timings: false, formatter: None };
      explains(&want, &r, &Events::default(), &sink, &s)
    };
    match v {
      Ok(()) => {
        if blind {
          ctx.count("known:http-unnoticed-cut");
        }
        return Ok(());
      }
      Err(e) => last = last.or(Some(e)),
    }
  }
  Err(last.unwrap())
}

fn path_of(url: &str) -> String {
  let rest = url.split_once("://").map(|x| x.1).unwrap_or(url);
  rest.find('/').map(|i| rest[i..].to_string()).unwrap_or("/".into())
}

/// the outcome of one request and of the redirects it leads to
fn call(ctx: &mut Ctx, i: usize) -> Call {
  let mut hops = Vec::new();
  let redirects = ctx.ch.weighted(&[14, 3, 1, 1]);
  for k in 0..redirects {
    let to = format!("http://r{k}.example/moved{i}-{k}.adoc");
    let code = *ctx.ch.pick(&["301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect"]);
    let bad = ctx.ch.weighted(&[12, 1, 1, 1]);
    let loc = match bad {
      0 => format!("Location: {to}\r\n"),
      1 => String::new(),
      2 => "Location: file:///etc/hostname\r\n".into(),
      // in a circle: it has been there already
      _ if k > 0 => format!("Location: http://r0.example/moved{i}-0.adoc\r\n"),
      _ => String::new(),
    };
    let body = "moved away SECRETBODY";
    let resp = format!("HTTP/1.1 {code}\r\n{loc}Content-Length: {}\r\n\r\n{body}", body.len());
    hops.push(Hop {
      fault: if bad == 0 { "redirect" } else { "redirect nowhere" },
      errno: 0,
      response: resp.into_bytes(),
      end_err: 0,
      chunk: chunk(ctx),
      next: (bad == 0).then_some(to),
    });
    if bad != 0 {
      return Call { hops, outcome: Err("redirect".into()), blind: None };
    }
  }
  // ---- the body
  let mut body = format!("body {i} line one é\nbody {i} line two\n");
  if ctx.ch.chance(15) {
    body.push_str(&format!("\ninclude::n{i}.adoc[]\n"));
  }
  if ctx.ch.chance(15) {
    for k in 0..ctx.ch.range(10, 700) {
      body.push_str(&format!("body {i} line {k} is longer\n"));
    }
  }
  if ctx.ch.chance(5) {
    body.clear();
  }
  let body = body.into_bytes();
  let mut hop = Hop { fault: "none", errno: 0, response: vec![], end_err: 0, chunk: chunk(ctx), next: None };
  let fault = ctx.ch.weighted(&[10, 1, 1, 1, 5, 5, 2]);
  match fault {
    1 => hop.fault = "dns",
    2 => {
      hop.fault = "connect";
      hop.errno = *ctx.ch.pick(&[111, 110, 113, 101]);
    }
    3 => {
      hop.fault = "send";
      hop.errno = *ctx.ch.pick(&[104, 32]);
    }
    _ => {}
  }
  if (1..=3).contains(&fault) {
    hops.push(hop);
    return Call { hops, outcome: Err("unreachable".into()), blind: None };
  }
  let (code, good) = if fault == 4 {
    hop.fault = "status";
    (
      *ctx.ch.pick(&[
        "404 Not Found",
        "500 Internal Server Error",
        "403 Forbidden",
        "503 Service Unavailable",
        "410 Gone",
        "401 Unauthorized",
        "429 Too Many Requests",
        "304 Not Modified",
      ]),
      false,
    )
  } else {
    (*ctx.ch.pick(&["200 OK", "200 OK", "200", "203 Non-Authoritative Information"]), true)
  };
  let mut head = format!("HTTP/1.1 {code}\r\nContent-Type: text/plain\r\n");
  let framing = ctx.ch.weighted(&[6, 3, 2]);
  let mut payload = Vec::new();
  // end of each chunk's payload within the framed body: where a cut cannot be noticed
  let mut seams = Vec::new();
  match framing {
    0 => {
      let name = *ctx.ch.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]);
      head.push_str(&format!("{name}: {}\r\n", body.len()));
      payload = body.clone();
    }
    1 => {
      head.push_str("Transfer-Encoding: chunked\r\n");
      let mut at = 0;
      while at < body.len() {
        let n = (ctx.ch.range(1, 400) as usize).min(body.len() - at);
        seams.push((payload.len(), at));
        payload.extend(format!("{n:x}{}\r\n", if ctx.ch.chance(10) { ";ext=1" } else { "" }).bytes());
        payload.extend(&body[at..at + n]);
        payload.extend(b"\r\n");
        at += n;
      }
      seams.push((payload.len(), at));
      payload.extend(b"0\r\n");
      if ctx.ch.chance(20) {
        payload.extend(b"X-Trailer: 1\r\n");
      }
      payload.extend(b"\r\n");
    }
    _ => payload = body.clone(),
  }
  head.push_str("Server: sim\r\n\r\n");
  let mut resp = head.clone().into_bytes();
  resp.extend(&payload);
  let total = resp.len();
  let mut outcome = if good { Ok(body.clone()) } else { Err("status".into()) };
  let mut blind = None;
  match fault {
    5 if total > 1 => {
      // the connection ends somewhere inside
      hop.fault = "cut";
      let at = if ctx.ch.chance(25) { ctx.ch.idx(head.len()) } else { head.len() + ctx.ch.idx(payload.len().max(1)) };
      let at = at.min(total - 1);
      resp.truncate(at);
      if ctx.ch.chance(40) {
        hop.fault = "reset";
        hop.end_err = *ctx.ch.pick(&[104, 110]);
        outcome = Err("reset".into());
        // the length was satisfied before the reset
      } else {
        let in_head = at < head.len();
        match framing {
          2 if !in_head => outcome = Ok(body[..at - head.len()].to_vec()),
          _ => {
            outcome = Err("cut".into());
            if in_head {
              // cut before the client learned how long the body is
              let so_far = head[..at].to_lowercase();
              let told = so_far.find("content-length: ").is_some_and(|o| so_far[o..].contains('\n') && !body.is_empty());
              if so_far.len() >= 12 && !told {
                blind = Some(vec![]);
              }
            } else if framing == 1 {
              let p = at - head.len();
              // within a size line, or between chunks
              let k = seams.iter().rposition(|(o, _)| *o <= p).unwrap();
              let (o, n) = seams[k];
              let line_end = payload[o..].iter().position(|b| *b == b'\n').unwrap() + o;
              let last = k + 1 == seams.len();
              if last && p > o {
                // the final chunk was announced: all data is there
                outcome = Ok(body.clone());
              } else if p <= line_end || last {
                blind = Some(body[..n].to_vec());
              } else if let Some((next, m)) = seams.get(k + 1)
                && p + 2 >= *next
              {
                blind = Some(body[..*m].to_vec());
              }
            }
          }
        }
      }
      if !good {
        blind = None;
        outcome = Err("status".into());
      }
    }
    6 if framing == 0 && good => {
      // more than announced: what follows is not part of the body
      hop.fault = "surplus";
      resp.extend(b"HTTP/1.1 200 OK\r\n\r\nSURPLUS");
    }
    6 => {
      hop.fault = "garbage";
      resp = ctx.ch.pick(&[&b""[..], b"\r\n", b"SSH-2.0-OpenSSH_9.6\r\n", b"HTTP/1.1\r\n\r\nSECRET", b"\xff\xfe\xfd\r\n\r\nSECRET", b"HTTP/1.1 200 OK\r\nContent-Length: many\r\n\r\nSECRET"]).to_vec();
      outcome = Err("garbage".into());
      blind = None;
    }
    _ => {}
  }
  hop.response = resp;
  hops.push(hop);
  Call { hops, outcome, blind }
}

fn chunk(ctx: &mut Ctx) -> u64 {
  *ctx.ch.pick(&[0u64, 0, 1, 2, 7, 64, 1000, 4096])
}
