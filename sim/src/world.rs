//! The simulated storage / network behind the library's own seam, `IncludeResolver`.
use crate::rt::fnv;
use asciidork_core::SafeMode;
use asciidork_parser::includes::{IncludeBuffer, IncludeResolver, IncludeTarget, ResolveError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Fault {
  /// deliver what storage holds
  None,
  NotFound,
  Io(String),
  Restricted,
  CaseMismatch,
  UriRead,
  UriUnsupported,
  BaseDir,
  /// deliver these bytes instead (torn, corrupted, mutated since last read)
  Bytes(Vec<u8>),
}

impl Fault {
  pub fn name(&self) -> &'static str {
    match self {
      Fault::None => "none",
      Fault::NotFound => "not_found",
      Fault::Io(_) => "io_error",
      Fault::Restricted => "restricted",
      Fault::CaseMismatch => "case_mismatch",
      Fault::UriRead => "uri_read_error",
      Fault::UriUnsupported => "uri_unsupported",
      Fault::BaseDir => "base_dir_required",
      Fault::Bytes(_) => "content_replaced",
    }
  }
  pub fn err(&self) -> Option<ResolveError> {
    Some(match self {
      Fault::None | Fault::Bytes(_) => return None,
      Fault::NotFound => ResolveError::NotFound,
      Fault::Io(s) => ResolveError::Io(s.clone()),
      Fault::Restricted => ResolveError::RestrictedPath,
      Fault::CaseMismatch => ResolveError::CaseMismatch(Some("Other.adoc".into())),
      Fault::UriRead => ResolveError::UriRead("connection reset".into()),
      Fault::UriUnsupported => ResolveError::UriReadNotSupported,
      Fault::BaseDir => ResolveError::BaseDirRequired,
    })
  }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
  pub target: String,
  pub uri: bool,
  pub safe: SafeMode,
  /// "ok:<len>", or the fault name
  pub reply: String,
}

#[derive(Default)]
pub struct World {
  pub files: BTreeMap<String, Vec<u8>>,
  pub uris: BTreeMap<String, Vec<u8>>,
  pub base_dir: Option<String>,
  /// fault for the n-th resolver call (by ordinal); beyond the end: none
  pub plan: Vec<Fault>,
  /// faults keyed by path: every read of that path fails so
  pub path_plan: BTreeMap<String, Fault>,
  pub calls: Vec<Call>,
  /// call n: pre-size the buffer wrongly first (a storage layer that learned the size late)
  pub resize_dance: bool,
  /// scheduling / reentrancy hook, run inside every resolver call
  pub hook: Option<Rc<dyn Fn(&str)>>,
  pub max_calls: usize,
  pub storage_ends: bool,
  /// what storage holds at every path and URI not listed
  pub anything: Option<Vec<u8>>,
  /// a storage that decides everything about file paths itself
  pub fs: Option<Rc<dyn Fn(&str) -> Result<Vec<u8>, ResolveError>>>,
}

pub fn norm(path: &str) -> String {
  let abs = path.starts_with('/');
  let mut out: Vec<&str> = Vec::new();
  for p in path.split('/') {
    match p {
      "" | "." => {}
      ".." => {
        out.pop();
      }
      p => out.push(p),
    }
  }
  format!("{}{}", if abs { "/" } else { "" }, out.join("/"))
}

#[derive(Clone)]
pub struct SimResolver(pub Rc<RefCell<World>>);

impl IncludeResolver for SimResolver {
  fn resolve(
    &mut self,
    target: IncludeTarget,
    buffer: &mut dyn IncludeBuffer,
    safe_mode: SafeMode,
  ) -> Result<usize, ResolveError> {
    let (raw, uri) = match target {
      IncludeTarget::FilePath(p) => (p, false),
      IncludeTarget::Uri(u) => (u, true),
    };
    let hook = self.0.borrow().hook.clone();
    if let Some(h) = hook {
      h(&raw);
    }
    let mut w = self.0.borrow_mut();
    let n = w.calls.len();
    if w.storage_ends && n >= w.max_calls {
      // storage goes away for good: bounds the (legitimate) growth of nested includes
      return Err(ResolveError::Io("connection lost".into()));
    }
    if w.max_calls > 0 && n >= w.max_calls {
      // bound the simulation: a runaway recursion is reported, not suffered
      panic!("SIM: more than {} storage calls", w.max_calls);
    }
    let key = if uri { raw.clone() } else { norm(&raw) };
    let mut fault = w.plan.get(n).cloned().unwrap_or(Fault::None);
    if fault == Fault::None
      && let Some(f) = w.path_plan.get(&key)
    {
      fault = f.clone();
    }
    let own = (!uri).then(|| w.fs.clone()).flatten();
    let bytes = match &fault {
      Fault::None => {
        let m = if uri { &w.uris } else { &w.files };
        m.get(&key).cloned().or_else(|| w.anything.clone())
      }
      Fault::Bytes(b) => Some(b.clone()),
      _ => None,
    };
    let res = match (fault.err(), bytes) {
      (Some(e), _) => Err(e),
      _ if own.is_some() => own.unwrap()(&raw),
      (None, Some(b)) => Ok(b),
      (None, None) => Err(ResolveError::NotFound),
    };
    w.calls.push(Call {
      target: raw,
      uri,
      safe: safe_mode,
      reply: match &res {
        Ok(b) => format!("ok:{}:{:x}", b.len(), fnv(b) & 0xffff),
        Err(e) => format!("{e:?}"),
      },
    });
    let dance = w.resize_dance;
    drop(w);
    let b = res?;
    if dance {
      buffer.initialize(b.len() * 2 + 3);
      buffer.as_bytes_mut().fill(b'Z');
      if n % 2 == 0 {
        buffer.initialize(b.len() / 2);
      }
    }
    buffer.initialize(b.len());
    buffer.as_bytes_mut().copy_from_slice(&b);
    Ok(b.len())
  }

  fn get_base_dir(&self) -> Option<String> {
    self.0.borrow().base_dir.clone()
  }

  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}
