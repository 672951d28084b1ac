//! One conversion of the real parser + backend under a simulated world.
use crate::world::{SimResolver, World};
use asciidork_core::{DocType, JobAttr, ReadAttr, JobAttrs, JobSettings, Path, SafeMode};
use asciidork_parser::Parser;
use asciidork_parser::parser::SourceFile;
use bumpalo::Bump;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Backend {
  DrHtml,
  Html5s,
}

#[derive(Clone)]
pub struct Job {
  pub src: String,
  pub file: SourceFile,
  pub safe: SafeMode,
  pub strict: bool,
  pub embedded: bool,
  pub doctype: Option<DocType>,
  pub attrs: Vec<(String, JobAttr)>,
  pub stamps: Option<(u64, Option<u64>, Option<u64>)>,
  pub backend: Backend,
}

impl Job {
  pub fn new(src: impl Into<String>, path: &str) -> Job {
    Job {
      src: src.into(),
      file: SourceFile::Path(Path::new(path)),
      safe: SafeMode::Unsafe,
      strict: false,
      embedded: true,
      doctype: None,
      attrs: Vec::new(),
      stamps: None,
      backend: Backend::DrHtml,
    }
  }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Diag {
  pub file: String,
  pub line: u32,
  pub text: String,
  pub msg: String,
  pub ustart: u32,
  pub uwidth: u32,
}

impl Diag {
  pub fn short(&self) -> String {
    format!("{}:{}: {} | {}", self.file, self.line, self.msg, self.text)
  }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
  /// html, warnings
  Ok(String, Vec<Diag>),
  /// strict-mode / fatal diagnostics
  Err(Vec<Diag>),
  /// the code under test panicked (message, location)
  Panic(String),
}

impl Out {
  pub fn html(&self) -> Option<&str> {
    match self {
      Out::Ok(h, _) => Some(h),
      _ => None,
    }
  }
  pub fn diags(&self) -> &[Diag] {
    match self {
      Out::Ok(_, d) | Out::Err(d) => d,
      Out::Panic(_) => &[],
    }
  }
  pub fn kind(&self) -> &'static str {
    match self {
      Out::Ok(..) => "ok",
      Out::Err(_) => "err",
      Out::Panic(_) => "panic",
    }
  }
  pub fn show(&self) -> String {
    match self {
      Out::Ok(h, d) => format!(
        "Ok html={h:?}\n  warnings=[{}]",
        d.iter().map(|d| d.short()).collect::<Vec<_>>().join("; ")
      ),
      Out::Err(d) => {
        format!("Err [{}]", d.iter().map(|d| d.short()).collect::<Vec<_>>().join("; "))
      }
      Out::Panic(m) => format!("PANIC {m}"),
    }
  }
}

pub fn file_str(f: &SourceFile) -> String {
  match f {
    SourceFile::Path(p) => p.to_string(),
    other => other.file_name().to_string(),
  }
}

pub fn diag(d: &asciidork_parser::Diagnostic) -> Diag {
  Diag {
    file: file_str(&d.source_file),
    line: d.line_num,
    text: d.line.clone(),
    msg: d.message.clone(),
    ustart: d.underline_start,
    uwidth: d.underline_width,
  }
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Silence the default hook and remember where a panic came from.
pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
  }));
}

pub fn last_panic() -> String {
  LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn settings(job: &Job) -> JobSettings {
  let mut attrs = JobAttrs::empty();
  for (k, v) in &job.attrs {
    let _ = attrs.insert(k.clone(), v.clone());
  }
  <asciidork_dr_html_backend::AsciidoctorHtml as asciidork_backend::Backend>::set_job_attrs(&mut attrs);
  JobSettings {
    doctype: job.doctype,
    safe_mode: job.safe,
    job_attrs: attrs,
    embedded: job.embedded,
    strict: job.strict,
  }
}

/// the built-in stylesheet is 30 kB of constant text: keep its hash only
pub fn strip_css(html: String) -> String {
  let mut from = 0;
  while let Some(i) = html[from..].find("<style>") {
    let a = from + i;
    let Some(n) = html[a..].find("</style>") else { return html };
    if n > 8000 {
      let h = crate::rt::fnv_str(&html[a..a + n]);
      return format!("{}<style>[builtin css {h:x}]{}", &html[..a], &html[a + n..]);
    }
    from = a + n;
  }
  html
}

pub fn convert(job: &Job, world: Option<Rc<RefCell<World>>>) -> Out {
  convert_css(job, world, None)
}

/// `sheet`: what an application embeds as custom stylesheet, given its directory and name
pub fn convert_css(job: &Job, world: Option<Rc<RefCell<World>>>, sheet: Option<&dyn Fn(&str, &str) -> Option<String>>) -> Out {
  let r = catch_unwind(AssertUnwindSafe(|| {
    let bump = Bump::new();
    let mut parser = Parser::from_str(&job.src, job.file.clone(), &bump);
    parser.apply_job_settings(settings(job));
    if let Some(w) = world {
      parser.set_resolver(Box::new(SimResolver(w)));
    }
    if let Some((now, mtime, rep)) = job.stamps {
      parser.provide_timestamps(now, mtime, rep);
    }
    match parser.parse() {
      Err(ds) => Out::Err(ds.iter().map(diag).collect()),
      Ok(mut res) => {
        let meta = &mut res.document.meta;
        if let Some(sheet) = sheet
          && let Some(name) = meta.str("stylesheet").map(String::from)
          && !name.is_empty()
          && let Some(css) = sheet(&meta.str_or("stylesdir", ".").to_string(), &name)
        {
          meta.insert_header_attr("_asciidork_resolved_custom_css", css).unwrap();
        }
        let warnings: Vec<Diag> = res.warnings.iter().map(diag).collect();
        let html = match job.backend {
          Backend::DrHtml => {
            asciidork_dr_html_backend::convert(res.document).expect("backend infallible")
          }
          Backend::Html5s => {
            asciidork_backend_html5s::convert(res.document).expect("backend infallible")
          }
        };
        Out::Ok(strip_css(html), warnings)
      }
    }
  }));
  match r {
    Ok(o) => o,
    Err(_) => Out::Panic(last_panic()),
  }
}
