use crate::rt::{Ctx, Verdict};

pub mod attributes;
pub mod callouts;
pub mod torn;
pub mod cli_http;
pub mod cli_io;
pub mod cli_jail;
pub mod clock;
pub mod conditionals;
pub mod damage;
pub mod embed;
pub mod fidelity;
pub mod includes;
pub mod isolation;
pub mod labels;
pub mod safety;
pub mod selection;

#[derive(Clone, Copy)]
pub struct Check {
  pub id: &'static str,
  pub run: fn(&mut Ctx) -> Verdict,
  pub quick: u64,
  pub thorough: u64,
  pub level: &'static str,
  pub rule: &'static str,
  pub state_rule: &'static str,
  pub real: &'static str,
  pub stub: &'static str,
  pub assumptions: &'static [&'static str],
}

pub fn all_checks() -> Vec<Check> {
  let mut v = Vec::new();
  v.extend(includes::checks());
  v.extend(selection::checks());
  v.extend(conditionals::checks());
  v.extend(safety::checks());
  v.extend(embed::checks());
  v.extend(cli_io::checks());
  v.extend(clock::checks());
  v.extend(damage::checks());
  v.extend(fidelity::checks());
  v.extend(isolation::checks());
  v.extend(labels::checks());
  v.extend(attributes::checks());
  v.extend(callouts::checks());
  v.extend(torn::checks());
  v.extend(cli_http::checks());
  v.extend(cli_jail::checks());
  v
}
