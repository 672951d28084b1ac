mod checks;
mod cli;
mod conv;
mod docgen;
mod json;
mod orch;
mod rt;
mod tree;
mod world;

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  // the environment the code under test may look at is the simulator's
  unsafe {
    std::env::set_var("HOME", "/home/hostsecret");
    std::env::remove_var("ASCIIDORK_LOG");
  }
  let code = match a.first().map(|s| s.as_str()) {
    Some("run") => orch::run_check(&a[1]),
    Some("worker") => orch::worker(&a[1..]),
    Some("shrink") => orch::shrink_cmd(&a[1..]),
    Some("exec") => orch::exec_cmd(&a[1..]),
    Some("replay") => orch::replay(&a[1]),
    Some("list") => {
      for c in checks::all_checks() {
        println!("{}", c.id);
      }
      0
    }
    _ => {
      eprintln!("usage: simdork run <property> | replay <file> | list");
      2
    }
  };
  std::process::exit(code);
}
