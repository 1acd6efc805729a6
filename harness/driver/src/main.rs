//! `oakv <property>`: decides one property by running the real macro and runtime under monitors.
mod exec;
mod gen;
mod gram;
mod input;
mod json;
mod model;
mod pipe;
mod props;
mod report;
mod rng;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let pid = args.get(1).cloned().unwrap_or_default();
  let verif = std::path::PathBuf::from(std::env::var("OAKV_ROOT").unwrap_or_else(|_| "/verif".into()));
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let tier = if tier == "thorough" { "thorough" } else { "quick" };
  let code = std::thread::Builder::new().stack_size(512 << 20).spawn(move || props::run(&pid, verif, seed, tier)).unwrap().join();
  std::process::exit(code.unwrap_or(2));
}
