//! One function per property.
mod classes;
mod compose;
mod giant;
mod long;
mod langs;
mod lint;
mod parse;
mod present;
mod reject;
pub mod runtime;
mod size;
mod streams;

use crate::exec::{self, Batch, Env};
use crate::gen::Cfg;
use crate::pipe::{self, *};
use crate::report::Report;
use crate::rng::{hash, Rng};
use std::path::PathBuf;

pub struct Cx { pub rep: Report, pub rng: Rng, pub env: Env, pub limit: f64 }

impl Cx {
  /// Quick checks do a fixed amount of work; thorough ones repeat it with fresh randomness until their time is over.
  pub fn more(&self, round: u32) -> bool {
    if self.rep.total_violations > 20 || self.rep.inconclusive.is_some() { return false }
    if self.rep.quick() { round < 1 } else { round < 1 || self.rep.t0.elapsed().as_secs_f64() < self.limit }
  }
}

pub fn run(pid: &str, verif: PathBuf, seed: u64, tier: &str) -> i32 {
  let env = exec::env(&verif, pid);
  let limit = std::env::var("OAKV_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0);
  let mut cx = Cx { rep: Report::new(pid, verif.clone(), seed, tier), rng: Rng::new(seed.wrapping_mul(0x1_0000_0001) ^ hash(pid)), env, limit };
  match pid {
    "P01" => parse::language(&mut cx),
    "P02" => parse::agreement(&mut cx),
    "P03" => parse::values(&mut cx),
    "P04" => parse::types(&mut cx),
    "P05" => parse::actions(&mut cx),
    "P06" => parse::predicates(&mut cx),
    "P07" => parse::termination(&mut cx),
    "P08" => parse::acceptance(&mut cx),
    "P09" => parse::failures(&mut cx),
    "P10" => runtime::rendering(&mut cx),
    "P11" => parse::spans(&mut cx),
    "P12" => runtime::streams(&mut cx),
    "P13" => runtime::states(&mut cx),
    "P14" => classes::run(&mut cx),
    "P15" => reject::run(&mut cx),
    "P16" => lint::run(&mut cx),
    "P17" => compose::run(&mut cx),
    "P18" => present::run(&mut cx),
    "P19" => size::run(&mut cx),
    "P20" => streams::run(&mut cx),
    "P21" => langs::run(&mut cx),
    _ => { eprintln!("no property {}", pid); return 2 }
  }
  let _ = std::fs::remove_dir_all(&cx.env.work);
  cx.rep.finish()
}

pub enum Losses { /** Only code refused by rustc counts. */ Rustc, /** Any refusal counts. */ All }

/// One round of the common pipeline.
pub fn round(cx: &mut Cx, spec: &Spec, aspects: u32, losses: Losses, interesting: &dyn Fn(&G, &C) -> bool) -> (Vec<G>, Batch) {
  let mut gs = pipe::build(&mut cx.rng, spec, 0);
  let b = pipe::execute(&cx.env, &mut gs, spec, 8);
  lost(cx, &gs, &b, losses);
  pipe::judge(&mut cx.rep, &gs, aspects, interesting);
  (gs, b)
}

pub fn lost(cx: &mut Cx, gs: &[G], b: &Batch, losses: Losses) {
  match losses {
    Losses::Rustc => { pipe::compile_failures(&mut cx.rep, gs, b, &|c| c.by_rustc()); pipe::compile_losses(&mut cx.rep, gs, b) }
    Losses::All => pipe::compile_failures(&mut cx.rep, gs, b, &|_| true),
  }
}

pub fn spec(cfgs: Vec<(u32, Cfg)>, grams: usize) -> Spec {
  Spec { cfgs, grams, inputs: 8, tries: 40, parsers: true, recognizers: true, wild: 20, offset: 12 }
}
