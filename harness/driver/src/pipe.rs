//! The common pipeline: random grammars and inputs through the real macro and runtime, observations against the model.
use crate::exec::{self, *};
use crate::gen::{self, Cfg};
use crate::gram::*;
use crate::input;
use crate::json;
use crate::model::{self, Out, Typing, World};
use crate::report::Report;
use crate::rng::Rng;
use oakrt::Obs;
use std::collections::BTreeSet;

pub const OUTCOME: u32 = 1;
pub const DATA: u32 = 2;
pub const TYPE: u32 = 4;
pub const CALLS: u32 = 8;
pub const FAIL: u32 = 16;
pub const TERMS: u32 = 32;
pub const STREAM: u32 = 64;
pub const CLASS: u32 = 128;
pub const AGREE: u32 = 256;

pub struct G { pub gid: u32, pub world: World, pub strm: Strm, pub unit: Unit, pub cases: Vec<C> }
impl G { pub fn gram(&self) -> &Gram { &self.world.grams[0] } pub fn typing(&self) -> &Typing { &self.world.types[0] } }

pub struct C { pub rule: usize, pub start: usize, pub text: String, pub rec: Out, pub par: Out, pub obs_r: Option<Obs>, pub obs_p: Option<Obs> }

pub struct Spec {
  pub cfgs: Vec<(u32, Cfg)>,
  pub grams: usize,
  pub inputs: usize,
  pub tries: usize,
  pub parsers: bool,
  pub recognizers: bool,
  pub wild: u32,
  /// Percentage of inputs parsed from the middle of a longer text.
  pub offset: u32,
}

pub fn build(rng: &mut Rng, spec: &Spec, gid0: u32) -> Vec<G> {
  let w: Vec<u32> = spec.cfgs.iter().map(|c| c.0).collect();
  let seeds: Vec<Rng> = (0..spec.grams).map(|_| rng.fork()).collect();
  let out: std::sync::Mutex<Vec<(usize, G)>> = std::sync::Mutex::new(vec![]);
  let next = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|sc| {
    for _ in 0..8 {
      sc.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= seeds.len() { break }
        let mut r = seeds[i].clone();
        let cfg = &spec.cfgs[r.weighted(&w)].1;
        let (g, t) = gen::grammar(&mut r, cfg);
        let gid = gid0 + i as u32;
        let x = one(&mut r, spec, gid, g, t);
        out.lock().unwrap().push((i, x));
      });
    }
  });
  let mut v = out.into_inner().unwrap();
  v.sort_by_key(|x| x.0);
  v.into_iter().map(|x| x.1).collect()
}

pub fn needs_str(g: &Gram) -> bool { g.has(&|e| matches!(e.k, Kd::Spn(_))) }

pub fn one(r: &mut Rng, spec: &Spec, gid: u32, g: Gram, t: Typing) -> G {
  let strm = if needs_str(&g) { if r.pct(30) { Strm::File } else { Strm::Str } } else { Strm::Mon };
  let mut st = if r.pct(spec.wild) { Style::wild(r.fork()) } else { Style::plain() };
  let unit = exec::unit(gid, &g, &t, strm, &mut st);
  let world = World::one(g, t);
  let cases = cases(r, spec, &world);
  G { gid, world, strm, unit, cases }
}

pub fn cases(r: &mut Rng, spec: &Spec, world: &World) -> Vec<C> {
  let mut cases = vec![];
  let mut seen = BTreeSet::new();
  for rule in 0..world.grams[0].rules.len() {
    for i in input::choose(world, rule, r, spec.inputs, spec.tries, &mut seen) {
      let (mut start, mut text, mut par) = (0, i.text, i.out);
      if r.pct(spec.offset) {
        let long = r.below(120) == 0;
        let pre: String = (0..if long { r.range(65_536, 66_000) } else { r.range(1, 3) }).map(|_| *r.pick(&['a', 'é', '\n', '漢', '('])).collect();
        start = pre.len();
        text = format!("{}{}", pre, text);
        par = match model::run(world, 0, rule, &text, start, true, 12000) { Some(o) => o, None => continue };
      }
      let rec = match model::run(world, 0, rule, &text, start, false, 12000) { Some(o) => o, None => continue };
      cases.push(C { rule, start, text, rec, par, obs_r: None, obs_p: None });
    }
  }
  cases
}

pub fn budget(o: &Out) -> u64 { 40 * o.terms + 4000 }

/// Compiles and runs everything; fills the observations in. Returns the compilation results.
pub fn execute(env: &Env, gs: &mut Vec<G>, spec: &Spec, per_shard: usize) -> Batch {
  let units: Vec<Unit> = gs.iter().map(|g| g.unit.clone()).collect();
  let mut jobs = vec![];
  let mut back = vec![];
  for (gi, g) in gs.iter().enumerate() {
    for (ci, c) in g.cases.iter().enumerate() {
      let rule = g.gram().rules[c.rule].name.clone();
      if spec.recognizers { jobs.push(Job { gid: g.gid, rule: rule.clone(), mode: "R", start: c.start, budget: budget(&c.rec) + 2 * c.start as u64, text: c.text.clone() }); back.push((gi, ci, true)) }
      if spec.parsers { jobs.push(Job { gid: g.gid, rule, mode: "P", start: c.start, budget: budget(&c.par) + 2 * c.start as u64, text: c.text.clone() }); back.push((gi, ci, false)) }
    }
  }
  let b = batch(env, &units, &jobs, per_shard);
  for (k, o) in b.obs.iter().enumerate() {
    let (gi, ci, r) = back[k];
    if o.status == "uncompiled" || o.status == "skipped" { continue }
    let c = &mut gs[gi].cases[ci];
    if r { c.obs_r = Some(o.clone()) } else { c.obs_p = Some(o.clone()) }
  }
  b
}

/// A text, its middle left out when it is long.
pub fn brief(t: &str) -> String {
  if t.len() < 1200 { return format!("{:?}", t) }
  let v: Vec<char> = t.chars().collect();
  let (a, b): (String, String) = (v[..40].iter().collect(), v[v.len() - 600.min(v.len())..].iter().collect());
  format!("{:?} ({} bytes) {:?}", a, t.len(), b)
}

pub fn ended(o: &Obs) -> bool { o.status == "ok" || o.status == "fail" }

pub fn describe(g: &G, c: &C, mode: &str) -> String {
  format!("--- module (inside `mod g{} {{ .. }}`) ---\n{}\n--- parse ---\nrule {} mode {} start {} input {:?}", g.gid, g.unit.src, g.gram().rules[c.rule].name, mode, c.start, c.text)
}

/// Differences between an observation and the model, for the aspects asked for.
pub fn diff(c: &C, o: &Obs, want: &Out, parser: bool, ty: &str, aspects: u32) -> Vec<String> {
  let mut v = vec![];
  if !ended(o) {
    if aspects & (OUTCOME | DATA | CALLS | FAIL | TERMS) != 0 { v.push(format!("the parse ended with {} (model: {})", o.status, if want.ok { "success" } else { "failure" })) }
    return v
  }
  let ok = o.status == "ok";
  if aspects & OUTCOME != 0 {
    if ok != want.ok { v.push(format!("the rule {}, the model {}", if ok { "succeeded" } else { "failed" }, if want.ok { "succeeds" } else { "fails" })) }
    else if ok && o.end != want.end { v.push(format!("consumed up to {} instead of {}", o.end, want.end)) }
  }
  if ok == want.ok {
    if aspects & DATA != 0 && parser {
      if ok && !o.has_data { v.push("success without a value".into()) }
      else if !ok && o.has_data { v.push("failure with a value".into()) }
      else if ok && o.data != want.data { v.push(format!("value {} instead of {}", o.data, want.data)) }
    }
    if aspects & CALLS != 0 && o.calls != want.calls { v.push(format!("action calls {:?} instead of {:?}", o.calls, want.calls)) }
    if aspects & CLASS != 0 {
      let k = if !want.ok { "failure" } else if want.end == c.text.len() { "full" } else { "partial" };
      if o.class != k { v.push(format!("result classified {} instead of {}", o.class, k)) }
    }
  }
  if aspects & FAIL != 0 {
    let exp: Vec<String> = want.exp.iter().cloned().collect();
    if o.far != want.far || o.exp != exp { v.push(format!("furthest failure at {} expecting {:?} instead of {} expecting {:?}", o.far, o.exp, want.far, exp)) }
    // What the result says of it.
    else if ok == want.ok && !o.render.starts_with('@') && (o.class == "partial" || o.class == "failure") {
      let exp = want.exp.iter().map(|e| e.as_str()).collect();
      if let Some(m) = crate::props::runtime::render_fault(&c.text, want.far, &exp, &o.render, true) { v.push(m) }
    }
  }
  if aspects & TERMS != 0 && o.terms > 2 * want.terms + 16 { v.push(format!("{} terminal tests where recursive descent makes {}", o.terms, want.terms)) }
  if aspects & STREAM != 0 && !o.stream_errors.is_empty() { v.push(format!("stream: {}", o.stream_errors.join("; "))) }
  if aspects & TYPE != 0 && parser && o.ty != ty { v.push(format!("static type {} instead of {}", o.ty, ty)) }
  v
}

pub fn agree(r: &Obs, p: &Obs) -> Vec<String> {
  let mut v = vec![];
  if !ended(r) || !ended(p) { v.push(format!("recognizer ended with {}, parser with {}", r.status, p.status)); return v }
  if r.status != p.status { v.push(format!("recognizer: {}, parser: {}", r.status, p.status)) }
  else {
    if r.status == "ok" && r.end != p.end { v.push(format!("recognizer stops at {}, parser at {}", r.end, p.end)) }
    if (p.status == "ok") != p.has_data { v.push(format!("parser: {} with value: {}", p.status, p.has_data)) }
    if r.class != p.class { v.push(format!("recognizer result: {}, parser result: {}", r.class, p.class)) }
  }
  if r.far != p.far || r.exp != p.exp { v.push(format!("recognizer: furthest failure {} {:?}, parser: {} {:?}", r.far, r.exp, p.far, p.exp)) }
  v
}

/// Judges every observation.
pub fn judge(rep: &mut Report, gs: &[G], aspects: u32, interesting: &dyn Fn(&G, &C) -> bool) {
  for g in gs {
    for c in &g.cases {
      let name = &g.gram().rules[c.rule].name;
      let ty = g.typing().rule[c.rule].real();
      let mut seen = false;
      for (o, want, parser) in [(&c.obs_r, &c.rec, false), (&c.obs_p, &c.par, true)] {
        let o = match o { Some(o) => o, None => continue };
        seen = true;
        rep.evaluations += 1;
        rep.count("stream_operations", o.ops);
        rep.count("action_calls", o.calls.len() as u64);
        rep.count(if o.status == "ok" { "parses_ok" } else { "parses_failed" }, 1);
        let d = diff(c, o, want, parser, &ty, aspects);
        if !d.is_empty() {
          let mode = if parser { "parse" } else { "recognize" };
          rep.violation(&format!("{}:{}:{}", crate::rng::hash(&g.gram().text()), name, c.text), format!("{}_{} on {} from {}: {}\nin grammar:\n{}", mode, name, brief(&c.text), c.start, d.join("; "), g.gram().text()),
            format!("{}\n--- observed ---\n{:#?}\n--- model ---\n{:#?}", describe(g, c, mode), o, want));
        }
      }
      if aspects & AGREE != 0 {
        if let (Some(r), Some(p)) = (&c.obs_r, &c.obs_p) {
          let d = agree(r, p);
          if !d.is_empty() {
            rep.violation(&format!("{}:{}:{}", crate::rng::hash(&g.gram().text()), name, c.text), format!("rule {} on {} from {}: {}\nin grammar:\n{}", name, brief(&c.text), c.start, d.join("; "), g.gram().text()),
              format!("{}\n--- recognizer ---\n{:#?}\n--- parser ---\n{:#?}", describe(g, c, "both"), r, p));
          }
        }
      }
      if seen && interesting(g, c) {
        let key = format!("{}\u{1}{}\u{1}{}", g.gram().text(), name, c.text);
        rep.nontrivial(&key);
        rep.count("model_backtracks", c.rec.backtracks);
        rep.count("model_iterations", c.rec.iters);
        rep.sample(4, || json::obj(vec![("grammar", json::s(g.gram().text())), ("rule", json::s(name.clone())), ("input", json::s(c.text.clone())),
          ("model", json::s(format!("ok={} end={} value={} far={} expected={:?} calls={:?}", c.par.ok, c.par.end, c.par.data, c.par.far, c.par.exp, c.par.calls)))]));
      }
    }
  }
  let nodes: usize = gs.iter().map(|g| g.gram().nodes).sum();
  let mut cov = 0;
  for g in gs { let mut s = BTreeSet::new(); for c in &g.cases { s.extend(c.rec.cov.iter().cloned()); s.extend(c.par.cov.iter().cloned()) } cov += s.len() }
  rep.count("grammars", gs.len() as u64);
  rep.count("expressions", nodes as u64);
  rep.count("expression_outcomes_met", cov as u64);
}

/// Grammars that did not compile are the business of P08; here they only reduce what is observed.
pub fn compile_losses(rep: &mut Report, gs: &[G], b: &Batch) {
  let bad = gs.iter().filter(|g| !b.compiled.get(&g.gid).map_or(false, |c| c.ok)).count();
  rep.count("grammars_not_compiled", bad as u64);
  if bad * 2 > gs.len() {
    let first = gs.iter().find_map(|g| b.compiled.get(&g.gid).filter(|c| !c.ok)).map(|c| c.summary()).unwrap_or_default();
    rep.inconclusive = Some(format!("{} of {} grammars did not compile: {}", bad, gs.len(), first));
  }
}

pub fn compile_failures(rep: &mut Report, gs: &[G], b: &Batch, only: &dyn Fn(&Compiled) -> bool) {
  for g in gs {
    rep.evaluations += 1;
    match b.compiled.get(&g.gid) {
      Some(c) if c.ok => {}
      Some(c) => if only(c) {
        rep.violation(&format!("{}", crate::rng::hash(&g.gram().text())), format!("well-formed, consistently typed grammar not compiled: {}\nin grammar:\n{}", c.summary(), g.gram().text()),
          format!("--- module ---\n{}\n--- diagnostics ---\n{:#?}", g.unit.src, c.diags));
      },
      None => rep.inconclusive = Some(format!("no result for grammar {}", g.gid)),
    }
  }
}
