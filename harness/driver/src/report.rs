//! Verdict, evidence, replay files.
use crate::json::{self, J};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::time::Instant;

pub struct Report {
  pub pid: String,
  pub seed: u64,
  pub tier: String,
  pub verif: PathBuf,
  pub t0: Instant,
  pub evaluations: u64,
  pub distinct: HashSet<u64>,
  pub rule: String,
  pub samples: Vec<J>,
  pub counts: BTreeMap<String, u64>,
  pub violations: Vec<(String, String, String)>,
  pub total_violations: u64,
  pub known: Vec<String>,
  pub assumptions: Vec<String>,
  pub inconclusive: Option<String>,
  findings: Vec<(String, String)>,
}

impl Report {
  pub fn new(pid: &str, verif: PathBuf, seed: u64, tier: &str) -> Report {
    // Lines `finding: property=<id> key=<key> <text>`.
    let mut findings = vec![];
    if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
      for l in t.lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={} key=", pid)) {
          let (k, d) = r.split_once(' ').unwrap_or((r, ""));
          findings.push((k.to_string(), d.to_string()));
        }
      }
    }
    Report { pid: pid.into(), seed, tier: tier.into(), verif, t0: Instant::now(), evaluations: 0, distinct: HashSet::new(), rule: String::new(), samples: vec![],
      counts: BTreeMap::new(), violations: vec![], total_violations: 0, known: vec![], assumptions: vec![], inconclusive: None, findings }
  }
  pub fn quick(&self) -> bool { self.tier == "quick" }
  pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n }
  pub fn max(&mut self, k: &str, n: u64) { let e = self.counts.entry(k.to_string()).or_insert(0); *e = (*e).max(n) }
  pub fn nontrivial(&mut self, key: &str) { self.distinct.insert(crate::rng::hash(key)); }
  pub fn sample(&mut self, max: usize, j: impl FnOnce() -> J) { if self.samples.len() < max { let j = j(); self.samples.push(j) } }
  /// `key` identifies the input, call site or history, for the file of known findings.
  pub fn violation(&mut self, key: &str, title: String, details: String) {
    if let Some((_, d)) = self.findings.iter().find(|(k, _)| k == key) {
      let l = format!("KNOWN-FINDING: property={} {}", self.pid, d);
      if !self.known.contains(&l) { self.known.push(l) }
      return
    }
    self.total_violations += 1;
    if self.violations.len() < 8 { self.violations.push((key.into(), title, details)) }
  }
  pub fn finish(mut self) -> i32 {
    let wall = self.t0.elapsed().as_secs_f64();
    for l in &self.known { println!("{}", l) }
    let mut code = 0;
    let dir = self.verif.join("replays");
    for (i, (key, title, details)) in self.violations.iter().enumerate() {
      let _ = std::fs::create_dir_all(&dir);
      let p = dir.join(format!("{}-{}-{}.txt", self.pid, self.seed, i));
      let _ = std::fs::write(&p, format!("property: {}\nkey: {}\nto run again: VERIF_SEED={} VERIF_TIER={} ./check {}\n\n{}\n\n{}\n", self.pid, key, self.seed, self.tier, self.pid, title, details));
      println!("VIOLATION property={} replay={}", self.pid, p.display());
      let short: String = title.chars().take(3000).collect();
      println!("  {}", short.replace('\n', "\n  "));
      code = 1;
    }
    if code == 0 { if let Some(m) = &self.inconclusive { println!("INCONCLUSIVE property={} {}", self.pid, m); code = 2 } }
    let mut cov = vec![
      ("evaluations", json::n(self.evaluations as i64)),
      ("distinct_nontrivial", json::n(self.distinct.len() as i64)),
      ("rule", json::s(self.rule.clone())),
      ("samples", J::Arr(std::mem::take(&mut self.samples))),
    ];
    let counts: Vec<(String, J)> = self.counts.iter().map(|(k, v)| (k.clone(), json::n(*v as i64))).collect();
    cov.push(("observed", J::Obj(counts)));
    let j = json::obj(vec![
      ("property", json::s(self.pid.clone())), ("tier", json::s(self.tier.clone())), ("seed", json::n(self.seed as i64)),
      ("level", json::s("exploration")), ("coverage", json::obj(cov)),
      ("assumptions", J::Arr(self.assumptions.iter().map(|a| json::s(a.clone())).collect())),
      ("wall_s", J::Num(wall)), ("violations", json::n(self.total_violations as i64)),
    ]);
    let mut o = String::new();
    j.write(&mut o, 0);
    o.push('\n');
    let ev = self.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let _ = std::fs::write(ev.join(format!("{}.json", self.pid)), o);
    let summary: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!("{} {} seed={}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s [{}]", self.pid, self.tier, self.seed, self.evaluations, self.distinct.len(), self.total_violations, wall, summary.join(" "));
    code
  }
}
