//! Inputs for grammars: sentences, near-sentences and noise, chosen for what they make the model do.
use crate::gram::{*, Kd::*};
use crate::model::{self, Out, World};
use crate::rng::Rng;
use std::collections::BTreeSet;

/// Characters worth trying on a grammar.
pub fn alphabet(g: &Gram) -> Vec<char> {
  let mut v: BTreeSet<char> = BTreeSet::new();
  for r in &g.rules {
    r.body.walk(&mut |e| match &e.k {
      Lit(s) => v.extend(s.chars()),
      Cl(c) => for i in c {
        match i {
          Cls::One(c) => { v.insert(*c); }
          Cls::Rng(a, b) => {
            v.insert(*a); v.insert(*b);
            if let Some(x) = char::from_u32((*b as u32) + 1) { v.insert(x); }
          }
        }
      },
      _ => {}
    })
  }
  if v.is_empty() { v.insert('a'); }
  v.into_iter().collect()
}

thread_local! {
  static MOST: std::cell::Cell<usize> = std::cell::Cell::new(150);
  /// How far calls are followed.
  pub static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(7);
}

fn times(rng: &mut Rng, least: usize) -> usize {
  if rng.pct(4) { return rng.range(8, 40) }
  (*rng.pick(&[0, 1, 1, 2, 3])).max(least)
}

pub fn derive(w: &World, gi: usize, e: &Ex, rng: &mut Rng, alpha: &[char], out: &mut String, d: usize) {
  if out.len() > MOST.with(|m| m.get()) { return }
  match &e.k {
    Lit(s) => out.push_str(s),
    Any => out.push(*rng.pick(alpha)),
    Cl(v) => match rng.pick(v).clone() {
      Cls::One(c) => out.push(c),
      Cls::Rng(a, b) => {
        let n = (b as u32).saturating_sub(a as u32) as usize;
        let k = match rng.below(3) { 0 => 0, 1 => n, _ => rng.below(n + 1) };
        out.push(char::from_u32(a as u32 + k as u32).unwrap_or(a))
      }
    },
    Ref(i) => if d > 0 { derive(w, gi, &w.grams[gi].rules[*i].body, rng, alpha, out, d - 1) },
    Ext(i) => match w.grams[gi].exts[*i].sem {
      Sem::Rule(g2, r2) => if d > 0 { derive(w, g2, &w.grams[g2].rules[r2].body, rng, alpha, out, d - 1) },
      Sem::Hand("blank") => for _ in 0..rng.range(0, 2) { out.push(*rng.pick(&['0', '1', '9'])) },
      Sem::Hand("num") => for _ in 0..rng.range(1, 3) { out.push(*rng.pick(&['0', '1', '9'])) },
      Sem::Hand(_) => { let c = *rng.pick(alpha); out.push(c); out.push(c) }
    },
    Seq(v) => for x in v { derive(w, gi, x, rng, alpha, out, d) },
    Alt(v) => {
      // Deep down, prefer branches that do not call rules.
      let flat: Vec<&Ex> = v.iter().filter(|x| { let mut r = false; x.walk(&mut |e| if let Ref(_) = e.k { r = true }); !r }).collect();
      let x = if d < 3 && !flat.is_empty() { *rng.pick(&flat) } else { rng.pick(v) };
      derive(w, gi, x, rng, alpha, out, d)
    }
    Star(x) => for _ in 0..times(rng, 0) { derive(w, gi, x, rng, alpha, out, d.saturating_sub(1)) },
    Plus(x) => for _ in 0..times(rng, 1) { derive(w, gi, x, rng, alpha, out, d.saturating_sub(1)) },
    Opt(x) => if rng.pct(50) { derive(w, gi, x, rng, alpha, out, d) },
    Not(_) | And(_) => {}
    Spn(x) | Rg(x) | Act(x, _) | As(x, _) => derive(w, gi, x, rng, alpha, out, d),
  }
}

pub fn mutate(s: &str, rng: &mut Rng, alpha: &[char]) -> String {
  let mut v: Vec<char> = s.chars().collect();
  for _ in 0..rng.range(1, 2) {
    let at = rng.below(v.len() + 1);
    match rng.below(5) {
      0 => v.insert(at, *rng.pick(alpha)),
      1 => if at < v.len() { v.remove(at); },
      2 => if at < v.len() { v[at] = *rng.pick(alpha) },
      3 => v.truncate(at),
      _ => { let tail: Vec<char> = v[at..].to_vec(); v.extend(tail) }
    }
  }
  v.truncate(if MOST.with(|m| m.get()) > 150 { 900 } else { 80 });
  v.into_iter().collect()
}

pub struct Input { pub text: String, pub out: Out }

/// How many components the delivered value has, less one.
fn parts(o: &Out) -> usize { if o.ok { o.data.matches(',').count() } else { 0 } }
fn key(o: &Out, len: usize) -> (bool, bool, usize, usize) { (o.ok, o.end == len, o.calls.len().min(3), parts(o).min(5)) }

/// Up to `want` inputs for a rule, each adding something to what the model has been seen doing.
pub fn choose(w: &World, rule: usize, rng: &mut Rng, want: usize, tries: usize, seen: &mut BTreeSet<(usize, bool)>) -> Vec<Input> {
  let g = &w.grams[0];
  let mut alpha = alphabet(g);
  for x in &w.grams[1..] { alpha.extend(alphabet(x)) }
  if rng.pct(30) { alpha.push(*rng.pick(&['z', 'é', '漢', '\n', '-'])) }
  // Grammars with long words or long sequences need long sentences.
  let mut big = false;
  for x in &w.grams { for r in &x.rules { r.body.walk(&mut |e| match &e.k { Lit(s) => big |= s.len() > 40, Seq(v) => big |= v.len() > 12, _ => {} }) } }
  let big = big || DEPTH.with(|d| d.get()) > 7;
  MOST.with(|m| m.set(if big { 1500 } else { 150 }));
  let mut cands: Vec<Input> = vec![];
  let mut texts: BTreeSet<String> = BTreeSet::new();
  for t in 0..tries {
    let mut s = String::new();
    match t % 8 {
      0 if t == 0 => {}
      7 => { for _ in 0..rng.below(7) { s.push(*rng.pick(&alpha)) } }
      k => {
        derive(w, 0, &g.rules[rule].body, rng, &alpha, &mut s, DEPTH.with(|d| d.get()));
        if k == 3 || k == 5 { s = mutate(&s, rng, &alpha) }
        if k == 4 { s.push(*rng.pick(&alpha)) }
        if k == 6 { let n = s.chars().count(); s = s.chars().take(rng.below(n + 1)).collect() }
      }
    }
    if s.len() > 6000 || !texts.insert(s.clone()) { continue }
    if let Some(out) = model::run(w, 0, rule, &s, 0, true, 6000) { cands.push(Input { text: s, out }) }
  }
  let mut picked: Vec<Input> = vec![];
  let mut sig: BTreeSet<(bool, bool, usize, usize)> = BTreeSet::new();
  while picked.len() < want && !cands.is_empty() {
    let mut best = (0i64, 0);
    for (i, c) in cands.iter().enumerate() {
      let fresh = c.out.cov.iter().filter(|x| !seen.contains(x)).count() as i64;
      let key = key(&c.out, c.text.len());
      let score = fresh * 10 + if sig.contains(&key) { 0 } else { 6 } + (c.out.backtracks.min(4) + c.out.iters.min(4) + parts(&c.out).min(8) as u64) as i64 + 1;
      if score > best.0 { best = (score, i) }
    }
    let c = cands.swap_remove(best.1);
    seen.extend(c.out.cov.iter().cloned());
    sig.insert(key(&c.out, c.text.len()));
    picked.push(c);
  }
  picked
}
