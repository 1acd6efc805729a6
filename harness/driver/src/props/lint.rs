//! P16: warnings about redundant chains, and what they advise.
use super::*;
use crate::gen;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model::{self, World};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op { And, Not, Opt, Plus, Star }

/// Redundant pairs, outer and inner, that can stand in an accepted grammar; and whether a chain reaching through a rule
/// call is left alone because the called rule would have to change.
const PAIRS: &[(Op, Op, &str, bool)] = &[
  (Op::Not, Op::Not, "!(!e)", true), (Op::And, Op::And, "&(&e)", false), (Op::Not, Op::And, "!(&e)", true), (Op::And, Op::Not, "&(!e)", false),
  (Op::Opt, Op::Opt, "(e?)?", false), (Op::Opt, Op::Plus, "(e+)?", true), (Op::Opt, Op::Star, "(e*)?", false),
  (Op::Plus, Op::Plus, "(e+)+", false), (Op::Star, Op::Plus, "(e+)*", false),
  // Repetitions of what may match nothing are refused.
  (Op::Star, Op::Star, "(e*)*", false),
];

fn op(e: &Ex) -> Option<(Op, &Ex)> {
  match &e.k { And(x) => Some((Op::And, x)), Not(x) => Some((Op::Not, x)), Opt(x) => Some((Op::Opt, x)), Plus(x) => Some((Op::Plus, x)), Star(x) => Some((Op::Star, x)), _ => None }
}

/// The operator an expression amounts to when looked at through actions, ascriptions, captures, rule calls.
fn seen(g: &Gram, e: &Ex, depth: usize) -> (Option<Op>, bool) {
  if depth == 0 { return (None, false) }
  if let Some((o, _)) = op(e) { return (Some(o), false) }
  match &e.k {
    Act(x, _) | As(x, _) | Spn(x) | Rg(x) => seen(g, x, depth - 1),
    Ref(i) => (seen(g, &g.rules[*i].body, depth - 1).0, true),
    Alt(v) => {
      let mut crossed = false;
      for x in v { match seen(g, x, depth - 1) { (Some(Op::And), c) => crossed |= c, _ => return (None, false) } }
      (Some(Op::And), crossed)
    }
    _ => (None, false),
  }
}

/// Per rule and form: how many warnings there must be, and how many more there may be.
type Want = BTreeMap<(usize, &'static str), (u32, u32)>;

fn visit(g: &Gram, rule: usize, e: &Ex, sure: bool, want: &mut Want) {
  let mut sure = sure;
  if let Some((o, x)) = op(e) {
    let direct = op(x).map(|p| p.0);
    let (inner, crossed) = match direct { Some(i) => (Some(i), false), None => seen(g, x, 40) };
    if let Some(p) = PAIRS.iter().find(|p| p.0 == o && Some(p.1) == inner) {
      if direct.is_some() && sure { want.entry((rule, p.2)).or_default().0 += 1; sure = false }
      else if !(crossed && p.3) { want.entry((rule, p.2)).or_default().1 += 1; sure = false }
    }
  }
  for k in e.kids() { visit(g, rule, k, sure, want) }
}

fn apply(advice: &str, e: &Ex) -> Option<Ex> {
  let x = || Box::new(e.clone());
  Some(match advice { "e" => e.clone(), "!e" => ex(Not(x())), "&e" => ex(And(x())), "e?" => ex(Opt(x())), "e+" => ex(Plus(x())), "e*" => ex(Star(x())), _ => return None })
}

/// Replaces the directly nested pairs the compiler gave advice on.
fn rewrite(e: &mut Ex, advice: &BTreeMap<String, String>, n: &mut u32) {
  if let Some((o, x)) = op(e) {
    if let Some((i, y)) = op(x) {
      if let Some(p) = PAIRS.iter().find(|p| p.0 == o && p.1 == i) {
        if let Some(new) = advice.get(p.2).and_then(|a| apply(a, y)) { *n += 1; e.k = new.k }
      }
    }
  }
  for k in e.kids_mut() { rewrite(k, advice, n) }
}

/// Wraps random expressions in chains and in what only looks like chains.
fn inject(g: &mut Gram, r: &mut Rng) {
  for _ in 0..r.range(1, 4) {
    g.number();
    let k = r.below(g.nodes);
    let what = r.below(15);
    let (a, b) = (r.below(5), r.below(5));
    let n = g.rules.len();
    let to = r.below(n);
    let silent = r.pct(60);
    let mut done = false;
    for x in &mut g.rules {
      x.body.walk_mut(&mut |e| if e.id == k && !done {
        done = true;
        let old = Ex { id: 0, k: e.k.clone() };
        let un = |k: usize, e: Ex| -> Ex { let e = Box::new(e); ex(match k { 0 => And(e), 1 => Not(e), 2 => Opt(e), 3 => Plus(e), _ => Star(e) }) };
        let new = match what {
          // Pairs, chains of three.
          0..=6 => un(a, un(b, old)),
          7 => { let c = (a + 2 * b) % 5; un(a, un(b, un(c, old))) }
          // Through something.
          8 => un(a, ex(As(Box::new(un(b, old)), Asc::Unit))),
          9 => un(a, ex(Ref(to))),
          10 => un(a, ex(Alt(vec![ex(And(Box::new(old.clone()))), ex(And(bx(Lit("y".into()))))]))),
          // Near misses.
          11 => un(a, ex(Seq(vec![un(b, old), lit("t")]))),
          12 => un(a, ex(Seq(vec![lit("t"), un(b, old)]))),
          13 => un(a, ex(Alt(vec![un(b, old), un(b, lit("y"))]))),
          _ => ex(Seq(vec![un(a, old), un(b, lit("y"))])),
        };
        // Predicates consume nothing: something that does stands beside.
        e.k = if silent { Seq(vec![new, lit("u")]) } else { new.k };
      })
    }
  }
  for x in &mut g.rules {
    let b = std::mem::replace(&mut x.body, ex(Any));
    x.body = ex(As(Box::new(b), Asc::Unit));
    x.lhs = r.pct(30);
  }
  g.poly.clear();
  g.number();
}

fn grammar(r: &mut Rng, chains: bool) -> Option<(Gram, crate::model::Typing)> {
  let cfg = Cfg { rules: (1, 4), depth: 5, size: 16, pred: 8, rep: 9, opt: 7, act: 2, span: 1, poly: 0, ..Cfg::base() };
  let (mut g, t) = gen::grammar(r, &cfg);
  if !chains { return Some((g, t)) }
  for _ in 0..12 {
    let mut h = g.clone();
    inject(&mut h, r);
    if h.size() > 120 || !model::well_formed(&h).faults.is_empty() { continue }
    if let Ok(t) = model::infer(&h) {
      g = h;
      if g.actions().iter().any(|(c, _)| t.of(c).card() > 10) || t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > 12)) { return None }
      return Some((g, t))
    }
  }
  None
}

/// The form and the advice of a warning.
fn read(msg: &str) -> Option<(String, String)> {
  if !msg.contains("unnecessary chaining") { return None }
  let q: Vec<&str> = msg.split('`').collect();
  if q.len() < 5 { return Some((String::new(), String::new())) }
  Some((q[1].to_string(), q[3].to_string()))
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "grammar and rule with a redundant chain, or with a nest of operators that is not one (captured per rule); grammar, rule and input on which original and advised rewriting ran".into();
  let mut n = 0;
  while cx.more(n) {
    let s = Spec { parsers: false, inputs: 8, offset: 5, wild: 0, ..spec(vec![(1, Cfg::base())], 0) };
    let mut gs: Vec<G> = vec![];
    let want_n = if cx.rep.quick() { 440 } else { 500 };
    while gs.len() < want_n {
      let chains = gs.len() % 10 > 0;
      if let Some((g, t)) = grammar(&mut cx.rng, chains) {
        let gid = gs.len() as u32;
        let mut r = cx.rng.fork();
        gs.push(pipe::one(&mut r, &s, gid, g, t));
      }
    }
    let b = pipe::execute(&cx.env, &mut gs, &s, 10);
    lost(cx, &gs, &b, Losses::Rustc);
    // What the compiler said.
    let mut twins: Vec<(usize, G)> = vec![];
    for (gi, g) in gs.iter().enumerate() {
      let c = match b.compiled.get(&g.gid) { Some(c) if c.ok => c, _ => continue };
      let gram = g.gram();
      let mut want = Want::new();
      for (i, r) in gram.rules.iter().enumerate() { visit(gram, i, &r.body, true, &mut want) }
      let mut got: BTreeMap<(usize, String), u32> = BTreeMap::new();
      let mut advice: BTreeMap<String, String> = BTreeMap::new();
      for d in c.warnings() {
        let (form, adv) = match read(&d.msg) { Some(x) => x, None => continue };
        cx.rep.count("warnings", 1);
        let rule = (0..gram.rules.len()).find(|i| g.unit.src.lines().nth(d.line.wrapping_sub(1)).map_or(false, |l| l.starts_with(&format!("{} =", gram.rules[*i].name)) || l.starts_with(&format!("{}:", gram.rules[*i].name))));
        match rule {
          Some(i) if d.file => { *got.entry((i, form.clone())).or_default() += 1 }
          _ => cx.rep.violation(&format!("place:{}", crate::rng::hash(&g.unit.src)), format!("warning not located in a rule: line {}: {}\nin:\n{}", d.line, d.msg, g.unit.src), format!("{:#?}", d)),
        }
        advice.insert(form, adv);
      }
      for (i, r) in gram.rules.iter().enumerate() {
        let mut forms: Vec<String> = PAIRS.iter().map(|p| p.2.to_string()).collect();
        forms.extend(got.keys().filter(|k| k.0 == i && !PAIRS.iter().any(|p| p.2 == k.1)).map(|k| k.1.clone()));
        let mut nests = 0;
        r.body.walk(&mut |e| if let Some((_, x)) = op(e) { let mut y = false; x.walk(&mut |k| y |= op(k).is_some()); if y { nests += 1 } });
        if nests > 0 { cx.rep.nontrivial(&format!("{}\u{1}{}", gram.text(), r.name)) }
        cx.rep.evaluations += 1;
        for f in forms {
          let (must, may) = want.iter().find(|(k, _)| k.0 == i && k.1 == f).map(|x| *x.1).unwrap_or((0, 0));
          let seen = got.get(&(i, f.clone())).cloned().unwrap_or(0);
          cx.rep.count("chains_to_report", must as u64);
          cx.rep.count("chains_reportable", may as u64);
          if seen < must || seen > must + may {
            cx.rep.violation(&format!("{}:{}:{}", crate::rng::hash(&gram.text()), r.name, f), format!("rule {}: {} warnings about `{}`, where there {} {} such chains ({} more may be reported)\nin grammar:\n{}", r.name, seen, f, if must == 1 { "is" } else { "are" }, must, may, gram.text()),
              format!("{}\n{:#?}", g.unit.src, c.diags));
          }
        }
      }
      cx.rep.sample(3, || json::obj(vec![("grammar", json::s(gram.text())), ("warnings", json::s(format!("{:?}", got))), ("required_optional", json::s(format!("{:?}", want)))]));
      // The grammar as advised.
      let mut h = gram.clone();
      let mut k = 0;
      for r in &mut h.rules { rewrite(&mut r.body, &advice, &mut k) }
      if k == 0 { continue }
      h.number();
      let t = match model::infer(&h) { Ok(t) => t, Err(_) => continue };
      if !model::well_formed(&h).faults.is_empty() { cx.rep.count("advised_grammars_ill_formed", 1); continue }
      let gid = 10000 + gi as u32;
      let unit = exec::unit(gid, &h, &t, g.strm, &mut Style::plain());
      let world = World::one(h, t);
      let cases = g.cases.iter().map(|c| C { rule: c.rule, start: c.start, text: c.text.clone(), rec: c.rec.clone(), par: c.par.clone(), obs_r: None, obs_p: None }).collect();
      cx.rep.count("chains_rewritten", k as u64);
      twins.push((gi, G { gid, world, strm: g.strm, unit, cases }));
    }
    let at: Vec<usize> = twins.iter().map(|t| t.0).collect();
    let mut hs: Vec<G> = twins.into_iter().map(|t| t.1).collect();
    let b2 = pipe::execute(&cx.env, &mut hs, &s, 10);
    lost(cx, &hs, &b2, Losses::Rustc);
    for (h, i) in hs.iter().zip(&at) {
      let g = &gs[*i];
      for (c, d) in g.cases.iter().zip(&h.cases) {
        let (x, y) = match (&c.obs_r, &d.obs_r) { (Some(x), Some(y)) => (x, y), _ => continue };
        cx.rep.evaluations += 1;
        cx.rep.count("pairs_compared", 1);
        cx.rep.count(if x.status == "ok" { "pairs_matching" } else { "pairs_failing" }, 1);
        let name = &g.gram().rules[c.rule].name;
        cx.rep.nontrivial(&format!("{}\u{1}{}\u{1}{}", g.gram().text(), name, c.text));
        if x.status != y.status || (x.status == "ok" && x.end != y.end) {
          cx.rep.violation(&format!("advice:{}:{}:{}", crate::rng::hash(&g.gram().text()), name, c.text),
            format!("recognize_{} on {:?} from {}: {} up to {}, but rewritten as advised {} up to {}\nin grammar:\n{}\nas advised:\n{}", name, c.text, c.start, x.status, x.end, y.status, y.end, g.gram().text(), h.gram().text()), describe(g, c, "recognize"));
        }
      }
    }
    n += 1;
  }
}
