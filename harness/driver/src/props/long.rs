//! Repetitions of more than 65 536 iterations, and calls hundreds of levels deep.
use super::*;
use crate::exec::Strm;
use crate::gen;
use crate::gram::{*, Kd::*};
use crate::input;
use crate::model::{self, World};

fn named(e: Ex, name: &str, boxed: bool) -> Ex { ex(Act(Box::new(e), Action { name: name.into(), kind: AKind::In(1), boxed })) }

#[derive(Clone, Copy, PartialEq)]
enum Shape { Loop, Nest, Capture }

fn attempt(r: &mut Rng, gid: u32, shape: Shape) -> Option<G> {
  let loops = shape != Shape::Nest;
  let cfg = Cfg { rules: (1, 3), depth: 3, size: 9, unit_rules: 30, poly: 0, ..Cfg::base() };
  let (mut g, _) = gen::grammar(r, &cfg);
  if !g.poly.is_empty() || g.rules.len() > 3 { return None }
  let wf = model::well_formed(&g);
  let k = (0..g.rules.len()).find(|i| wf.rules[*i].consume && wf.rules[*i].fail)?;
  let n0 = g.rules.len();
  let e = || ex(Ref(k));
  let (open, close) = *r.pick(&[("(", ")"), ("<<", ">>"), ("[", ""), ("é", "")]);
  let mut shapes: Vec<Ex> = vec![];
  if shape == Shape::Capture {
    let quiet = |x: Ex| ex(As(Box::new(x), Asc::Inv));
    let span = |r: &mut Rng, x: Ex| ex(if r.pct(60) { Spn(Box::new(x)) } else { Rg(Box::new(quiet(x))) });
    let many = |r: &mut Rng, x: Ex| { let x = Box::new(x); quiet(ex(if r.pct(50) { Star(x) } else { Plus(x) })) };
    // The capture of a long text, of what follows one, of both.
    let m = many(r, e());
    shapes.push(span(r, m));
    let (m, n) = (many(r, e()), quiet(ex(Star(bx(Any)))));
    let rest = span(r, n);
    shapes.push(ex(Seq(vec![m, rest])));
    let (m, n) = (many(r, e()), ex(Opt(bx(Any))));
    let inner = span(r, m);
    let inner = ex(Seq(vec![inner, quiet(n)]));
    shapes.push(span(r, inner));
  }
  else if loops {
    let one = ex(Any);
    shapes.push(match r.below(4) {
      0 => ex(Star(Box::new(e()))),
      1 => ex(Plus(Box::new(e()))),
      2 => ex(Plus(bx(Seq(vec![e(), ex(Opt(bx(Lit(",".into()))))])))),
      _ => ex(Star(bx(Alt(vec![e(), ex(Kd::Seq(vec![lit(";"), e()]))])))),
    });
    shapes.push(match r.below(4) {
      0 => ex(Star(Box::new(named(one, "each", r.pct(50))))),
      1 => ex(Plus(bx(Seq(vec![ex(Not(bx(Lit(";".into())))), one])))),
      2 => ex(Seq(vec![ex(Star(bx(Any))), ex(Not(bx(Any)))])),
      _ => named(ex(Plus(bx(Any))), "all", false),
    });
  }
  else {
    // Only what is below differs: the type of a nested rule does not depend on its depth.
    let me = || ex(Ref(n0));
    let inner = match r.below(6) {
      0 | 1 => ex(Seq(vec![lit(open), me(), lit(close)])),
      2 => ex(Seq(vec![lit(open), ex(Plus(bx(Seq(vec![me(), ex(Opt(bx(Lit(";".into()))))])))), lit(close)])),
      3 => ex(Seq(vec![ex(And(bx(Lit(open.into())))), ex(Any), ex(Not(bx(Lit("!".into())))), me(), ex(Opt(bx(Lit(close.into()))))])),
      4 => ex(Seq(vec![lit(open), me(), ex(Opt(bx(Seq(vec![lit("+"), me()])))), lit(close)])),
      _ => ex(Seq(vec![lit(open), ex(Opt(Box::new(me()))), lit(close)])),
    };
    let (a, b) = (r.pct(70), r.pct(50));
    let inner = match &inner.k { Seq(v) => ex(Seq(v.iter().filter(|x| **x != lit("")).cloned().collect())), _ => inner };
    let inner = if a { named(inner, "up", b) } else { ex(As(Box::new(inner), Asc::Inv)) };
    let last = if a { named(e(), "last", b) } else { ex(As(bx(Ref(k)), Asc::Inv)) };
    shapes.push(ex(Alt(vec![inner, last])));
  }
  for (j, s) in shapes.into_iter().enumerate() { g.rules.push(Rule { name: format!("long{}", j), body: s, lhs: false }) }
  let n = g.rules.len();
  g.number();
  if !model::well_formed(&g).faults.is_empty() { return None }
  let t = model::infer(&g).ok()?;
  if t.rule[n0..].iter().any(|t| t.card() > 10) || t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > 12)) { return None }
  let strm = if shape != Shape::Capture { Strm::Mon } else if r.pct(50) { Strm::Str } else { Strm::File };
  let unit = exec::unit(gid, &g, &t, strm, &mut Style::plain());
  let world = World::one(g, t);
  let alpha = input::alphabet(&world.grams[0]);
  // A short text the rule matches whole, also one after the other.
  let mut block: Option<String> = None;
  for _ in 0..60 {
    let mut s = String::new();
    input::derive(&world, 0, &world.grams[0].rules[k].body, r, &alpha, &mut s, 6);
    if s.is_empty() || s.len() > 12 || block.as_ref().map_or(false, |b| b.len() <= s.len()) { continue }
    if let Some(o) = model::run(&world, 0, k, &format!("{}{}", s, s), 0, true, 4000) { if o.ok && o.end == s.len() { block = Some(s) } }
  }
  let block = block?;
  let mut cases = vec![];
  for rule in n0..n {
    let mut texts = vec![];
    if loops {
      let m = r.range(65_537, 67_000);
      texts.push(block.repeat(m));
      texts.push(format!("{}{}", block.repeat(r.range(257, 400)), r.pick(&[";", "!", "é", ","])));
    }
    else {
      for d in [r.range(257, 420), r.range(10, 60)] {
        texts.push(format!("{}{}{}", open.repeat(d), block, close.repeat(d)));
        texts.push(format!("{}{}{}", open.repeat(d), block, close.repeat(d - 1)));
        texts.push(format!("{}!{}", open.repeat(d), close.repeat(d)));
        texts.push(format!("{}{}{}", open.repeat(d), format!("{}{}", block, close).repeat(d / 2), format!("+{}{}", block, close).repeat(d / 2)));
      }
    }
    for text in texts {
      let rec = model::run(&world, 0, rule, &text, 0, false, 3_000_000)?;
      let par = model::run(&world, 0, rule, &text, 0, true, 3_000_000)?;
      cases.push(C { rule, start: 0, text, rec, par, obs_r: None, obs_p: None });
    }
  }
  if loops && !cases.iter().any(|c| c.rec.ok && c.rec.iters > 65_536) { return None }
  if !loops && !cases.iter().any(|c| c.rec.ok && c.rec.end > 257) { return None }
  Some(G { gid, world, strm, unit, cases })
}

/// A round of them.
pub fn longs(cx: &mut Cx, many: usize, s: &Spec, aspects: u32) { some(cx, many, s, aspects, &[Shape::Loop, Shape::Nest]) }

/// A round of captures.
pub fn captures(cx: &mut Cx, many: usize, s: &Spec, aspects: u32) { some(cx, many, s, aspects, &[Shape::Capture]) }

fn some(cx: &mut Cx, many: usize, s: &Spec, aspects: u32, shapes: &[Shape]) {
  let mut gs: Vec<G> = vec![];
  for tries in 0..600 {
    if gs.len() >= many { break }
    let mut r = cx.rng.fork();
    let shape = shapes[gs.len() % shapes.len()];
    let g = std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || {
      model::DEPTH.with(|d| d.set(20_000));
      attempt(&mut r, tries, shape)
    }).unwrap().join().unwrap());
    if let Some(g) = g { gs.push(g) }
  }
  cx.rep.count("long_grammars", gs.len() as u64);
  let b = pipe::execute(&cx.env, &mut gs, s, 4);
  lost(cx, &gs, &b, Losses::Rustc);
  for g in &gs { for c in &g.cases { cx.rep.max("longest_repetition", c.rec.iters) } }
  pipe::judge(&mut cx.rep, &gs, aspects, &|_, _| true);
}
