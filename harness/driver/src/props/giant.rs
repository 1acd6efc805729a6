//! Grammars with hundreds of branches, parts, rules and operators inside of each other.
use super::*;
use crate::gram::{*, Kd::*};
use crate::input;
use crate::model::{self, Typing};

fn word(r: &mut Rng, most: usize) -> String { (0..r.range(1, most)).map(|_| *r.pick(&['a', 'b', 'c', '0', 'é'])).collect() }

fn act(e: Ex, next: &mut u32, r: &mut Rng) -> Ex {
  *next += 1;
  ex(Act(Box::new(e), Action { name: format!("h{}", next), kind: AKind::In(r.below(4) as u32), boxed: false }))
}

fn same(e: Ex, next: &mut u32) -> Ex {
  *next += 1;
  ex(Act(Box::new(e), Action { name: format!("h{}", next), kind: AKind::In(0), boxed: false }))
}

fn chars(r: &mut Rng) -> Ex {
  match r.below(4) { 0 => ex(Any), 1 => ex(Cl(vec![Cls::One('0'), Cls::Rng('a', 'c')])), 2 => ex(Cl(vec![Cls::Rng('a', 'b')])), _ => ex(Cl(vec![Cls::One('é'), Cls::Rng('a', 'z')])) }
}

fn attempt(r: &mut Rng, kind: usize) -> Option<(Gram, Typing)> {
  let mut next = 0;
  let n = r.range(34, 280); // rustc itself overflows its stack on the nesting of some 700 of them
  let mut g = Gram::default();
  let rule = |g: &mut Gram, body: Ex| { let name = format!("r{}", g.rules.len()); g.rules.push(Rule { name, body, lhs: false }) };
  match kind {
    // Many words, some of them beginning others, then something that tells them apart.
    0 => {
      let valued = r.pct(70);
      let v: Vec<Ex> = (0..n).map(|_| {
        let w = lit(&word(r, 6));
        let e = if r.pct(30) { ex(Seq(vec![w, chars(r)])) } else if r.pct(10) { ex(Seq(vec![w, ex(Not(bx(Any)))])) } else { w };
        if valued { same(e, &mut next) } else { ex(As(Box::new(e), Asc::Inv)) }
      }).collect();
      rule(&mut g, ex(Alt(v)));
      rule(&mut g, ex(Seq(vec![ex(Ref(0)), lit("!")])));
      rule(&mut g, ex(Plus(bx(Seq(vec![ex(Ref(0)), ex(Opt(bx(Ref(0)))), lit(";")])))));
    }
    // A long sequence, in groups of values.
    1 => {
      let mut parts = vec![];
      let mut left = n;
      while left > 0 {
        let k = r.range(1, 26).min(left);
        left -= k;
        let v: Vec<Ex> = (0..k).map(|_| match r.below(9) {
          0 => lit(&word(r, 2)),
          1 => ex(Opt(Box::new(chars(r)))),
          2 => ex(Opt(bx(Seq(vec![lit("+"), chars(r), chars(r)])))),
          3 => ex(Plus(bx(Seq(vec![lit("-"), chars(r)])))),
          4 => ex(Alt(vec![ex(Seq(vec![lit("("), chars(r)])), chars(r)])),
          5 => ex(Star(bx(Lit(".".into())))),
          _ => chars(r),
        }).collect();
        parts.push(act(if v.len() == 1 { v.into_iter().next().unwrap() } else { ex(Seq(v)) }, &mut next, r));
        if r.pct(30) { parts.push(ex(Not(bx(Lit("=".into()))))) }
      }
      rule(&mut g, ex(Seq(parts)));
    }
    // Operators inside of operators.
    2 => {
      let deep = r.range(12, 45);
      let mut e = chars(r);
      for k in 0..deep {
        let w = lit(&word(r, 2));
        e = match r.below(7) {
          0 => ex(Opt(bx(Seq(vec![w, e])))),
          1 => ex(Plus(bx(Seq(vec![w, e])))),
          2 => ex(Star(bx(Seq(vec![w, e, lit(",")])))),
          3 => { let a = same(ex(Seq(vec![w, e])), &mut next); let b = same(chars(r), &mut next); ex(Alt(vec![a, b])) }
          4 => { let b = same(lit(&word(r, 3)), &mut next); let a = same(e, &mut next); ex(Alt(vec![b, ex(Seq(vec![w, a]))])) }
          5 => ex(Seq(vec![ex(Not(bx(Lit("!".into())))), w, e])),
          _ => ex(Seq(vec![chars(r), e, w])),
        };
        if k % 3 == 2 { e = act(e, &mut next, r) }
      }
      rule(&mut g, ex(Seq(vec![lit("x"), e])));
      rule(&mut g, ex(Star(bx(Seq(vec![ex(Ref(0)), lit("y")])))));
      if !matches!(g.rules[1].body.k, Star(_)) { return None }
    }
    // Rules calling the rules after them.
    _ => {
      for i in 0..n {
        let far = |r: &mut Rng| ex(Ref((i + 1 + r.below(4)).min(n)));
        let body = match r.below(5) {
          0 => { let a = same(ex(Seq(vec![lit(&word(r, 1)), far(r)])), &mut next); let b = same(chars(r), &mut next); ex(Alt(vec![a, b])) }
          1 => same(ex(Seq(vec![chars(r), far(r)])), &mut next),
          2 => { let a = ex(Seq(vec![far(r), lit("!")])); let b = ex(Seq(vec![lit(&word(r, 2)), far(r)])); ex(Alt(vec![b, a])) }
          3 => ex(Seq(vec![ex(Not(bx(Lit("?".into())))), far(r)])),
          _ => same(ex(Seq(vec![far(r), ex(Opt(bx(Lit(";".into()))))])), &mut next),
        };
        rule(&mut g, body);
      }
      rule(&mut g, same(chars(r), &mut next));
    }
  }
  g.number();
  if !model::well_formed(&g).faults.is_empty() { return None }
  let t = model::infer(&g).ok()?;
  if t.rule.iter().any(|t| t.card() > 32) || t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > 32)) { return None }
  Some((g, t))
}

/// One round of them.
pub fn giants(cx: &mut Cx, many: usize, s: &Spec, aspects: u32, interesting: &dyn Fn(&G, &C) -> bool) {
  let mut gs: Vec<G> = vec![];
  let mut tries = 0;
  input::DEPTH.with(|d| d.set(60));
  while gs.len() < many && tries < 400 {
    tries += 1;
    let mut r = cx.rng.fork();
    if let Some((g, t)) = attempt(&mut r, gs.len() % 4) {
      // A few of the many rules.
      let mut x = pipe::one(&mut r, s, gs.len() as u32, g, t);
      if x.cases.len() > 60 { r.shuffle(&mut x.cases); x.cases.truncate(60) }
      gs.push(x);
    }
  }
  input::DEPTH.with(|d| d.set(7));
  cx.rep.count("giant_grammars", gs.len() as u64);
  let b = pipe::execute(&cx.env, &mut gs, s, 1);
  lost(cx, &gs, &b, Losses::Rustc);
  pipe::judge(&mut cx.rep, &gs, aspects, interesting);
}
