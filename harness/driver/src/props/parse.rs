//! Properties judged on whole parses of random grammars against the reference model.
use super::*;
use crate::exec::*;
use crate::gram::{*, Kd::*};
use crate::gen;
use crate::input;
use crate::json;
use crate::model::{self, World};
use std::collections::BTreeSet;

fn deep() -> Cfg { Cfg { rules: (1, 3), depth: 9, size: 60, ..Cfg::base() } }
fn many() -> Cfg { Cfg { rules: (8, 14), depth: 4, size: 12, refs: 16, ..Cfg::base() } }
fn wide() -> Cfg { Cfg { wide: 100, rules: (1, 3), ..Cfg::base() } }

fn mixed() -> Vec<(u32, Cfg)> {
  vec![(6, Cfg::base()), (2, deep()), (1, many()), (2, wide()),
    (1, Cfg { pred: 14, rep: 10, opt: 8, ..Cfg::base() }),
    (1, Cfg { alt: 22, lit: 16, seq: 16, ..Cfg::base() })]
}

fn works(c: &C) -> bool { c.rec.backtracks > 0 || c.rec.iters > 1 || c.rec.cov.iter().filter(|x| !x.1).count() > 1 }

pub fn language(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and input for which the reference evaluation backtracked over consumed input, iterated a repetition more than once, or saw several expressions fail".into();
  let mut n = 0;
  while cx.more(n) {
    let s = Spec { parsers: false, inputs: 15, ..spec(mixed(), 420) };
    round(cx, &s, OUTCOME | CLASS | STREAM, Losses::Rustc, &|_, c| works(c));
    compose::composed(cx, 50, &s, OUTCOME | CLASS | STREAM, &|_, c| works(c));
    giant::giants(cx, 12, &s, OUTCOME | CLASS | STREAM, &|_, c| works(c));
    long::longs(cx, 6, &s, OUTCOME | CLASS | STREAM);
    n += 1;
  }
}

pub fn agreement(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule delivering a value and input for which both functions ran, with backtracking, repetition or several failures in the reference evaluation".into();
  let mut n = 0;
  while cx.more(n) {
    let mut c = mixed();
    c.push((2, Cfg { act: 14, asc: 6, hand: 4, unit_rules: 10, ..Cfg::base() }));
    c.push((2, Cfg { span: 5, range: 4, ..Cfg::base() }));
    let s = Spec { inputs: 14, ..spec(c, 360) };
    round(cx, &s, AGREE | STREAM, Losses::Rustc, &|g, c| works(c) && !g.typing().rule[c.rule].is_unit());
    compose::composed(cx, 50, &s, AGREE | STREAM, &|g, c| works(c) && !g.typing().rule[c.rule].is_unit());
    giant::giants(cx, 12, &s, AGREE | STREAM, &|g, c| works(c) && !g.typing().rule[c.rule].is_unit());
    long::longs(cx, 6, &s, AGREE);
    n += 1;
  }
}

pub fn values(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and matching input whose delivered value has at least two components".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { unit_rules: 5, class: 12, any: 3, seq: 16, act: 6, lit: 6, rich: 60, ..Cfg::base() };
    let c = vec![(5, v.clone()), (3, Cfg { wide: 100, ..v.clone() }), (2, Cfg { depth: 9, size: 60, rules: (1, 3), ..v.clone() }), (2, Cfg { act: 16, asc: 6, hand: 4, ..v.clone() }), (2, Cfg { span: 6, range: 4, ..v })];
    let s = Spec { recognizers: false, inputs: 14, ..spec(c, 360) };
    round(cx, &s, DATA | OUTCOME, Losses::Rustc, &|_, c| c.par.ok && c.par.data.matches(',').count() > 0);
    compose::composed(cx, 50, &s, DATA | OUTCOME, &|_, c| c.par.ok && c.par.data.matches(',').count() > 0);
    giant::giants(cx, 12, &s, DATA | OUTCOME, &|_, c| c.par.ok && c.par.data.matches(',').count() > 0);
    long::longs(cx, 8, &s, DATA | OUTCOME);
    n += 1;
  }
}

pub fn actions(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and input whose reference evaluation calls actions, or meets an action where it must not be called (recognizer, predicate, unit)".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { unit_rules: 20, act: 18, pred: 6, asc: 8, class: 8, alt: 12, ..Cfg::base() };
    let c = vec![(5, v.clone()), (2, Cfg { depth: 9, size: 60, rules: (1, 3), ..v.clone() }), (2, Cfg { wide: 100, ..v.clone() }), (2, Cfg { hand: 4, range: 4, span: 3, ..v.clone() }), (1, Cfg { poly: 60, ..v })];
    let s = Spec { inputs: 14, ..spec(c, 340) };
    round(cx, &s, CALLS | DATA | OUTCOME, Losses::Rustc, &|g, c| !c.par.calls.is_empty() || (c.par.ok && g.gram().has(&|e| matches!(e.k, Act(..)))));
    compose::composed(cx, 80, &s, CALLS | DATA | OUTCOME, &|g, c| !c.par.calls.is_empty() || (c.par.ok && g.gram().has(&|e| matches!(e.k, Act(..)))));
    giant::giants(cx, 12, &s, CALLS | DATA | OUTCOME, &|g, c| !c.par.calls.is_empty() || (c.par.ok && g.gram().has(&|e| matches!(e.k, Act(..)))));
    long::longs(cx, 8, &s, CALLS | OUTCOME);
    n += 1;
  }
}

pub fn failures(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and input whose furthest failure lies after the start of the parse, or has several expected items".into();
  let mut n = 0;
  while cx.more(n) {
    let mut c = mixed();
    c.push((2, Cfg { pred: 14, class: 10, any: 5, ..Cfg::base() }));
    c.push((2, Cfg { unicode: 100, class: 14, ..Cfg::base() }));
    c.push((1, Cfg { hand: 4, act: 8, ..Cfg::base() }));
    let s = Spec { inputs: 15, ..spec(c, 360) };
    round(cx, &s, FAIL | OUTCOME, Losses::Rustc, &|_, c| c.par.far > c.start || c.par.exp.len() > 1);
    compose::composed(cx, 50, &s, FAIL | OUTCOME, &|_, c| c.par.far > c.start || c.par.exp.len() > 1);
    giant::giants(cx, 12, &s, FAIL | OUTCOME, &|_, c| c.par.far > c.start || c.par.exp.len() > 1);
    long::longs(cx, 8, &s, FAIL | OUTCOME);
    n += 1;
  }
}

pub fn spans(cx: &mut Cx) {
  cx.rep.rule = "grammar with captures, rule and matching input delivering at least one span or range".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { span: 12, range: 9, act: 8, unit_rules: 8, unicode: 40, wide: 8, ..Cfg::base() };
    let c = vec![(4, v.clone()), (2, Cfg { alt: 20, opt: 8, rep: 10, ..v.clone() }), (2, Cfg { depth: 8, size: 45, rules: (1, 3), ..v.clone() }), (1, Cfg { span: 16, range: 0, ..v.clone() }), (2, Cfg { span: 0, range: 16, ..v.clone() }), (1, Cfg { hand: 4, asc: 8, ..v })];
    let s = Spec { inputs: 14, offset: 25, ..spec(c, 360) };
    round(cx, &s, DATA | OUTCOME | CALLS | TYPE, Losses::All, &|_, c| c.par.ok && (c.par.data.contains('<') || c.par.data.contains('{') || c.par.calls.iter().any(|x| x.contains('<') || x.contains('{'))));
    long::captures(cx, 4, &s, DATA | OUTCOME);
    n += 1;
  }
}

pub fn types(cx: &mut Cx) {
  cx.rep.rule = "grammar and rule whose parser's static type, as reported by the running program, is not (), char or a single list or option of them; recursive-type cycles".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { unit_rules: 25, asc: 8, act: 9, ..Cfg::base() };
    let c = vec![(5, v.clone()), (2, Cfg { wide: 100, ..v.clone() }), (2, Cfg { depth: 9, size: 50, rules: (1, 3), ..v.clone() }), (2, Cfg { poly: 100, ..v.clone() }), (2, Cfg { hand: 5, asc: 14, ..v.clone() }), (2, Cfg { span: 6, range: 5, ..v.clone() }), (1, many())];
    let s = Spec { recognizers: false, inputs: 2, tries: 8, offset: 0, ..spec(c, 320) };
    let (gs, b) = round(cx, &s, TYPE, Losses::All, &|g, c| g.typing().rule[c.rule].real().matches(|c| c == '<' || c == ',').count() > 1);
    for g in &gs {
      let c = match b.compiled.get(&g.gid) { Some(c) if c.ok => c, _ => continue };
      let w: Vec<&str> = c.diags.iter().filter(|d| d.level == "warning" && d.msg.contains("infinite recursive type")).map(|d| d.msg.as_str()).collect();
      cx.rep.evaluations += 1;
      for i in 0..g.gram().rules.len() {
        let name = &g.gram().rules[i].name;
        let named = w.iter().any(|m| m.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == name));
        if g.gram().poly.contains(&i) != named {
          cx.rep.violation(&format!("cycle:{}:{}", crate::rng::hash(&g.gram().text()), name),
            format!("rule {} is {} a cycle of recursive types, but the warnings {} it: {:?}\nin grammar:\n{}", name, if named { "not on" } else { "on" }, if named { "name" } else { "do not name" }, w, g.gram().text()), g.unit.src.clone());
        }
      }
      if !g.gram().poly.is_empty() { cx.rep.count("recursive_type_cycles", 1); cx.rep.nontrivial(&format!("cycle {}", g.gram().text())) }
    }
    n += 1;
  }
}

// ---------------------------------------------------------------------------------------------------------------

/// Replaces predicates by equivalent ones.
fn rewrite_preds(e: &mut Ex, r: &mut Rng, pct: u32) -> u32 {
  let mut n = 0;
  for k in e.kids_mut() { n += rewrite_preds(k, r, pct) }
  if r.pct(pct) {
    match &e.k {
      And(x) => { let x = (**x).clone(); e.k = Not(bx(Not(Box::new(x)))); n += 1 }
      Not(x) => {
        let x = (**x).clone();
        e.k = if r.pct(60) { Not(bx(And(Box::new(x)))) } else { And(bx(Not(Box::new(x)))) };
        n += 1
      }
      _ => {}
    }
  }
  n
}

pub fn predicates(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and input for which the reference evaluation met a predicate in the rule's reach, at least one of them with an operand that consumes".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { pred: 26, rep: 8, opt: 6, lit: 8, any: 4, ..Cfg::base() };
    let c = vec![(5, v.clone()), (2, Cfg { depth: 9, size: 50, rules: (1, 3), ..v.clone() }), (2, Cfg { act: 12, asc: 6, hand: 4, ..v.clone() }), (1, Cfg { span: 6, range: 6, ..v })];
    let s = Spec { inputs: 10, ..spec(c, 150) };
    let mut gs = pipe::build(&mut cx.rng, &s, 0);
    gs.retain(|g| g.gram().has(&|e| matches!(e.k, And(_) | Not(_))));
    // The same grammars with equivalent predicates.
    let mut twins = vec![];
    for (i, g) in gs.iter().enumerate() {
      let mut h = g.gram().clone();
      let mut k = 0;
      for r in &mut h.rules { k += rewrite_preds(&mut r.body, &mut cx.rng, 70) }
      if k == 0 { continue }
      h.number();
      let t = match model::infer(&h) { Ok(t) => t, Err(_) => continue };
      let gid = 10000 + i as u32;
      let unit = exec::unit(gid, &h, &t, g.strm, &mut Style::plain());
      let world = World::one(h, t);
      let cases = g.cases.iter().filter_map(|c| Some(C { rule: c.rule, start: c.start, text: c.text.clone(),
        rec: model::run(&world, 0, c.rule, &c.text, c.start, false, 40000)?, par: model::run(&world, 0, c.rule, &c.text, c.start, true, 40000)?, obs_r: None, obs_p: None })).collect();
      twins.push((i, G { gid, world, strm: g.strm, unit, cases }));
      cx.rep.count("predicates_rewritten", k as u64);
    }
    let ids: Vec<usize> = twins.iter().map(|t| t.0).collect();
    let base = gs.len();
    gs.extend(twins.into_iter().map(|t| t.1));
    let b = pipe::execute(&cx.env, &mut gs, &s, 8);
    lost(cx, &gs, &b, Losses::All);
    pipe::judge(&mut cx.rep, &gs, OUTCOME | STREAM | DATA | CALLS, &|g, c| {
      let mut ids = BTreeSet::new();
      for r in &g.gram().rules { r.body.walk(&mut |e| if matches!(e.k, And(_) | Not(_)) { ids.insert(e.id); }) }
      c.rec.cov.iter().any(|x| ids.contains(&x.0))
    });
    for (k, i) in ids.iter().enumerate() {
      let (g, h) = (&gs[*i], &gs[base + k]);
      for d in &h.cases {
        let c = match g.cases.iter().find(|c| c.rule == d.rule && c.start == d.start && c.text == d.text) { Some(c) => c, None => continue };
        for (x, y, m) in [(&c.obs_r, &d.obs_r, "recognize"), (&c.obs_p, &d.obs_p, "parse")] {
          if let (Some(x), Some(y)) = (x, y) {
            cx.rep.evaluations += 1;
            cx.rep.count("pairs_compared", 1);
            if x.status != y.status || (x.status == "ok" && (x.end != y.end || x.data != y.data)) || x.calls != y.calls {
              let name = &g.gram().rules[c.rule].name;
              cx.rep.violation(&format!("{}:{}:{}", crate::rng::hash(&g.gram().text()), name, c.text),
                format!("{}_{} on {:?}: {} up to {} {}, but with equivalent predicates {} up to {} {}\nin grammar:\n{}\nrewritten:\n{}", m, name, c.text, x.status, x.end, x.data, y.status, y.end, y.data, g.gram().text(), h.gram().text()),
                describe(g, c, m));
            }
          }
        }
      }
    }
    n += 1;
  }
}

// ---------------------------------------------------------------------------------------------------------------

/// Adds rules that repeat rule 0 and inputs that make them iterate many times.
fn loops(cx: &mut Cx, gid: u32, cfg: &Cfg, times: &[usize]) -> Option<(G, Vec<(usize, usize, usize)>)> {
  let r = &mut cx.rng;
  let (mut g, _) = gen::grammar(r, cfg);
  if !g.poly.is_empty() || g.rules.len() > 3 { return None }
  let wf = model::well_formed(&g);
  let k = (0..g.rules.len()).find(|i| wf.rules[*i].consume && wf.rules[*i].fail)?;
  let n0 = g.rules.len();
  let e = || ex(Ref(k));
  let shapes: Vec<Ex> = vec![
    ex(Star(Box::new(e()))), ex(Plus(Box::new(e()))),
    ex(Star(bx(Seq(vec![e(), ex(Opt(bx(Lit(",".into()))))])))),
    ex(Star(bx(Alt(vec![e(), ex(Kd::Seq(vec![lit(";"), e()]))])))),
    ex(Seq(vec![ex(Star(bx(Seq(vec![ex(Not(bx(Lit(";".into())))), e()])))), ex(Opt(bx(Lit(";".into()))))])),
    ex(Star(bx(Seq(vec![ex(Plus(Box::new(e()))), ex(Opt(bx(Lit(";".into()))))])))),
    ex(As(bx(Star(Box::new(e()))), Asc::Unit)),
    ex(Seq(vec![ex(And(bx(Star(Box::new(e()))))), ex(Star(Box::new(e())))])),
  ];
  let which: Vec<usize> = (0..3).map(|_| r.below(shapes.len())).collect();
  for (j, w) in which.iter().enumerate() { g.rules.push(Rule { name: format!("loop{}", j), body: shapes[*w].clone(), lhs: false }) }
  g.number();
  if !model::well_formed(&g).faults.is_empty() { return None }
  let t = model::infer(&g).ok()?;
  if t.rule[n0..].iter().any(|t| t.card() > 10) || t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > 12)) { return None }
  let unit = exec::unit(gid, &g, &t, Strm::Mon, &mut Style::plain());
  let world = World::one(g, t);
  let alpha = input::alphabet(&world.grams[0]);
  // Blocks the rule matches whole, also one after the other.
  let mut blocks = vec![];
  for _ in 0..60 {
    let mut s = String::new();
    input::derive(&world, 0, &world.grams[0].rules[k].body, r, &alpha, &mut s, 6);
    if s.is_empty() || s.len() > 24 { continue }
    if let Some(o) = model::run(&world, 0, k, &format!("{}{}", s, s), 0, true, 4000) { if o.ok && o.end == s.len() { blocks.push(s) } }
    if blocks.len() == 3 { break }
  }
  if blocks.is_empty() { return None }
  let cycle: String = blocks.concat();
  let mut cases = vec![];
  let mut groups = vec![];
  for rule in n0..n0 + 3 {
    let at = cases.len();
    for m in times {
      let text = cycle.repeat((*m / blocks.len()).max(1));
      let rec = model::run(&world, 0, rule, &text, 0, false, 6_000_000)?;
      let par = model::run(&world, 0, rule, &text, 0, true, 6_000_000)?;
      if !rec.ok || rec.iters < (*m / blocks.len()) as u64 { return None }
      cases.push(C { rule, start: 0, text, rec, par, obs_r: None, obs_p: None });
    }
    groups.push((at, cases.len() - 1, rule));
  }
  Some((G { gid, world, strm: Strm::Mon, unit, cases }, groups))
}

/// Expressions around a rule of another grammar that never fails and may consume nothing.
fn around_blank(r: &mut Rng, depth: u32, known: usize) -> Ex {
  let blank = |r: &mut Rng| ex(As(bx(Kd::Ext(0)), match r.below(3) { 0 => Asc::Unit, 1 => Asc::Inv, _ => Asc::Rust("N<8>".into()) }));
  if depth == 0 {
    return match r.below(9) { 0..=4 => blank(r), 5 => lit("a"), 6 => lit(","), 7 => lit("1"), _ => if known > 0 { ex(Ref(r.below(known))) } else { ex(Cl(vec![Cls::Rng('a', 'c')])) } }
  }
  let d = depth - 1;
  match r.below(11) {
    0..=2 => ex(Star(Box::new(around_blank(r, d, known)))),
    3..=4 => ex(Plus(Box::new(around_blank(r, d, known)))),
    5 => ex(Seq((0..r.range(2, 3)).map(|_| around_blank(r, d, known)).collect())),
    6 => ex(Alt((0..r.range(2, 3)).map(|_| around_blank(r, d, known)).collect())),
    7 => ex(Opt(Box::new(around_blank(r, d, known)))),
    8 => if r.pct(50) { ex(And(Box::new(around_blank(r, d, known)))) } else { ex(Not(Box::new(around_blank(r, d, known)))) },
    9 => ex(As(Box::new(around_blank(r, d, known)), if r.pct(50) { Asc::Unit } else { Asc::Inv })),
    _ => around_blank(r, d, known),
  }
}

/// Repetitions of such a rule: oak cannot know that it matches nothing.
fn blanks(cx: &mut Cx, s: &Spec) {
  let r = &mut cx.rng;
  let mut gs: Vec<G> = vec![];
  for _ in 0..40_000 {
    if gs.len() >= 60 { break }
    let mut g = Gram { exts: vec![ExtDef { path: "hand::blank".into(), ty: "N<8>".into(), sem: Sem::Hand("blank") }], ..Gram::default() };
    for i in 0..r.range(1, 4) {
      for _ in 0..30 {
        let depth = 1 + r.below(4) as u32;
        let body = around_blank(r, depth, i);
        let mut h = g.clone();
        h.rules.push(Rule { name: format!("r{}", h.rules.len()), body, lhs: false });
        h.number();
        if !model::well_formed(&h).faults.is_empty() { continue }
        match model::infer(&h) { Ok(t) if t.rule.iter().all(|t| t.card() <= 10) && t.ty.iter().all(|t| t.as_ref().map_or(true, |t| t.card() <= 12)) => {} _ => continue }
        g = h;
        break
      }
      if g.rules.len() <= i { break }
    }
    if g.rules.is_empty() || !g.has(&|e| matches!(&e.k, Star(x) | Plus(x) if { let mut k = false; x.walk(&mut |e| k |= matches!(e.k, Kd::Ext(_))); k })) { continue }
    let t = match model::infer(&g) { Ok(t) => t, Err(_) => continue };
    let x = pipe::one(r, s, gs.len() as u32, g, t);
    if x.cases.iter().any(|c| c.rec.idle > 0) { gs.push(x) }
  }
  let b = pipe::execute(&cx.env, &mut gs, s, 5);
  lost(cx, &gs, &b, Losses::All);
  pipe::judge(&mut cx.rep, &gs, TERMS | OUTCOME | DATA, &|_, c| c.rec.idle > 0);
  cx.rep.count("iterations_that_consume_nothing", gs.iter().flat_map(|g| &g.cases).map(|c| c.rec.idle).sum());
}

/// A rule that calls itself after such a rule.
fn blank_recursion(cx: &mut Cx) {
  let src = "use oak::oak;\nuse oakrt::*;\noak! {\n  type Stream<'a> = StrStream<'a>;\n  r = \"x\" / hand::blank:(^) r\n}";
  let unit = Unit { gid: 1, src: src.into(), entries: vec![] };
  let g = Gram { rules: vec![Rule { name: "r".into(), body: lit("x"), lhs: false }], ..Gram::default() };
  let unit = Unit { entries: exec::entries_of(1, &g, Strm::Str, ""), ..unit };
  let jobs: Vec<Job> = ["12x", "1y"].iter().map(|t| Job { gid: 1, rule: "r".into(), mode: "R", start: 0, budget: 4000, text: t.to_string() }).collect();
  let b = exec::batch(&cx.env, &[unit], &jobs, 1);
  for (j, o) in jobs.iter().zip(&b.obs) {
    if o.status == "uncompiled" { return }
    cx.rep.evaluations += 1;
    if o.status != "ok" && o.status != "fail" {
      cx.rep.violation("external-nullable:recursion", format!("a rule that calls itself after a rule of another grammar that consumed nothing does not terminate on {:?}: {}\n{}", j.text, o.status, src), format!("{}\ninput: {:?}", src, j.text));
    }
  }
}

pub fn termination(cx: &mut Cx) {
  cx.rep.rule = "grammar, rule and input with repetition or backtracking in the reference evaluation; repetitions of at least 5000 iterations".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { rep: 16, opt: 8, alt: 14, pred: 6, refs: 14, ..Cfg::base() };
    let mut c = mixed();
    c.push((4, v.clone()));
    c.push((2, Cfg { alt: 30, seq: 20, depth: 8, size: 45, ..Cfg::base() }));
    let s = Spec { inputs: 8, ..spec(c, 200) };
    round(cx, &s, TERMS | STREAM, Losses::Rustc, &|_, c| c.rec.iters > 1 || c.rec.backtracks > 0);
    long::longs(cx, 8, &s, TERMS | OUTCOME | STREAM);
    blanks(cx, &s);
    if n == 0 { blank_recursion(cx) }
    // Long inputs.
    let cfg = Cfg { rules: (1, 3), depth: 3, size: 10, unit_rules: 40, poly: 0, ..v };
    let times: &[usize] = if cx.rep.quick() { &[60, 5000] } else { &[60, 50000] };
    let mut gs = vec![];
    let mut groups = vec![];
    for gid in 0..2000u32 {
      if gs.len() >= 40 { break }
      if let Some((g, gr)) = loops(cx, gid, &cfg, times) { gs.push(g); groups.push(gr) }
    }
    let s2 = Spec { offset: 0, ..s };
    let b = pipe::execute(&cx.env, &mut gs, &s2, 5);
    lost(cx, &gs, &b, Losses::Rustc);
    pipe::judge(&mut cx.rep, &gs, TERMS | OUTCOME, &|_, c| c.rec.iters >= 5000);
    for (g, gr) in gs.iter().zip(&groups) {
      for (lo, hi, rule) in gr {
        let name = &g.gram().rules[*rule].name;
        for (a, z, m) in [(&g.cases[*lo].obs_r, &g.cases[*hi].obs_r, "recognize"), (&g.cases[*lo].obs_p, &g.cases[*hi].obs_p, "parse")] {
          if let (Some(a), Some(z)) = (a, z) {
            cx.rep.evaluations += 1;
            cx.rep.max("longest_repetition", g.cases[*hi].rec.iters);
            cx.rep.max("stack_bytes_on_long_inputs", z.stack);
            if z.status == "ok" && z.stack > a.stack + 4096 {
              cx.rep.violation(&format!("stack:{}", crate::rng::hash(&g.gram().text())),
                format!("{}_{}: {} bytes of stack for {} iterations, {} for {}\nin grammar:\n{}", m, name, a.stack, g.cases[*lo].rec.iters, z.stack, g.cases[*hi].rec.iters, g.gram().text()), g.unit.src.clone());
            }
          }
        }
      }
      cx.rep.sample(6, || json::obj(vec![("grammar", json::s(g.gram().text())), ("input", json::s(format!("{} bytes", g.cases.last().unwrap().text.len())))]));
    }
    n += 1;
  }
}

// ---------------------------------------------------------------------------------------------------------------

/// Names a user may well give to a function, and that generated code might use too.
const NAMES: &[&str] = &["state", "stateful", "stateless", "is_success", "b0", "c0", "d1", "e2", "f0", "mark1", "mark2", "counter1", "choice_result1", "x", "result", "data", "value", "stream", "expected", "success", "error", "next", "current", "failed", "vec", "s", "tmp", "parse", "recognize", "mark", "restore", "grammar", "acc", "span", "start", "end", "lo", "hi", "list", "range", "success_case"];

/// Items a user may write between the rules.
const ITEMS: &[&str] = &[
  "pub struct Pair { pub a: char, pub b: Vec<char> }",
  "#[derive(Debug, Clone)]\npub enum Tree { Leaf(u32), Node(Box<Tree>, Box<Tree>) }",
  "impl Tree { pub fn depth(&self) -> u32 { match self { Tree::Leaf(_) => 0, Tree::Node(a, b) => 1 + a.depth().max(b.depth()) } } }",
  "pub type Chars = Vec<char>;",
  "use std::collections::HashMap as Map;",
  "pub const LIMIT: usize = 3;",
  "pub static GREETING: &'static str = \"a = b / c > f\";",
  "pub trait Named { fn name(&self) -> String; }",
  "fn helper(v: Vec<char>) -> String { v.into_iter().collect() }",
  "pub mod inner { pub fn one() -> u32 { 1 } }",
  "/// documented\npub fn documented(x: u32) -> u32 { x / 2 }",
  "pub fn generic<T: Clone>(v: &T) -> (T, T) { (v.clone(), v.clone()) }",
];

pub fn acceptance(cx: &mut Cx) {
  cx.rep.rule = "grammar accepted by the model, of at least 15 expressions, given to the macro and to rustc".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg::base();
    let cfgs = vec![(4, v.clone()), (2, deep()), (2, many()), (2, wide()), (2, Cfg { span: 8, range: 6, act: 8, ..v.clone() }), (2, Cfg { act: 18, asc: 8, ..v.clone() }),
      (2, Cfg { hand: 5, asc: 6, act: 8, ..v.clone() }), (1, Cfg { poly: 100, ..v.clone() }), (1, Cfg { pred: 20, rep: 14, opt: 8, ..v.clone() }), (2, Cfg { alt: 26, opt: 9, rep: 9, depth: 8, size: 45, ..v })];
    let w: Vec<u32> = cfgs.iter().map(|c| c.0).collect();
    let mut gs = vec![];
    let count = 1200;
    for gid in 0..count {
      let cfg = &cfgs[cx.rng.weighted(&w)].1;
      let (mut g, t) = gen::grammar(&mut cx.rng, cfg);
      let mut items: Vec<String> = vec![];
      if cx.rng.pct(30) {
        // Names of the user's choosing.
        let mut names: Vec<&str> = NAMES.to_vec();
        cx.rng.shuffle(&mut names);
        let mut k = 0;
        for r in &mut g.rules { r.body.walk_mut(&mut |e| if let Act(_, a) = &mut e.k { if !a.name.is_empty() && k < names.len() { a.name = names[k].to_string(); k += 1 } }) }
      }
      if cx.rng.pct(20) { let v = gen::siblings(&mut cx.rng, g.rules.len()); for (x, n) in g.rules.iter_mut().zip(v) { x.name = n } }
      if cx.rng.pct(30) { for _ in 0..cx.rng.range(1, 3) { let i = cx.rng.below(ITEMS.len()); if i == 2 { items.push(ITEMS[1].into()) } if i != 2 || !items.contains(&ITEMS[2].to_string()) { items.push(ITEMS[i].into()) } } }
      items.sort();
      items.dedup();
      let strm = if needs_str(&g) { if cx.rng.pct(30) { Strm::File } else { Strm::Str } } else { *cx.rng.pick(&[Strm::Mon, Strm::Str, Strm::Str, Strm::File, Strm::Chr, Strm::Tag, Strm::Bare]) };
      let mut st = if cx.rng.pct(40) { Style::wild(cx.rng.fork()) } else { Style::plain() };
      let (mut inn, out) = exec::functions(&g, &t);
      inn.extend(items);
      let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n}}", out.join("\n"), exec::macro_body(&g, &inn, strm, &mut st));
      let unit = Unit { gid, src, entries: exec::entries_of(gid, &g, strm, "") };
      if g.nodes >= 15 { cx.rep.nontrivial(&unit.src) }
      cx.rep.sample(3, || json::s(unit.src.clone()));
      gs.push(G { gid, world: World::one(g, t), strm, unit, cases: vec![] });
    }
    // A quarter of them in each of the older editions.
    let mut left = gs;
    for (edition, many) in [("2015", count / 4), ("2018", count / 4), ("2021", count)] {
      let rest = left.split_off(left.len().min(many as usize));
      let gs = std::mem::replace(&mut left, rest);
      cx.env.edition = edition;
      let units: Vec<Unit> = gs.iter().map(|g| g.unit.clone()).collect();
      let b = exec::batch_with(&cx.env, &units, &[], 16, true, std::time::Duration::from_secs(90));
      pipe::compile_failures(&mut cx.rep, &gs, &b, &|_| true);
      cx.rep.count("grammars_accepted", b.compiled.values().filter(|c| c.ok).count() as u64);
      cx.rep.count("expressions", gs.iter().map(|g| g.gram().nodes as u64).sum());
      cx.rep.count("actions", gs.iter().map(|g| g.gram().actions().len() as u64).sum());
    }
    if n == 0 { reserved(cx); shadowed(cx); written(cx) }
    n += 1;
  }
}

/// Types written by the user where oak infers one: the same type spelled out is no contradiction.
fn written(cx: &mut Cx) {
  let rules = [
    ("char:branch", "r = [\"a-z\"] / \"\\\\n\" > f  fn f() -> char { '\\n' }"), ("char:branches", "r = \"n\" > f / .  fn f() -> (char) { '\\n' }"),
    ("char:ascription", "r = \"<\" [\"a-z\"]:char \">\""), ("char:rule", "r:(char) = s:char / \".\" .  s = \"'\" . \"'\""),
    ("char:list", "r = ([\"a-z\"] / \"-\" > dash)+ > f  fn f(v: Vec<char>) -> usize { v.len() }  fn dash() -> char { '-' }"),
    ("char:external", "r = hand::twin:(^) ([\"0-9\"] / elsewhere)  elsewhere:char = \"x\" > outside"),
    ("Vec<char>:branch", "r = [\"a-z\"]+ / \"!\" > f  fn f() -> Vec<char> { vec![] }"), ("Vec<char>:ascription", "r = [\"a-z\"]+:(Vec<char>)"),
    ("Option<char>:branch", "r = \"<\" [\"a-z\"]? / \"!\" > f  fn f() -> Option<char> { None }"), ("Option<char>:ascription", "r = [\"a-z\"]?:(Option<char>)"),
    ("raw:rules", "r#type = \"a\" r#fn  r#fn:(u8) = [\"a-z\"] > r#match  fn r#match(c: char) -> u8 { c as u8 }"),
    ("raw:recursion", "r#loop = [\"a-z\"] (\",\" r#loop)?:(^)  s = r#loop \"!\""),
    ("(char,char):ascription", "r = ([\"a-z\"] .):(char, char)"),
  ];
  let units: Vec<Unit> = rules.iter().enumerate().map(|(i, (_, r))| Unit { gid: 21000 + i as u32, entries: vec![],
    src: format!("use oak::oak;\nuse oakrt::*;\npub fn outside() -> char {{ 'x' }}\noak! {{\n  type Stream<'a> = StrStream<'a>;\n  {}\n}}", r) }).collect();
  let b = exec::batch_with(&cx.env, &units, &[], 2, true, std::time::Duration::from_secs(60));
  for ((k, r), u) in rules.iter().zip(&units) {
    cx.rep.evaluations += 1;
    match b.compiled.get(&u.gid) {
      Some(c) if c.ok => {}
      Some(c) => cx.rep.violation(&format!("written:{}", k), format!("the type spelled out is the one inferred, but the grammar is refused: {}\n  {}", c.summary(), r), u.src.clone()),
      None => cx.rep.inconclusive = Some("no result for the written types".into()),
    }
  }
}

/// Items of the user named like those of the standard library that the generated code uses.
fn shadowed(cx: &mut Cx) {
  let items = ["pub enum Tok { None, Some(char), Ok, Err }\npub use self::Tok::*;", "pub struct Vec;", "pub struct Option;", "pub struct Box;", "macro_rules! vec { () => { () } }\npub struct Result;", "pub struct None;\npub struct Some;"];
  let units: Vec<Unit> = items.iter().enumerate().map(|(i, x)| Unit { gid: 20500 + i as u32, entries: vec![],
    src: format!("pub mod inner {{\nuse oak::oak;\n{}\npub fn g() -> u8 {{ 1 }}\noak! {{\n  r = [\"a-z\"]? (. > f)+ [\"0-9\"]* \";\"\n  s = ([\"a-z\"] [\"0-9\"])? ((\"x\" . / \"y\" .) / [\"0-9\"])* t\n  t = (\"k\" > f1 / \"l\" > f2)? !r\n  u = (... r+)\n  v:(u8) = \"v\" > g\n  fn f(c: char) -> u8 {{ c as u8 }}\n  fn f1() -> u8 {{ 1 }}\n  fn f2() -> u8 {{ 2 }}\n}}\n}}", x) }).collect();
  let b = exec::batch_with(&cx.env, &units, &[], 1, true, std::time::Duration::from_secs(60));
  for (x, u) in items.iter().zip(&units) {
    cx.rep.evaluations += 1;
    match b.compiled.get(&u.gid) {
      Some(c) if c.ok => {}
      Some(c) => cx.rep.violation(&format!("shadow:{}", crate::rng::hash(x)), format!("the items of the user `{}` make the generated code fail to compile: {}", x.replace('\n', " "), c.summary()), u.src.clone()),
      None => cx.rep.inconclusive = Some("no result for the shadowed names".into()),
    }
  }
}

/// Action functions named like the fixed local variables of the generated code.
fn reserved(cx: &mut Cx) {
  let names = ["state", "stateful", "stateless", "x", "is_success"];
  let units: Vec<Unit> = names.iter().enumerate().map(|(i, n)| Unit { gid: 20000 + i as u32, entries: vec![],
    src: format!("use oak::oak;\npub fn {}(c: char) -> u8 {{ c as u8 }}\noak! {{\n  r:(u8) = letter > {}\n  letter = [\"a-z\"]\n  s:(u8) = [\"a-z\"] \".\" !\"x\" > {}\n}}", n, n, n) }).collect();
  let b = exec::batch_with(&cx.env, &units, &[], 1, true, std::time::Duration::from_secs(60));
  for (n, u) in names.iter().zip(&units) {
    cx.rep.evaluations += 1;
    match b.compiled.get(&u.gid) {
      Some(c) if c.ok => {}
      Some(c) => cx.rep.violation(&format!("hygiene:{}", n), format!("an action function named `{}` makes the generated code fail to compile: {}", n, c.summary()), u.src.clone()),
      None => cx.rep.inconclusive = Some("no result for the reserved names".into()),
    }
  }
}
