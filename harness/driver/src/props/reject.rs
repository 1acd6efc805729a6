//! P15: ill-formed grammars.
use super::*;
use crate::exec::*;
use crate::gen;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model::{self, Fault, Typing};
use std::collections::BTreeSet;
use std::time::Duration;

struct Bad { kind: &'static str, unit: Unit }

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "grammar with at least one fault of the listed kinds (planted in a random grammar, or found by the reference analysis in a random mutation), given to the macro".into();
  let mut n = 0;
  while cx.more(n) {
    let mut bads: Vec<Bad> = vec![];
    let planted = if cx.rep.quick() { 2040 } else { 3400 };
    for i in 0..planted {
      let mut k = 0;
      while k < 60 {
        if let Some(b) = plant(&mut cx.rng, bads.len() as u32, KINDS[i % KINDS.len()]) { bads.push(b); break }
        k += 1;
      }
    }
    for _ in 0..planted {
      if let Some(b) = mutated(&mut cx.rng, bads.len() as u32) { bads.push(b) }
    }
    for _ in 0..planted {
      if let Some(b) = scrambled(&mut cx.rng, bads.len() as u32) { bads.push(b) }
    }
    if n == 0 { for t in TEXTS { let gid = bads.len() as u32; bads.push(Bad { kind: "syntax", unit: Unit { gid, src: format!("use oak::oak;\nuse oakrt::*;\noak! {{\n{}\n}}", t), entries: vec![] } }) } }
    let units: Vec<Unit> = bads.iter().map(|b| b.unit.clone()).collect();
    let b = exec::batch_with(&cx.env, &units, &[], 24, true, Duration::from_secs(60));
    for x in &bads { judge(cx, x, b.compiled.get(&x.unit.gid)) }
    n += 1;
  }
}

fn judge(cx: &mut Cx, x: &Bad, c: Option<&Compiled>) {
  cx.rep.evaluations += 1;
  cx.rep.count(x.kind, 1);
  cx.rep.nontrivial(&x.unit.src);
  let c = match c { Some(c) => c, None => { cx.rep.inconclusive = Some(format!("no result for grammar {}", x.unit.gid)); return } };
  let first = x.unit.src.lines().position(|l| l.starts_with("oak! {")).unwrap() + 1;
  let last = x.unit.src.lines().count();
  let panic = |d: &Diag| d.msg.contains("panicked");
  let told: Vec<&&Diag> = { let v: Vec<&Diag> = c.errors(); let v: Vec<&&Diag> = Box::leak(Box::new(v)).iter().filter(|d| d.code.is_empty() && !panic(d)).collect(); v };
  let fault = if c.hang { Some("the compiler did not end".to_string()) }
    else if c.ok { Some("accepted".to_string()) }
    else if c.crash { Some(format!("the compiler crashed: {}", c.summary())) }
    else if told.is_empty() { Some(format!("no diagnostic of the macro, only: {}", c.summary())) }
    // Lines are relative to the module: `mod` itself is line 0.
    else if !told.iter().any(|d| d.file && first <= d.line && d.line <= last) { Some(format!("diagnosed outside of the grammar (lines {} to {}): {:?}", first, last, told)) }
    else { None };
  cx.rep.sample(6, || json::obj(vec![("fault", json::s(x.kind.to_string())), ("module", json::s(x.unit.src.clone())), ("diagnostic", json::s(told.first().map(|d| format!("line {}: {}", d.line, d.msg)).unwrap_or_default()))]));
  if let Some(f) = fault {
    cx.rep.violation(&format!("{}:{}", x.kind, crate::rng::hash(&x.unit.src)), format!("fault {} not rejected properly: {}\nin:\n{}", x.kind, f, x.unit.src), format!("{}\n{:#?}", x.unit.src, c.diags));
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Planted faults.

const KINDS: &[&str] = &["left_recursion_direct", "left_recursion_indirect", "left_recursion_hidden", "left_recursion_in_predicate", "loop", "loop_through_rule", "unreachable", "unreachable_through_rule", "never", "always",
  "duplicate_rule", "duplicate_function", "no_rule", "branch_mismatch", "recursive_branch_mismatch", "action_without_result", "uninferred", "ascription"];

/// Never consumes for certain, may succeed on nothing; accepted by the analysis where it stands.
fn nullable(r: &mut Rng) -> Ex {
  let c = ex(Cl(vec![Cls::Rng('a', 'f')]));
  match r.below(9) {
    0 => ex(Opt(Box::new(c))),
    1 => ex(Star(Box::new(c))),
    2 => ex(Not(bx(Lit("q".into())))),
    3 => ex(And(Box::new(c))),
    4 => ex(Seq(vec![ex(Opt(Box::new(c))), ex(Star(bx(Lit("w".into()))))])),
    5 => ex(Alt(vec![lit("u"), ex(Opt(bx(Lit("v".into()))))])),
    6 => lit(""),
    7 => ex(Alt(vec![c, ex(Not(bx(Lit("z".into()))))])),
    _ => ex(Opt(bx(Seq(vec![c, lit("k")])))),
  }
}

/// Succeeds everywhere, perhaps consuming.
fn certain(r: &mut Rng) -> Ex {
  let c = ex(Cl(vec![Cls::Rng('a', 'f')]));
  match r.below(6) {
    0 => ex(Opt(Box::new(c))),
    1 => ex(Star(Box::new(c))),
    2 => ex(Seq(vec![ex(Opt(Box::new(c))), ex(Star(bx(Lit("w".into()))))])),
    3 => ex(Alt(vec![lit("u"), ex(Opt(bx(Lit("v".into()))))])),
    4 => lit(""),
    _ => ex(Star(bx(Seq(vec![lit("k"), ex(Opt(Box::new(c)))])))),
  }
}

/// Places where an expression may stand in a larger one, all of them kept by the analysis.
fn around(r: &mut Rng, e: Ex, depth: usize, value: bool) -> Ex {
  let mut e = e;
  for _ in 0..r.below(depth + 1) {
    e = match r.below(if value { 5 } else { 9 }) {
      0 => ex(Seq(vec![lit("o"), e])),
      1 => ex(Seq(vec![e, lit("o")])),
      2 => ex(Alt(vec![ex(Seq(vec![lit("t"), e.clone()])), ex(Seq(vec![lit("s"), e]))])),
      3 => ex(Star(bx(Seq(vec![lit(";"), e])))),
      4 => ex(Opt(bx(Seq(vec![lit(":"), e])))),
      5 => ex(Not(bx(Seq(vec![lit("n"), e])))),
      6 => ex(And(bx(Seq(vec![lit("n"), e])))),
      7 => ex(As(Box::new(e), Asc::Unit)),
      _ => ex(Seq(vec![ex(As(Box::new(e), Asc::Inv)), lit("i")])),
    };
  }
  e
}

/// Replaces a random expression of a random rule.
fn put(g: &mut Gram, r: &mut Rng, e: Ex) {
  g.number();
  let k = r.below(g.nodes);
  let mut done = false;
  for x in &mut g.rules { x.body.walk_mut(&mut |y| if y.id == k && !done { done = true; y.k = e.k.clone(); y.id = usize::MAX }) }
}

fn plant(r: &mut Rng, gid: u32, kind: &'static str) -> Option<Bad> {
  let cfg = Cfg { rules: (1, 4), depth: 4, size: 14, act: 3, asc: 2, poly: 0, wide: 5, ..Cfg::base() };
  let (mut g, t) = gen::grammar(r, &cfg);
  let (mut inn, mut out) = exec::functions(&g, &t);
  let n = g.rules.len();
  let fresh = |g: &Gram| format!("x{}", g.rules.len());
  let add = |g: &mut Gram, name: String, body: Ex| { let at = g.rules.len(); g.rules.push(Rule { name, body, lhs: false }); at };
  let mut wf_fault: Option<Fault> = None;
  match kind {
    "left_recursion_direct" => {
      let i = r.below(n);
      let body = g.rules[i].body.clone();
      g.rules[i].body = match r.below(5) {
        0 => ex(Seq(vec![ex(Ref(i)), body])),
        1 => ex(Alt(vec![ex(Seq(vec![ex(Ref(i)), lit("+")])), body])),
        2 => ex(Alt(vec![body, ex(Ref(i))])),
        3 => ex(Seq(vec![ex(Star(bx(Ref(i)))), body])),
        _ => ex(Seq(vec![ex(Opt(bx(Seq(vec![ex(Ref(i)), lit(",")])))), body])),
      };
      wf_fault = Some(Fault::LeftRec);
    }
    "left_recursion_indirect" => {
      let i = r.below(n);
      let len = r.range(1, 4);
      let mut to = i;
      for _ in 0..len {
        let e = ex(Ref(to));
        let b = match r.below(4) { 0 => e, 1 => ex(Seq(vec![e, lit("w")])), 2 => ex(Alt(vec![lit("y"), e])), _ => ex(Alt(vec![ex(Seq(vec![e, lit("v")])), lit("y")])) };
        let nm = fresh(&g);
        to = add(&mut g, nm, b);
      }
      let body = g.rules[i].body.clone();
      g.rules[i].body = match r.below(3) { 0 => ex(Seq(vec![ex(Ref(to)), body])), 1 => ex(Alt(vec![body, ex(Ref(to))])), _ => ex(Seq(vec![ex(Plus(bx(Ref(to)))), body])) };
      wf_fault = Some(Fault::LeftRec);
    }
    "left_recursion_hidden" => {
      let i = r.below(n);
      let body = g.rules[i].body.clone();
      let mut v = vec![];
      for _ in 0..r.range(1, 3) {
        if r.pct(35) { let e = nullable(r); let nm = fresh(&g); let k = add(&mut g, nm, e); v.push(ex(Ref(k))) } else { v.push(nullable(r)) }
      }
      v.push(ex(Ref(i)));
      v.push(lit("q"));
      g.rules[i].body = if r.pct(50) { ex(Alt(vec![body, ex(Seq(v))])) } else { v.push(body); ex(Seq(v)) };
      wf_fault = Some(Fault::LeftRec);
    }
    "left_recursion_in_predicate" => {
      let i = r.below(n);
      let body = g.rules[i].body.clone();
      let p = if r.pct(50) { ex(Not(bx(Seq(vec![ex(Ref(i)), lit("n")])))) } else { ex(And(bx(Ref(i)))) };
      g.rules[i].body = ex(Seq(vec![p, body]));
      wf_fault = Some(Fault::LeftRec);
    }
    "loop" => {
      let e = nullable(r);
      let l = if r.pct(50) { ex(Star(Box::new(e))) } else { ex(Plus(Box::new(e))) };
      let w = ex(Seq(vec![lit("h"), l]));
      if r.pct(50) { put(&mut g, r, w) } else { let b = around(r, w, 3, false); let nm = fresh(&g); add(&mut g, nm, b); }
      wf_fault = Some(Fault::Loop);
    }
    "loop_through_rule" => {
      let e = nullable(r);
      let nm = fresh(&g);
      let k = add(&mut g, nm, e);
      let mut to = k;
      for _ in 0..r.below(3) { let nm = fresh(&g); to = add(&mut g, nm, ex(Ref(to))); }
      let inner = match r.below(3) { 0 => ex(Ref(to)), 1 => ex(Alt(vec![lit("g"), ex(Ref(to))])), _ => ex(Seq(vec![ex(Opt(bx(Lit("g".into())))), ex(Ref(to))])) };
      let l = ex(Seq(vec![lit("h"), if r.pct(50) { ex(Star(Box::new(inner))) } else { ex(Plus(Box::new(inner))) }]));
      let b = around(r, l, 3, false);
      let nm = fresh(&g);
      add(&mut g, nm, b);
      wf_fault = Some(Fault::Loop);
    }
    "unreachable" => {
      let mut v = vec![certain(r), lit("d")];
      for _ in 0..r.below(3) { v.insert(0, lit(*r.pick(&["m", "mm", "l"]))) }
      if r.pct(30) { v.push(lit("e")) }
      let w = ex(Seq(vec![lit("h"), ex(Alt(v))]));
      if r.pct(50) { put(&mut g, r, w) } else { let b = around(r, w, 3, false); let nm = fresh(&g); add(&mut g, nm, b); }
      wf_fault = Some(Fault::Unreachable);
    }
    "unreachable_through_rule" => {
      let e = certain(r);
      let nm = fresh(&g);
      let k = add(&mut g, nm, e);
      let nm = fresh(&g);
      let k2 = add(&mut g, nm, if r.pct(50) { ex(Ref(k)) } else { ex(Seq(vec![ex(Ref(k)), ex(Opt(bx(Lit("j".into()))))])) });
      let w = ex(Seq(vec![lit("h"), ex(Alt(vec![ex(Ref(k2)), lit("d")]))]));
      let b = around(r, w, 2, false);
      let nm = fresh(&g);
      add(&mut g, nm, b);
      wf_fault = Some(Fault::Unreachable);
    }
    "never" => {
      let w = ex(Seq(vec![lit("h"), ex(Not(Box::new(certain(r))))]));
      if r.pct(50) { put(&mut g, r, w) } else { let b = around(r, w, 3, false); let nm = fresh(&g); add(&mut g, nm, b); }
      wf_fault = Some(Fault::Never);
    }
    "always" => {
      let w = ex(Seq(vec![lit("h"), ex(And(Box::new(certain(r))))]));
      if r.pct(50) { put(&mut g, r, w) } else { let b = around(r, w, 3, false); let nm = fresh(&g); add(&mut g, nm, b); }
      wf_fault = Some(Fault::Always);
    }
    "duplicate_rule" => {
      let i = r.below(n);
      let name = g.rules[i].name.clone();
      let body = if r.pct(50) { g.rules[i].body.clone() } else { lit("dup") };
      let at = r.below(n + 1);
      if at > i { g.rules.push(Rule { name, body, lhs: false }) }
      else {
        // Before the original: keep the indices of references by adding it in the text only.
        let mut st = Style::plain();
        let line = g.render_rule(&Rule { name, body, lhs: false }, &mut st);
        let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n{}\n}}", out.join("\n"), line, exec::macro_body(&g, &inn, Strm::Str, &mut st));
        return Some(Bad { kind, unit: Unit { gid, src, entries: vec![] } })
      }
    }
    "duplicate_function" => {
      let f = *r.pick(&["pub fn dup(c: char) -> u8 { c as u8 }", "fn dup() {}", "pub fn dup(v: Vec<char>) -> String { v.into_iter().collect() }"]);
      inn.insert(r.below(inn.len() + 1), f.to_string());
      inn.insert(r.below(inn.len() + 1), (*r.pick(&["pub fn dup(c: char) -> u8 { c as u8 }", "fn dup() {}", "#[inline]\nfn dup<T>(x: T) -> T { x }"])).to_string());
    }
    "no_rule" => {
      g.rules.clear();
      g.nodes = 0;
      if r.pct(50) { inn.push("pub struct Unused;".into()) }
      if r.pct(30) { inn.clear() }
    }
    "branch_mismatch" => {
      let c = || ex(Cl(vec![Cls::Rng('a', 'f')]));
      let k = || ex(Cl(vec![Cls::One('k')]));
      let mut v = match r.below(9) {
        0 => vec![c(), ex(Plus(bx(Cl(vec![Cls::One('k')]))))],
        1 => vec![c(), lit("k")],
        2 => vec![ex(Seq(vec![c(), k()])), c()],
        3 => vec![lit("k"), c(), ex(Seq(vec![k(), c()]))],
        4 => vec![ex(Seq(vec![k(), ex(Opt(Box::new(c())))])), ex(Seq(vec![c(), ex(Star(Box::new(k())))]))],
        5 => vec![ex(As(Box::new(c()), Asc::Unit)), ex(Any)],
        6 => { inn.push("pub fn mis(c: char) -> N<5> { act(\"mis\", vec![c.sh()]) }".into()); vec![ex(Act(Box::new(c()), Action { name: "mis".into(), kind: AKind::In(5), boxed: r.pct(30) })), k()] }
        7 => vec![ex(Plus(bx(Seq(vec![c(), k()])))), ex(Plus(Box::new(k())))],
        _ => vec![ex(Seq(vec![lit("k"), c(), c(), c()])), ex(Seq(vec![c(), c()]))],
      };
      if r.pct(40) { r.shuffle(&mut v) }
      // Half of the time through rules.
      if r.pct(40) { for x in &mut v { let nm = fresh(&g); let b = x.clone(); let i = add(&mut g, nm, b); x.k = Ref(i) } }
      let b = around(r, ex(Alt(v)), 2, true);
      let nm = fresh(&g);
      add(&mut g, nm, b);
    }
    // The branch whose type is only known once the recursive rules are typed.
    "recursive_branch_mismatch" if r.pct(35) => {
      // One rule, of itself: values in front of or behind the recursive reference, none in the other branch, or another one.
      let c = || ex(Cl(vec![Cls::Rng('a', 'f')]));
      let at = g.rules.len();
      let outside = r.pct(30);
      let value = if outside {
        out.push("pub fn elsewhere(c: char) -> N<3> { act(\"elsewhere\", vec![c.sh()]) }".into());
        ex(Act(Box::new(c()), Action { name: "elsewhere".into(), kind: AKind::Out(3), boxed: false }))
      } else { match r.below(4) { 0 => c(), 1 => ex(Plus(Box::new(c()))), 2 => ex(Seq(vec![c(), c()])), _ => ex(Seq(vec![lit("v"), c(), ex(Opt(Box::new(c())))])) } };
      let me = ex(Ref(at));
      let v = match r.below(4) { 0 => vec![value, me], 1 => vec![lit("["), me, value], 2 => vec![value, lit("["), me], _ => vec![lit("["), value, me, lit("]")] };
      let mut w = vec![ex(Seq(v)), if r.pct(60) { lit("k") } else { ex(As(bx(Cl(vec![Cls::One('k')])), Asc::Unit)) }];
      if r.pct(30) { w.insert(1, ex(Seq(vec![lit("("), ex(Ref(at)), lit(")")]))) }
      let nm = fresh(&g);
      add(&mut g, nm, ex(Alt(w)));
      if r.pct(50) { let nm = fresh(&g); add(&mut g, nm, ex(Seq(vec![lit("p"), ex(Ref(at)), ex(Opt(bx(Any)))]))); }
    }
    "recursive_branch_mismatch" => {
      let c = || ex(Cl(vec![Cls::Rng('a', 'f')]));
      let at = g.rules.len();
      let far = r.below(3);
      let (a, b) = if r.pct(50) { (at, at + 1 + far) } else { (at + 1 + far, at) };
      // From b back to a, and from a to b, perhaps through rules.
      let value = match r.below(5) { 0 => c(), 1 => ex(Plus(Box::new(c()))), 2 => ex(Seq(vec![c(), c()])), 3 => ex(Opt(Box::new(c()))), _ => ex(Seq(vec![lit("v"), c(), ex(Star(Box::new(c())))])) };
      let mut v = vec![value, lit("["), ex(Ref(if far > 0 && a > b { b + 1 } else { b }))];
      if r.pct(30) { v = vec![lit("["), v.pop().unwrap(), v.swap_remove(0)] }
      let body_a = ex(Seq(v));
      let other = match r.below(4) { 0 => c(), 1 => ex(As(Box::new(c()), Asc::Unit)), _ => lit("k") };
      let mut w = vec![other, ex(Seq(vec![lit("("), ex(Ref(if far > 0 && a < b { a + 1 } else { a }))]))];
      if r.pct(40) { w.push(lit("n")) }
      if r.pct(30) { w.swap(0, 1) }
      let body_b = if r.pct(30) { ex(Seq(vec![lit("b"), ex(Alt(w))])) } else { ex(Alt(w)) };
      for i in at..=at + 1 + far {
        let nm = fresh(&g);
        // Those between lead from the one declared last to the first: towards a when b is last.
        let up = if a < b { if i == at + 1 { a } else { i - 1 } } else if i == at + 1 { b } else { i - 1 };
        let between = if r.pct(50) { ex(Ref(up)) } else { ex(Seq(vec![lit("{"), ex(Ref(up)), lit("}")])) };
        add(&mut g, nm, if i == a { body_a.clone() } else if i == b { body_b.clone() } else { between });
      }
    }
    "action_without_result" => {
      let f = *r.pick(&["fn nothing(c: char) { drop(c) }", "pub fn nothing(c: char) -> () {}", "fn nothing<T>(_: T) {}"]);
      inn.insert(r.below(inn.len() + 1), f.to_string());
      let e = ex(Act(bx(Cl(vec![Cls::One('k')])), Action { name: "nothing".into(), kind: AKind::In(0), boxed: r.pct(20) }));
      let b = around(r, e, 2, true);
      let nm = fresh(&g);
      add(&mut g, nm, b);
    }
    "uninferred" => {
      g.exts = gen::hand_exts();
      let e = match r.below(4) {
        0 => ex(Kd::Ext(0)),
        1 => ex(Kd::Ext(1)),
        2 => ex(Act(bx(Cl(vec![Cls::One('k')])), Action { name: "elsewhere".into(), kind: AKind::Out(3), boxed: r.pct(30) })),
        _ => ex(Act(bx(Cl(vec![Cls::One('k')])), Action { name: String::new(), kind: AKind::Ctor("C"), boxed: r.pct(30) })),
      };
      out.push("pub fn elsewhere(c: char) -> N<3> { act(\"elsewhere\", vec![c.sh()]) }".into());
      let mut b = around(r, e, 2, true);
      if r.pct(40) { let nm = fresh(&g); let i = add(&mut g, nm, b); b = ex(Seq(vec![lit("p"), ex(Ref(i)), ex(Opt(bx(Any)))])) }
      let nm = fresh(&g);
      add(&mut g, nm, b);
    }
    "ascription" => {
      let c = || ex(Cl(vec![Cls::Rng('a', 'f')]));
      let e = match r.below(5) { 0 => c(), 1 => ex(Plus(Box::new(c()))), 2 => lit("lit"), 3 => ex(Seq(vec![c(), lit("."), c()])), _ => ex(Opt(Box::new(c()))) };
      let ty = (*r.pick(&["u32", "N<0>", "Vec<u8>", "std::string::String"])).to_string();
      let b = around(r, ex(As(Box::new(e), Asc::Rust(ty))), 2, true);
      let nm = fresh(&g);
      add(&mut g, nm, b);
    }
    _ => unreachable!(),
  }
  if let Some(f) = wf_fault {
    g.number();
    // Something planted may stand behind another fault; it is a fault all the same.
    let w = model::well_formed(&g);
    if w.faults.is_empty() { panic!("planted {:?}, but the reference finds nothing in\n{}", f, g.text()) }
  }
  let mut st = if r.pct(40) { Style::wild(r.fork()) } else { Style::plain() };
  let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n}}", out.join("\n"), exec::macro_body(&g, &inn, Strm::Str, &mut st));
  Some(Bad { kind, unit: Unit { gid, src, entries: vec![] } })
}

// ---------------------------------------------------------------------------------------------------------------
// Random mutations judged by the reference analysis.

fn fault_name(f: &Fault) -> &'static str {
  match f { Fault::LeftRec => "mutated_left_recursion", Fault::Loop => "mutated_loop", Fault::Unreachable => "mutated_unreachable", Fault::Never => "mutated_never", Fault::Always => "mutated_always" }
}

fn mutated(r: &mut Rng, gid: u32) -> Option<Bad> {
  let cfg = Cfg { rules: (2, 6), depth: 5, size: 18, act: 2, asc: 2, poly: 0, wide: 5, pred: 8, opt: 8, rep: 8, refs: 12, ..Cfg::base() };
  let want = r.below(5);
  for _ in 0..40 {
    let (mut g, t) = gen::grammar(r, &cfg);
    let (inn, out) = exec::functions(&g, &t);
    for _ in 0..r.range(1, 3) {
      g.number();
      let k = r.below(g.nodes);
      let n = g.rules.len();
      let what = r.below(9);
      let to = r.below(n);
      let mut done = false;
      for x in &mut g.rules {
        x.body.walk_mut(&mut |e| if e.id == k && !done {
          done = true;
          e.id = usize::MAX;
          let old = e.k.clone();
          let me = || Box::new(Ex { id: usize::MAX, k: old.clone() });
          e.k = match what {
            0 => Opt(me()), 1 => Star(me()), 2 => Plus(me()), 3 => Not(me()), 4 => And(me()), 5 => Ref(to), 6 => Lit(String::new()),
            7 => match &old { Seq(v) if v.len() > 2 => { let mut v = v.clone(); v.remove(to % v.len()); Seq(v) } Alt(v) => { let mut v = v.clone(); let m = v.len(); v.swap(0, m - 1); Alt(v) } Plus(x) => Star(x.clone()), Star(x) => Opt(x.clone()), _ => Opt(me()) },
            _ => Alt(vec![*me(), lit("tail")]),
          }
        })
      }
    }
    g.number();
    let w = model::well_formed(&g);
    if w.faults.is_empty() { continue }
    // Rare kinds first.
    let f = w.faults.iter().cloned().collect::<BTreeSet<_>>();
    let one: Vec<Fault> = f.into_iter().collect();
    if one.len() > 1 && r.pct(85) { continue }
    let order = [Fault::LeftRec, Fault::Loop, Fault::Unreachable, Fault::Never, Fault::Always];
    if !one.contains(&order[want]) && r.pct(90) { continue }
    let _: &Typing = &t;
    let mut st = if r.pct(20) { Style::wild(r.fork()) } else { Style::plain() };
    let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n}}", out.join("\n"), exec::macro_body(&g, &inn, Strm::Str, &mut st));
    return Some(Bad { kind: fault_name(&one[0]), unit: Unit { gid, src, entries: vec![] } })
  }
  None
}

// ---------------------------------------------------------------------------------------------------------------
// Syntax.

const TEXTS: &[&str] = &[
  "r =", "r = /", "r = \"a\" /", "r = / \"a\"", "r = ()", "r = (\"a\" / )", "r = *", "r = \"a\" + +", "r = \"a\"**", "r = \"a\"?*", "r = !", "r = &", "r = !!\"a\"", "r = &!\"a\"", "r = \"a\":", 
  "r = ...", "r = ..", "r = \"a\" .. \"b\"", "r = \"a\" ...", "r = !.. \"a\"", "r = \"a\" / (\"b\" ... \"c\")", "= \"a\"", "r \"a\"", "r == \"a\"", "r = 'a'", "r = 3", "r = \"a\" | \"b\"", "r = \"a\" - \"b\"", "r = b\"a\"", "r = [\"a\"] > 3", "r = [\"a\"] > \"f\"", "r = [\"a\"] > box", "r = > f", "r = \"a\" = \"b\"", "r = x = \"b\"",
  "r: = \"a\"", "r:() \"a\"", "r = \"a\":() :()", "r = {}", "r = {\"a\"}", "r = (.. )", "r = :() \"a\"", "r = \"a\" , \"b\"", "r = \"a\"; s = \"b\"", "r -> \"a\"", "r <- \"a\"", "r = \"a\" => f", "r = \"a\" ! ", "r = ( ! )",
  "r = (^)", "r = \"a\":(^ x)", "r:(^ x) = \"a\"", "r = \"a\" > f > g", "r = $x", "r = \"a\" # \"b\"", "r = @", "r = \"a\" s", "fn f( { }\nr = \"a\"", "pub r = \"a\"", "r = \"a\" pub", "let r = \"a\"", "r = \"a\"{2}", "r = .?*+", "r = a:b:", "r = (\"a\":) \"b\"",
];

/// The tokens of a grammar without Rust items.
fn tokens(g: &Gram) -> Vec<String> {
  let text = g.text();
  let cs: Vec<char> = text.chars().collect();
  let mut v = vec![];
  let mut i = 0;
  while i < cs.len() {
    let c = cs[i];
    if c.is_whitespace() { i += 1; continue }
    if c == '"' {
      let s = i;
      i += 1;
      while cs[i] != '"' { if cs[i] == '\\' { i += 1 } i += 1 }
      i += 1;
      v.push(cs[s..i].iter().collect());
    } else if c.is_alphanumeric() || c == '_' {
      let s = i;
      if c == 'r' && cs.get(i + 1) == Some(&'#') { i += 2 }
      while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == ':' && i + 1 < cs.len() && cs[i + 1] == ':' || cs[i] == ':' && cs[i - 1] == ':') { i += 1 }
      v.push(cs[s..i].iter().collect());
    } else if c == ':' {
      // An ascription is one token: `:()`, `:(^)`, `:(T)`.
      let s = i;
      let mut d = 0;
      i += 1;
      loop { if cs[i] == '(' { d += 1 } if cs[i] == ')' { d -= 1 } i += 1; if d == 0 { break } }
      v.push(cs[s..i].iter().collect());
    } else if c == '.' {
      let s = i;
      while i < cs.len() && cs[i] == '.' { i += 1 }
      v.push(cs[s..i].iter().collect());
    } else { v.push(c.to_string()); i += 1 }
  }
  v
}

/// Syntax of the documentation; `None` when Rust's own syntax has a say.
struct Syn<'a> { t: &'a [String], i: usize, unsure: bool }

impl<'a> Syn<'a> {
  fn at(&self, k: usize) -> &str { self.t.get(self.i + k).map(|s| s.as_str()).unwrap_or("") }
  fn ident(s: &str) -> bool { s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') && s != "box" }
  fn asc(s: &str) -> bool { s.starts_with(":(") }
  fn head(&self) -> bool { Self::ident(self.at(0)) && !self.at(0).contains("::") && (self.at(1) == "=" || Self::asc(self.at(1)) && self.at(2) == "=") }
  fn grammar(&mut self) -> bool {
    let mut n = 0;
    while self.i < self.t.len() {
      if !self.head() { if Self::ident(self.at(0)) && self.at(1) == "!" { self.unsure = true } return false }
      self.i += if self.at(1) == "=" { 2 } else { 3 };
      if !self.choice() { return false }
      n += 1;
    }
    n > 0
  }
  fn choice(&mut self) -> bool {
    loop {
      if self.at(0).len() > 1 && self.at(0).chars().all(|c| c == '.') { if self.at(0).len() > 3 { return false } self.i += 1 }
      let mut n = 0;
      loop {
        match self.prefixed() { Some(true) => n += 1, Some(false) => break, None => return false }
        if Self::asc(self.at(0)) { self.i += 1 }
      }
      if n == 0 { return false }
      if self.at(0) == ">" {
        self.i += 1;
        if self.at(0) == "box" { self.i += 1 }
        if !Self::ident(self.at(0)) { return false }
        self.i += 1;
      }
      if self.at(0) == "/" { self.i += 1 } else { return true }
    }
  }
  fn prefixed(&mut self) -> Option<bool> {
    let p = self.at(0) == "!" || self.at(0) == "&";
    if p { self.i += 1 }
    match self.atom() { None => return None, Some(false) => return if p { None } else { Some(false) }, Some(true) => {} }
    if ["*", "+", "?"].contains(&self.at(0)) { self.i += 1 }
    Some(true)
  }
  fn atom(&mut self) -> Option<bool> {
    let t = self.at(0).to_string();
    if t.starts_with('"') || t == "." { self.i += 1; return Some(true) }
    // Captures start a sequence.
    if t.starts_with("..") { return None }
    if t == "(" {
      self.i += 1;
      if !self.choice() || self.at(0) != ")" { return None }
      self.i += 1;
      return Some(true)
    }
    if t == "[" {
      if !self.at(1).starts_with('"') || self.at(2) != "]" { return None }
      // The text of the class is checked elsewhere.
      self.i += 3;
      return Some(true)
    }
    if Self::ident(&t) { if self.head() { return Some(false) } self.i += 1; return Some(true) }
    if t == "box" { self.unsure = true; return None }
    Some(false)
  }
}

fn scrambled(r: &mut Rng, gid: u32) -> Option<Bad> {
  let cfg = Cfg { rules: (1, 4), depth: 5, size: 16, act: 5, asc: 4, poly: 0, span: 3, range: 3, pred: 6, opt: 8, rep: 8, wide: 5, unicode: 0, ..Cfg::base() };
  for _ in 0..30 {
    let (g, t) = gen::grammar(r, &cfg);
    let (_, mut out) = exec::functions(&g, &t);
    out.extend(exec::functions(&g, &t).0);
    let mut v = tokens(&g);
    assert!({ let mut s = Syn { t: &v, i: 0, unsure: false }; s.grammar() && s.i == v.len() }, "the reference syntax refuses\n{}", g.text());
    for _ in 0..r.range(1, 2) {
      let k = r.below(v.len());
      match r.below(5) {
        0 => { v.remove(k); }
        1 => { let x = v[r.below(v.len())].clone(); v.insert(k, x) }
        2 => { let j = r.below(v.len()); v.swap(k, j) }
        3 => { let x = (*r.pick(&["/", "*", "+", "?", "!", "&", ">", "=", "..", "...", ".", ":()", ":(^)", ",", ";", "|", "-", "$", "@", "->", "0", "'c'"])).to_string(); v.insert(k, x) }
        _ => { let x = v[r.below(v.len())].clone(); v[k] = x }
      }
    }
    // Rust does not read unbalanced brackets at all.
    let mut open = vec![];
    let mut balanced = true;
    for x in &v { match x.as_str() { "(" | "[" => open.push(x.clone()), ")" => balanced &= open.pop().as_deref() == Some("("), "]" => balanced &= open.pop().as_deref() == Some("["), _ => {} } }
    if !balanced || !open.is_empty() { continue }
    let mut s = Syn { t: &v, i: 0, unsure: false };
    if (s.grammar() && s.i == v.len()) || s.unsure { continue }
    let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n}}", out.join("\n"), v.join(" "));
    return Some(Bad { kind: "scrambled", unit: Unit { gid, src, entries: vec![] } })
  }
  None
}
