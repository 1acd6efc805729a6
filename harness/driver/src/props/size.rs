//! P19: size of the generated code along growing grammars.
use super::*;
use crate::exec::{self, Strm};
use crate::gen;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// A family of grammars: one source text per size.
struct Family { name: String, sizes: Vec<usize>, nodes: Vec<usize>, bodies: Vec<String>, small: bool }

impl Family {
  /// The first three members, then the three large ones: what explodes is seen on the former, at little cost.
  fn part(&self, small: bool) -> Family {
    let r = if small { 0..3 } else { 3..self.sizes.len() };
    Family { name: self.name.clone(), sizes: self.sizes[r.clone()].to_vec(), nodes: self.nodes[r.clone()].to_vec(), bodies: self.bodies[r].to_vec(), small }
  }
}

fn cl() -> Ex { ex(Cl(vec![Cls::Rng('a', 'c')])) }
fn act(e: Ex) -> Ex { ex(Act(Box::new(e), Action { name: "f".into(), kind: AKind::In(0), boxed: false })) }

/// Contexts an expression can be put in.
const NEST: usize = 22;
fn nest(k: usize, e: Ex) -> Ex {
  let b = |e: Ex| Box::new(e);
  match k {
    0 => ex(Opt(b(ex(Seq(vec![lit("a"), e]))))),
    1 => ex(Star(b(ex(Seq(vec![lit("a"), e]))))),
    2 => ex(Plus(b(ex(Seq(vec![lit("a"), e]))))),
    3 => ex(Seq(vec![ex(Not(b(ex(Seq(vec![lit("a"), e]))))), lit("b")])),
    4 => ex(Seq(vec![ex(And(b(ex(Seq(vec![lit("a"), e]))))), lit("b")])),
    5 => ex(Seq(vec![lit("a"), e, lit("b")])),
    6 => ex(Alt(vec![ex(Seq(vec![lit("a"), e])), lit("b")])),
    7 => ex(Alt(vec![lit("b"), ex(Seq(vec![lit("a"), e]))])),
    8 => ex(Alt(vec![lit("c"), ex(Seq(vec![lit("a"), e])), lit("b"), lit("d")])),
    9 => ex(Seq(vec![ex(Alt(vec![lit("a"), lit("b")])), e])),
    10 => ex(Seq(vec![ex(Opt(bx(Lit("a".into())))), lit("b"), e])),
    11 => ex(Seq(vec![ex(Alt(vec![ex(Seq(vec![lit("a"), e])), lit("b")])), lit("c")])),
    12 => ex(Seq(vec![ex(Opt(b(ex(Seq(vec![lit("a"), e]))))), lit("c")])),
    13 => act(ex(Seq(vec![lit("a"), e]))),
    14 => act(ex(Alt(vec![ex(Seq(vec![lit("a"), e])), lit("b")]))),
    15 => ex(Spn(b(ex(Seq(vec![lit("a"), e]))))),
    16 => ex(Rg(b(ex(Seq(vec![lit("a"), e]))))),
    17 => ex(As(b(ex(Seq(vec![lit("a"), e]))), Asc::Unit)),
    18 => ex(As(b(ex(Alt(vec![ex(Seq(vec![lit("a"), e])), lit("b")]))), Asc::Inv)),
    19 => act(ex(Seq(vec![ex(Alt(vec![cl(), ex(Any)])), ex(As(b(ex(Seq(vec![lit("a"), e]))), Asc::Inv))]))),
    20 => ex(Seq(vec![ex(Star(b(ex(Alt(vec![lit("x"), ex(Seq(vec![lit("a"), e]))]))))), lit("c")])),
    _ => ex(Alt(vec![ex(Seq(vec![lit("a"), ex(Alt(vec![lit("p"), lit("q")])), e])), ex(Seq(vec![lit("b"), ex(Opt(bx(Lit("p".into()))))]))])),
  }
}

/// What can be repeated in a row (or as branches); the boolean: delivers a value.
const ROW: usize = 20;
fn row(k: usize, i: usize) -> (Ex, bool) {
  let w = || lit(&format!("w{}", i));
  let b = |e: Ex| Box::new(e);
  match k {
    0 => (ex(Alt(vec![lit("a"), lit("b")])), false),
    1 => (ex(Alt(vec![lit("a"), lit("b"), lit("c"), lit("d")])), false),
    2 => (ex(Alt(vec![cl(), ex(Any)])), true),
    3 => (ex(Opt(bx(Lit("a".into())))), false),
    4 => (ex(Opt(b(cl()))), true),
    5 => (ex(Star(b(cl()))), true),
    6 => (ex(Plus(bx(Lit("a".into())))), false),
    7 => (ex(Not(b(w()))), false),
    8 => (ex(And(b(cl()))), false),
    9 => (w(), false),
    10 => (cl(), true),
    11 => (act(cl()), true),
    12 => (act(ex(Alt(vec![cl(), ex(Any)]))), true),
    13 => (ex(Alt(vec![act(cl()), act(w())])), true),
    14 => (ex(Spn(b(ex(Seq(vec![w(), lit("a")]))))), true),
    15 => (ex(Rg(b(ex(Seq(vec![w(), cl()]))))), true),
    16 => (ex(As(b(ex(Alt(vec![cl(), ex(Any)]))), Asc::Unit)), false),
    17 => (ex(Opt(b(ex(Alt(vec![ex(Seq(vec![lit("a"), cl()])), ex(Seq(vec![cl(), lit("b")]))]))))), true),
    18 => (ex(Opt(b(ex(Alt(vec![ex(Seq(vec![lit("a"), lit("b")])), lit("c")]))))), false),
    _ => (ex(Star(b(ex(Alt(vec![lit("a"), ex(Seq(vec![lit("b"), ex(Opt(bx(Lit("c".into()))))]))]))))), false),
  }
}

fn body(g: &Gram, silent: bool) -> String {
  let mut g = g.clone();
  if silent { for r in &mut g.rules { let b = std::mem::replace(&mut r.body, ex(Any)); r.body = ex(As(Box::new(b), Asc::Unit)) } }
  let inn = vec!["pub fn f() -> N<0> { panic!() }".to_string()];
  exec::macro_body(&g, &inn, Strm::Str, &mut Style::plain())
}

fn one(e: Ex) -> Gram { Gram { rules: vec![Rule { name: "r".into(), body: e, lhs: false }], ..Gram::default() } }

fn family(name: String, sizes: &[usize], silent: bool, f: impl Fn(usize) -> Gram) -> Family {
  let gs: Vec<Gram> = sizes.iter().map(|n| f(*n)).collect();
  Family { name, sizes: sizes.to_vec(), nodes: gs.iter().map(|g| g.size()).collect(), bodies: gs.iter().map(|g| body(g, silent)).collect(), small: false }
}

fn families(r: &mut Rng, quick: bool, first: bool) -> Vec<Family> {
  let mut v = vec![];
  let sizes: &[usize] = if quick { &[3, 6, 9, 5, 10, 20] } else { &[3, 6, 9, 8, 16, 32] };
  let grow = |ks: &[usize], n: usize, leaf: Ex| { let mut e = leaf; for i in 0..n { for k in ks.iter().rev() { e = nest(*k, e) } if i > 100 { break } } one(e) };
  if first {
    for k in 0..NEST { for leaf in 0..2 { v.push(family(format!("nest {} leaf {}", k, leaf), sizes, true, |n| grow(&[k], n, if leaf == 0 { lit("z") } else { cl() }))) } }
    for k in 0..ROW {
      for shape in 0..6 {
        // In a row; as branches; in a row under an action, a star, an option; a value of as many components.
        let (_, valued) = row(k, 0);
        let name = format!("row {} shape {}", k, shape);
        let items = |n: usize| -> Vec<Ex> { (0..n).map(|i| row(k, i).0).collect() };
        match shape {
          0 => v.push(family(name, sizes, true, |n| one(ex(Seq(items(n)))))),
          1 => v.push(family(name, sizes, true, |n| one(ex(Alt((0..n).map(|i| ex(Seq(vec![lit(&format!("k{}", i)), row(k, i).0]))).collect()))))),
          2 => v.push(family(name, sizes, false, |n| one(act(ex(Seq(items(n))))))),
          3 => v.push(family(name, sizes, true, |n| one(ex(Star(bx(Seq([vec![lit("s")], items(n)].concat()))))))),
          4 => v.push(family(name, sizes, true, |n| one(ex(Alt(vec![ex(Seq([vec![lit("s")], items(n)].concat())), lit("t")]))))),
          _ => if valued && k != 15 { v.push(family(name, sizes, false, |n| one(ex(Seq([vec![lit("s")], items(n)].concat()))))) },
        }
      }
    }
    // Chains of rules, each calling the next one twice.
    for k in 0..4 {
      v.push(family(format!("chain {}", k), sizes, k % 2 == 0, |n| {
        let mut g = Gram::default();
        for i in 0..n {
          let c = || ex(Ref(i + 1));
          let b = if k < 2 { ex(Seq(vec![lit("a"), ex(As(Box::new(c()), Asc::Inv)), ex(As(Box::new(c()), Asc::Inv))])) } else { ex(Alt(vec![ex(Seq(vec![c(), lit("a")])), ex(Seq(vec![lit("b"), c()])), c()])) };
          g.rules.push(Rule { name: format!("r{}", i), body: b, lhs: false });
        }
        g.rules.push(Rule { name: format!("r{}", n), body: lit("z"), lhs: false });
        g
      }));
    }
  }
  // Chains of rules: a random body in which two literals are replaced by the next rule. The last rule consumes, or looks ahead.
  // What is done rule by rule may not be done again for every path that leads to the rule.
  let long: &[usize] = &[3, 6, 9, 15, 30, 45];
  let mut chain = |v: &mut Vec<Family>, name: String, body_of: &dyn Fn(&dyn Fn() -> Ex) -> Ex, leaf: Ex| {
    let mk = |n: usize| {
      let mut g = Gram::default();
      for i in 0..n {
        let c = || ex(As(bx(Ref(i + 1)), Asc::Inv));
        let b = body_of(&c);
        // Rules are called from under an operator as well.
        let b = if i == 0 { ex(Seq(vec![ex(Not(Box::new(b))), ex(Any)])) } else { b };
        g.rules.push(Rule { name: format!("r{}", i), body: b, lhs: false });
      }
      g.rules.push(Rule { name: format!("r{}", n), body: leaf.clone(), lhs: false });
      g
    };
    let mut probe = mk(3);
    probe.number();
    if !model::well_formed(&probe).faults.is_empty() { return false }
    v.push(family(name, long, true, mk));
    true
  };
  let leaves = || vec![lit("z"), cl(), ex(And(bx(Lit("z".into())))), ex(Not(bx(Lit("z".into())))), ex(Opt(bx(Lit("z".into())))), ex(Seq(vec![ex(And(Box::new(cl()))), ex(Any)]))];
  if first {
    for (i, l) in leaves().into_iter().enumerate() {
      chain(&mut v, format!("two calls as branches, leaf {}", i), &|c| ex(Alt(vec![c(), c()])), l.clone());
      chain(&mut v, format!("two calls in a row, leaf {}", i), &|c| ex(Seq(vec![c(), c()])), l.clone());
      for k in 0..4 {
        let u = move |e: Ex| match k { 0 => ex(Not(Box::new(e))), 1 => ex(And(Box::new(e))), 2 => ex(Opt(Box::new(e))), _ => ex(Plus(Box::new(e))) };
        chain(&mut v, format!("operator {} on two calls as branches, leaf {}", k, i), &|c| u(ex(Alt(vec![c(), c()]))), l.clone());
        chain(&mut v, format!("operator {} on the calls of two branches, leaf {}", k, i), &|c| ex(Alt(vec![u(c()), u(c())])), l.clone());
        chain(&mut v, format!("operator {} on two calls in a row, leaf {}", k, i), &|c| ex(Seq(vec![u(c()), u(c()), ex(Any)])), l.clone());
      }
    }
  }
  let mut made = 0;
  for i in 0..if quick { 400 } else { 600 } {
    if made >= if quick { 60 } else { 150 } { break }
    let cfg = Cfg { rules: (1, 1), depth: 3, size: 8, unit_rules: 100, act: 2, asc: 3, opt: 7, alt: 18, rep: 7, pred: 12, span: 3, range: 2, poly: 0, wide: 0, unicode: 0, ..Cfg::base() };
    let (g, _) = gen::grammar(r, &cfg);
    let mut holes = vec![];
    g.rules[0].body.walk(&mut |e| if let Lit(s) = &e.k { if !s.is_empty() { holes.push(e.id) } });
    if holes.len() < 2 || g.has(&|e| matches!(e.k, Ref(_))) { continue }
    let (h1, h2) = (*r.pick(&holes), *r.pick(&holes));
    if h1 == h2 { continue }
    let mut t = g.rules[0].body.clone();
    t.walk_mut(&mut |e| if e.id == h1 || e.id == h2 { e.id = usize::MAX } else { e.id = 0 });
    fn put(t: &Ex, c: &dyn Fn() -> Ex) -> Ex {
      if t.id == usize::MAX { return c() }
      let mut t = t.clone();
      for k in t.kids_mut() { *k = put(k, c) }
      t
    }
    let leaf = r.pick(&leaves()).clone();
    if chain(&mut v, format!("chain {} of {}", i, g.text()), &|c| put(&t, c), leaf) { made += 1 }
  }
  // Random periods of contexts.
  for i in 0..if quick { 120 } else { 200 } {
    let ks: Vec<usize> = (0..r.range(2, 4)).map(|_| r.below(NEST)).collect();
    let leaf = r.below(ROW);
    v.push(family(format!("nest {:?} around {} ({})", ks, leaf, i), sizes, true, |n| grow(&ks, n, row(leaf, 0).0)));
    let ks: Vec<usize> = (0..r.range(2, 5)).map(|_| r.below(ROW)).collect();
    let top = r.below(NEST);
    v.push(family(format!("row {:?} in {} ({})", ks, top, i), sizes, true, |n| one(nest(top, ex(Seq((0..n).flat_map(|j| ks.iter().map(move |k| row(*k, j).0).collect::<Vec<_>>()).collect()))))));
  }
  // Random grammars with a hole that holds the grammar again.
  for i in 0..if quick { 120 } else { 200 } {
    let cfg = Cfg { rules: (1, 1), depth: 4, size: 12, unit_rules: 100, act: 5, asc: 3, opt: 7, alt: 14, rep: 7, pred: 5, span: 3, range: 2, poly: 0, wide: 0, unicode: 0, ..Cfg::base() };
    let (g, _) = gen::grammar(r, &cfg);
    let mut holes = vec![];
    g.rules[0].body.walk(&mut |e| if let Lit(s) = &e.k { if !s.is_empty() { holes.push(e.id) } });
    if holes.is_empty() || g.has(&|e| matches!(e.k, Ref(_))) { continue }
    let h = *r.pick(&holes);
    let mut c = g.rules[0].body.clone();
    c.walk_mut(&mut |e| if e.id == h { e.id = usize::MAX } else { e.id = 0 });
    fn fill(c: &Ex, inner: &Ex) -> Ex {
      let mut c = c.clone();
      if c.id == usize::MAX { return ex(Seq(vec![lit("#"), inner.clone()])) }
      for k in c.kids_mut() { *k = fill(k, inner) }
      c
    }
    let mk = |n: usize| { let mut e = lit("z"); for _ in 0..n { e = fill(&c, &e) } one(e) };
    let mut probe = mk(3);
    probe.number();
    if !model::well_formed(&probe).faults.is_empty() { continue }
    v.push(family(format!("hole {} in {}", i, g.text()), sizes, true, mk));
  }
  v
}

fn tokens(s: &str) -> usize {
  let b = s.as_bytes();
  let (mut i, mut n) = (0, 0);
  while i < b.len() {
    let c = b[i];
    if c.is_ascii_whitespace() { i += 1; continue }
    n += 1;
    if c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 { while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) { i += 1 } continue }
    if c == b'"' { i += 1; while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1 } i += 1 } }
    i += 1;
  }
  n
}

enum Grown { Sizes(Vec<usize>), Refused(String), Endless(f64), Skipped }

/// Enough families whose expansion does not end: the others are not looked at.
const ENOUGH: usize = 8;

/// Expands all members of some families; the tokens of each module.
fn expand(cx: &Cx, fs: &[&Family], endless: &AtomicUsize) -> Vec<Grown> {
  if endless.load(Ordering::SeqCst) >= ENOUGH { return fs.iter().map(|_| Grown::Skipped).collect() }
  let dir = cx.env.work.join(format!("x{}", cx.env.serial.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let mut src = String::from("#![allow(warnings)]\n");
  let mut n = 0;
  for f in fs { for b in &f.bodies { src.push_str(&format!("pub mod g{} {{\nuse oak::oak;\nuse oakrt::*;\noak! {{\n{}\n}}\n}}\n", n, b)); n += 1 } }
  src.push_str("fn main() {}\n");
  std::fs::write(dir.join("shard.rs"), src).unwrap();
  let mut c = Command::new("bash");
  let ext: Vec<String> = cx.env.externs.iter().map(|(n, f)| format!("--extern {}={}", n, f)).collect();
  c.current_dir(&dir).arg("-c").arg(format!("ulimit -v 3500000; exec rustc --edition 2021 --crate-name shard -L dependency={} {} -Zunpretty=expanded -o out.rs shard.rs", cx.env.deps, ext.join(" ")));
  let t0 = std::time::Instant::now();
  let st = exec::timed(&mut c, &dir.join("err"), Duration::from_secs(if fs[0].small { 30 } else { 60 }));
  let secs = t0.elapsed().as_secs_f64();
  let out = std::fs::read_to_string(dir.join("out.rs")).unwrap_or_default();
  let err = String::from_utf8_lossy(&std::fs::read(dir.join("err")).unwrap_or_default()).into_owned();
  let _ = std::fs::remove_dir_all(&dir);
  // Together they only save time: whatever goes wrong is looked at one by one.
  let bad = st.map_or(true, |s| !s.success());
  if bad && fs.len() > 1 {
    let k = if st.is_none() { 1 } else { (fs.len() + 2) / 3 };
    return fs.chunks(k).flat_map(|c| expand(cx, c, endless)).collect()
  }
  if bad {
    if st.map_or(true, |s| s.code().is_none()) || err.contains("memory allocation") || err.contains("overflowed its stack") || err.contains("LLVM ERROR") {
      endless.fetch_add(1, Ordering::SeqCst);
      return vec![Grown::Endless(secs)]
    }
    return vec![Grown::Refused(err.lines().filter(|l| l.starts_with("error")).take(2).collect::<Vec<_>>().join("; "))]
  }
  let mut sizes = vec![0; n];
  let mut cur: Option<(usize, usize)> = None;
  let lines: Vec<&str> = out.lines().collect();
  for (i, l) in lines.iter().enumerate() {
    if let Some(k) = l.strip_prefix("pub mod g").and_then(|x| x.strip_suffix(" {")).and_then(|x| x.parse::<usize>().ok()) { cur = Some((k, i)) }
    if *l == "}" { if let Some((k, a)) = cur.take() { sizes[k] = tokens(&lines[a..i].join("\n")) } }
  }
  let mut at = 0;
  fs.iter().map(|f| {
    let s = sizes[at..at + f.bodies.len()].to_vec();
    at += f.bodies.len();
    if s.contains(&0) { Grown::Refused("no expansion found".into()) } else { Grown::Sizes(s) }
  }).collect()
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "family of growing grammars expanded by the real macro at three sizes".into();
  let mut n = 0;
  while cx.more(n) {
    let quick = cx.rep.quick();
    let all = { let mut r = cx.rng.fork(); families(&mut r, quick, n == 0) };
    let endless = AtomicUsize::new(0);
    let mut refused = 0;
    let mut left: Vec<&Family> = all.iter().collect();
    for small in [true, false] {
      let fs: Vec<Family> = left.iter().map(|f| f.part(small)).collect();
      let res: Mutex<Vec<(usize, Grown)>> = Mutex::new(vec![]);
      let next = AtomicUsize::new(0);
      {
        let (cx, fs, res, next, endless) = (&*cx, &fs, &res, &next, &endless);
        std::thread::scope(|sc| { for _ in 0..cx.env.threads { sc.spawn(move || loop {
          let i = next.fetch_add(6, Ordering::SeqCst);
          if i >= fs.len() { break }
          let some: Vec<&Family> = fs[i..fs.len().min(i + 6)].iter().collect();
          let g = expand(cx, &some, endless);
          for (k, g) in g.into_iter().enumerate() { res.lock().unwrap().push((i + k, g)) }
        }); } });
      }
      let mut res = res.into_inner().unwrap();
      res.sort_by_key(|x| x.0);
      let mut fine = vec![];
      for (i, g) in res { if settle(cx, &fs[i], g, &mut refused) { fine.push(left[i]) } }
      left = fine;
    }
    cx.rep.count("families", all.len() as u64);
    cx.rep.count("families_refused", refused);
    if refused as usize * 2 > all.len() { cx.rep.inconclusive = Some(format!("{} of {} families refused", refused, all.len())) }
    n += 1;
  }
}

/// Judges one family; whether it is worth looking at its larger members.
fn settle(cx: &mut Cx, f: &Family, g: Grown, refused: &mut u64) -> bool {
  cx.rep.evaluations += f.sizes.len() as u64;
  match g {
    Grown::Skipped => { cx.rep.count("families_skipped", 1); return false }
    Grown::Refused(e) => { *refused += 1; if std::env::var("OAKV_DEBUG").is_ok() { eprintln!("refused {}: {}\n{}", f.name, e, f.bodies[0]) } return false }
    Grown::Endless(s) => cx.rep.violation(&format!("endless:{}", f.name), format!("expansion of {} at sizes {:?} did not end ({:.0} s) or ran out of memory; smallest member:\n{}", f.name, f.sizes, s, f.bodies[0]), f.bodies.join("\n\n")),
    Grown::Sizes(s) => {
      cx.rep.nontrivial(&f.name);
      cx.rep.count("tokens_generated", s.iter().sum::<usize>() as u64);
      cx.rep.count("expressions", f.nodes.iter().sum::<usize>() as u64);
      let (d1, d2) = ((s[1] - s[0].min(s[1])) as f64, (s[2] - s[1].min(s[2])) as f64);
      let (m1, m2) = ((f.nodes[1] - f.nodes[0]) as f64, (f.nodes[2] - f.nodes[1]) as f64);
      // Tokens per additional expression, between the two pairs of sizes.
      let (p1, p2) = (d1 / m1, d2 / m2);
      cx.rep.max("most_tokens_per_expression", p2.ceil() as u64);
      cx.rep.max("worst_growth_percent", (100.0 * p2 / p1.max(1.0)) as u64);
      cx.rep.sample(5, || json::obj(vec![("family", json::s(f.name.clone())), ("smallest", json::s(f.bodies[0].clone())), ("expressions", json::s(format!("{:?}", f.nodes))), ("tokens", json::s(format!("{:?}", s)))]));
      if std::env::var("OAKV_DEBUG").is_ok() && (p2 > 1.1 * p1 || p2 > 90.0) { eprintln!("{:.1} {:.1} {} {:?} {:?}", p1, p2, f.name, f.nodes, s) }
      if p2 > 1.35 * p1 + 4.0 {
        cx.rep.violation(&format!("growth:{}", f.name), format!("code of {} grows faster than the grammar: {:?} tokens for {:?} expressions; smallest member:\n{}", f.name, s, f.nodes, f.bodies[0]), f.bodies.join("\n\n"));
        return false
      }
      return true
    }
  }
  false
}
