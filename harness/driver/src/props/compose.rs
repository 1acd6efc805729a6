//! P17: rules calling rules of other grammars and hand-written ones, parses continued by others.
use super::*;
use crate::exec::*;
use crate::gen;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model::{self, Out, Typing, World};

const OVER: usize = 12;

struct Lib { g: Gram, t: Typing }

fn rename_actions(g: &mut Gram, prefix: &str) {
  for r in &mut g.rules { r.body.walk_mut(&mut |e| if let Act(_, a) = &mut e.k { if !a.name.is_empty() { a.name = format!("{}_{}", a.name, prefix) } }) }
}

fn small(t: &Typing) -> bool { !t.rule.iter().any(|t| t.card() > OVER) && !t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > OVER)) }

/// The rules of a library that may be called from outside: oak takes such rules for consuming ones that may fail.
fn callable(g: &Gram, t: &Typing) -> Vec<usize> {
  let w = model::well_formed(g);
  (0..g.rules.len()).filter(|i| w.rules[*i].consume && w.rules[*i].fail && !t.rule[*i].real().contains("Range")).collect()
}

/// Where library `k` lives: its modules, from the one of the main grammar. Some are called like rules.
fn home(gid: u32, k: usize) -> Vec<String> {
  match gid % 5 {
    0 | 1 => vec![format!("lib{}", k)],
    2 => vec![format!("r{}", k - 1)],
    3 => vec![format!("nest{}", k), "inner".into()],
    _ => vec![format!("rec{}", k), format!("r{}", k % 3), "r0".into()],
  }
}

fn path(r: &mut Rng, gid: u32, from: usize, k: usize, rule: &str) -> String {
  let h = home(gid, k).join("::");
  let up = "super::".repeat(home(gid, 1).len());
  match (r.below(4), from > 0) {
    (0, _) if r.pct(40) => format!("::oakroot::g{}::{}::{}", gid, h, rule),
    (0, _) => format!("crate::g{}::{}::{}", gid, h, rule),
    (1, true) => format!("{}same{}::{}", up, k, rule),
    (_, true) => format!("{}{}::{}", up, h, rule),
    (1, false) => format!("self::{}::{}", h, rule),
    (2, false) => format!("same{}::{}", k, rule),
    _ => format!("{}::{}", h, rule),
  }
}

/// Grammar 0 calls the others, each of which may call those before it; sometimes the last one calls back.
fn world(r: &mut Rng, gid: u32) -> Option<(World, bool)> {
  let unicode = if r.pct(25) { 100 } else { 0 };
  let spans = r.pct(25);
  let base = Cfg { hand: 0, span: if spans { 5 } else { 0 }, range: if spans { 4 } else { 1 }, unicode, act: 9, poly: 2, ..Cfg::base() };
  let mut libs: Vec<Lib> = vec![];
  let n = *r.pick(&[1, 1, 2, 2, 3]);
  let mut more: Vec<(usize, usize, String)> = vec![];
  let mut back = None;
  for k in 1..=n {
    let cfg = Cfg { rules: (1, 4), depth: 4, size: 14, hand: if k > 1 { 8 } else if r.pct(30) { 3 } else { 0 }, ..base.clone() };
    let exts: Vec<ExtDef> = more.iter().map(|(g, i, ty)| ExtDef { path: path(r, gid, k, *g, &libs[*g - 1].g.rules[*i].name), ty: ty.clone(), sem: Sem::Rule(*g, *i) }).collect();
    let (mut g, mut t) = gen::grammar_with(r, &cfg, exts);
    rename_actions(&mut g, &format!("l{}", k));
    if k == n && r.pct(40) {
      // `back = "<" top ">"`, where `top` of the main grammar calls `back`.
      let i = g.exts.len();
      g.exts.push(ExtDef { path: if r.pct(50) { format!("{}top", "super::".repeat(home(gid, 1).len())) } else { format!("crate::g{}::top", gid) }, ty: "N<0>".into(), sem: Sem::Rule(0, usize::MAX) });
      g.rules.push(Rule { name: "back".into(), body: ex(Seq(vec![lit("<"), ex(As(bx(Ext(i)), Asc::Rust("N<0>".into()))), lit(">")])), lhs: false });
      g.number();
      t = model::infer(&g).ok()?;
      back = Some((k, g.rules.len() - 1));
    }
    for i in callable(&g, &t) { more.push((k, i, t.rule[i].real())) }
    libs.push(Lib { g, t });
  }
  if more.is_empty() { return None }
  let exts: Vec<ExtDef> = more.iter().map(|(g, i, ty)| ExtDef { path: path(r, gid, 0, *g, &libs[*g - 1].g.rules[*i].name), ty: ty.clone(), sem: Sem::Rule(*g, *i) }).collect();
  let cfg = Cfg { hand: 12, rules: (1, 4), ..base };
  let (mut g, mut t) = gen::grammar_with(r, &cfg, exts);
  if let Some((k, i)) = back {
    let e = g.exts.len();
    g.exts.push(ExtDef { path: path(r, gid, 0, k, "back"), ty: "N<0>".into(), sem: Sem::Rule(k, i) });
    let leaf = ex(Act(bx(Cl(vec![Cls::Rng('a', 'c'), Cls::One('é')])), Action { name: "ftop".into(), kind: AKind::In(0), boxed: false }));
    let call = ex(As(bx(Ext(e)), Asc::Rust("N<0>".into())));
    let v = match r.below(3) { 0 => vec![call, leaf], 1 => vec![leaf, call], _ => vec![ex(Seq(vec![lit("-"), ex(Ref(g.rules.len()))])), call, leaf] };
    let top = g.rules.len();
    g.rules.push(Rule { name: "top".into(), body: ex(Alt(v)), lhs: false });
    g.number();
    t = model::infer(&g).ok()?;
    let l = &mut libs[k - 1].g;
    let m = l.exts.len() - 1;
    l.exts[m].sem = Sem::Rule(0, top);
  }
  if !small(&t) || libs.iter().any(|l| !small(&l.t)) { return None }
  if !g.has(&|e| matches!(e.k, Ext(_))) { return None }
  let mut w = World { grams: vec![g], types: vec![t] };
  for l in libs { w.grams.push(l.g); w.types.push(l.t) }
  Some((w, spans))
}

fn unit(w: &World, gid: u32, s: Strm, st: &mut Style) -> Unit {
  let mut src = String::from("use oak::oak;\nuse oakrt::*;\npub mod oakroot {}\n");
  for k in 1..w.grams.len() {
    let u = exec::unit(gid, &w.grams[k], &w.types[k], s, st);
    let h = home(gid, k);
    let open: String = h.iter().map(|m| format!("pub mod {} {{\n", m)).collect();
    // Another item of the name of the crate: only a path starting with `::` leads to the latter.
    src.push_str(&format!("{}{}\npub mod oakroot {{}}\n{}\nuse self::{} as same{};\n", open, u.src, "}\n".repeat(h.len()), h.join("::"), k));
  }
  let (inn, out) = exec::functions(&w.grams[0], &w.types[0]);
  src.push_str(&format!("{}\noak! {{\n{}\n}}", out.join("\n"), exec::macro_body(&w.grams[0], &inn, s, st)));
  Unit { gid, src, entries: exec::entries_of(gid, &w.grams[0], s, "") }
}

/// All grammars in one, external rules called directly. Where the calls went, no value is asked for.
fn merged(w: &World) -> Option<(Gram, Typing)> {
  let mut first = vec![];
  let mut at = 0;
  for g in &w.grams { first.push(at); at += g.rules.len() }
  let mut m = Gram { exts: gen::hand_exts(), ..Gram::default() };
  for (k, g) in w.grams.iter().enumerate() {
    for r in &g.rules {
      let mut b = r.body.clone();
      b.walk_mut(&mut |e| match &e.k {
        Ref(i) => e.k = Ref(first[k] + *i),
        Ext(i) => match &g.exts[*i].sem { Sem::Rule(g2, r2) => e.k = Ref(first[*g2] + *r2), Sem::Hand(h) => e.k = Ext(if *h == "num" { 0 } else { 1 }) },
        _ => {}
      });
      m.rules.push(Rule { name: format!("{}{}", if k == 0 { String::new() } else { format!("lib{}_", k) }, r.name), body: ex(As(Box::new(b), Asc::Unit)), lhs: false });
    }
  }
  m.number();
  if !model::well_formed(&m).faults.is_empty() { return None }
  let t = model::infer(&m).ok()?;
  if !small(&t) { return None }
  Some((m, t))
}

fn followed(a: &Out, b: Option<&Out>) -> Out {
  let mut o = a.clone();
  if let Some(b) = b {
    o.ok = b.ok;
    o.end = b.end;
    o.data = if b.ok { format!("({},{})", a.data, b.data) } else { String::new() };
    o.calls.extend(b.calls.iter().cloned());
    o.terms += b.terms;
    o.iters += b.iters;
    o.backtracks += b.backtracks;
    if !b.exp.is_empty() {
      if b.far > o.far { o.far = b.far; o.exp = b.exp.clone() } else if b.far == o.far { o.exp.extend(b.exp.iter().cloned()) }
    }
  }
  o
}

/// Modules of several grammars calling one another, with inputs for the rules of the first.
pub fn worlds(cx: &mut Cx, many: usize, s: &Spec) -> Vec<G> {
  let mut gs: Vec<G> = vec![];
  let mut tries = 0;
  while gs.len() < many && tries < 8000 {
    tries += 1;
    let gid = gs.len() as u32;
    let mut r = cx.rng.fork();
    let (w, spans) = match world(&mut r, gid) { Some(x) => x, None => continue };
    let strm = if spans { if r.pct(30) { Strm::File } else { Strm::Str } } else { Strm::Mon };
    let mut st = if r.pct(15) { Style::wild(r.fork()) } else { Style::plain() };
    let u = unit(&w, gid, strm, &mut st);
    let cases = pipe::cases(&mut r, s, &w);
    cx.rep.count("modules", w.grams.len() as u64);
    gs.push(G { gid, world: w, strm, unit: u, cases });
  }
  gs
}

/// One round of them.
pub fn composed(cx: &mut Cx, many: usize, s: &Spec, aspects: u32, interesting: &dyn Fn(&G, &C) -> bool) {
  let mut gs = worlds(cx, many, s);
  let b = pipe::execute(&cx.env, &mut gs, s, 6);
  lost(cx, &gs, &b, Losses::Rustc);
  pipe::judge(&mut cx.rep, &gs, aspects, interesting);
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "composed grammar, rule and input whose reference evaluation went into a rule outside of the grammar; pair of rules where the second parse started from the first one's end".into();
  let mut n = 0;
  while cx.more(n) {
    let s = Spec { inputs: 10, offset: 30, ..spec(vec![(1, Cfg::base())], 0) };
    let many = if cx.rep.quick() { 130 } else { 250 };
    let mut gs = worlds(cx, many, &s);
    let base = gs.len();
    let mut ids = vec![];
    for i in 0..base {
      let (m, t) = match merged(&gs[i].world) { Some(x) => x, None => continue };
      let gid = 10000 + i as u32;
      let strm = if gs[i].world.grams.iter().any(pipe::needs_str) { Strm::Str } else { Strm::Mon };
      let u = exec::unit(gid, &m, &t, strm, &mut Style::plain());
      let world = World::one(m, t);
      let cases: Vec<C> = gs[i].cases.iter().map(|c| C { rule: c.rule, start: c.start, text: c.text.clone(), rec: c.rec.clone(), par: c.rec.clone(), obs_r: None, obs_p: None }).collect();
      ids.push(i);
      gs.push(G { gid, world, strm, unit: u, cases });
    }
    let b = pipe::execute(&cx.env, &mut gs, &s, 6);
    lost(cx, &gs, &b, Losses::Rustc);
    let tail: Vec<G> = gs.split_off(base);
    pipe::judge(&mut cx.rep, &gs, OUTCOME | DATA | CALLS | FAIL | TERMS | CLASS | STREAM | TYPE, &|g, c| {
      // Something of the reach of the rule is outside, and the text was not refused at once.
      g.gram().has(&|e| matches!(e.k, Ext(_)) && c.rec.cov.iter().any(|x| x.0 == e.id))
    });
    // (The merged grammars deliver no values: their parsers are judged like recognizers.)
    for (k, h) in tail.iter().enumerate() {
      let g = &gs[ids[k]];
      for (c, d) in g.cases.iter().zip(&h.cases) {
        let (x, y) = match (&c.obs_r, &d.obs_r) { (Some(x), Some(y)) => (x, y), _ => continue };
        cx.rep.evaluations += 1;
        cx.rep.count("compared_with_merged", 1);
        if x.status != y.status || (x.status == "ok" && x.end != y.end) || x.far != y.far || x.exp != y.exp {
          let name = &g.gram().rules[c.rule].name;
          cx.rep.violation(&format!("{}:{}:{}", crate::rng::hash(&g.unit.src), name, c.text), format!("recognize_{} on {} from {}: {} up to {}, furthest failure {} {:?}; with all rules in one grammar: {} up to {}, furthest failure {} {:?}\nin:\n{}", name, pipe::brief(&c.text), c.start, x.status, x.end, x.far, x.exp, y.status, y.end, y.far, y.exp, g.unit.src), describe(h, d, "recognize"));
        }
      }
    }
    continued(cx, &s);
    n += 1;
  }
}

/// A second parse from the state another left.
fn continued(cx: &mut Cx, s: &Spec) {
  let s2 = Spec { cfgs: vec![(3, Cfg { act: 8, ..Cfg::base() }), (1, Cfg { span: 5, range: 3, ..Cfg::base() })], grams: if cx.rep.quick() { 60 } else { 100 }, inputs: 6, ..Spec { cfgs: vec![], ..*s } };
  let mut gs = pipe::build(&mut cx.rng, &s2, 0);
  let mut jobs = vec![];
  let mut want: Vec<(usize, String, Out, bool, String)> = vec![];
  for (gi, g) in gs.iter_mut().enumerate() {
    let n = g.gram().rules.len();
    let mut pairs = vec![];
    for c in &g.cases {
      if !c.par.ok { continue }
      let j = cx.rng.below(n);
      if pairs.len() < 5 && !pairs.contains(&(c.rule, j)) { pairs.push((c.rule, j)) }
      for (i, j) in pairs.iter().filter(|p| p.0 == c.rule) {
        // The text, perhaps followed by something for the second rule.
        let mut text = c.text.clone();
        if cx.rng.pct(60) {
          let more: Vec<&C> = g.cases.iter().filter(|d| d.rule == *j && d.start == 0).collect();
          if !more.is_empty() { text = format!("{}{}", &c.text[..c.par.end], cx.rng.pick(&more).text) }
        }
        let name = format!("{}+{}", g.gram().rules[*i].name, g.gram().rules[*j].name);
        for parser in [false, true] {
          let a = match model::run(&g.world, 0, *i, &text, c.start, parser, 12000) { Some(o) => o, None => continue };
          let b = if a.ok { match model::run(&g.world, 0, *j, &text, a.end, parser, 12000) { Some(o) => Some(o), None => continue } } else { None };
          let o = followed(&a, b.as_ref());
          jobs.push(Job { gid: g.gid, rule: name.clone(), mode: if parser { "P" } else { "R" }, start: c.start, budget: pipe::budget(&o) + 2 * c.start as u64, text: text.clone() });
          want.push((gi, name.clone(), o, parser, text.clone()));
        }
      }
    }
    for (i, j) in pairs {
      let (a, b) = (g.gram().rules[i].name.clone(), g.gram().rules[j].name.clone());
      for (m, f) in [("R", "recognize"), ("P", "parse")] {
        g.unit.entries.push(format!("Entry {{ gid: {}, rule: \"{}+{}\", mode: \"{}\", f: {} }}", g.gid, a, b, m, exec::call(g.strm, &format!("then({}_{}, {}_{})", f, a, f, b))));
      }
    }
  }
  let units: Vec<Unit> = gs.iter().map(|g| g.unit.clone()).collect();
  let b = exec::batch(&cx.env, &units, &jobs, 8);
  lost(cx, &gs, &b, Losses::Rustc);
  for (o, (gi, name, w, parser, text)) in b.obs.iter().zip(&want) {
    if o.status == "uncompiled" || o.status == "skipped" { continue }
    let g = &gs[*gi];
    cx.rep.evaluations += 1;
    cx.rep.count("continued_parses", 1);
    if w.ok { cx.rep.count("continued_parses_ok", 1); cx.rep.nontrivial(&format!("{}\u{1}{}\u{1}{}", g.gram().text(), name, text)) }
    let exp: Vec<String> = w.exp.iter().cloned().collect();
    let good = pipe::ended(o) && (o.status == "ok") == w.ok && (!w.ok || o.end == w.end) && o.far == w.far && o.exp == exp && o.calls == w.calls && (!*parser || !w.ok || o.data == w.data) && o.has_data == w.ok;
    if !good {
      cx.rep.violation(&format!("then:{}:{}:{}", crate::rng::hash(&g.gram().text()), name, text), format!("{} one after the other ({}) on {}: {} up to {} with {}, furthest failure {} {:?}, calls {:?}; reference: {} up to {} with {}, {} {:?}, {:?}\nin grammar:\n{}", name, if *parser { "parsers" } else { "recognizers" }, pipe::brief(text), o.status, o.end, o.data, o.far, o.exp, o.calls, w.ok, w.end, w.data, w.far, exp, w.calls, g.gram().text()), g.unit.src.clone());
    }
  }
  cx.rep.sample(6, || json::obj(vec![("continued", json::s(want.first().map(|w| format!("{} on {:?}", w.1, w.4)).unwrap_or_default()))]));
}
