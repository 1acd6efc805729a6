//! P18: several presentations of one grammar.
use super::*;
use crate::exec::*;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model::{self, Typing, World};
use oakrt::Obs;

const NAMES: &[&str] = &["state", "mark", "stateful", "stateless", "a1", "a2", "result", "success", "failure", "branch", "branch_0", "branch_failed", "counter", "history", "value", "data", "x", "Rule", "RULE", "_", "r", "rr", "é", "変数", "parse", "recognize",
  "parse_r0", "recognize_r0", "stream", "oak", "oak_runtime", "std", "core", "some", "current", "lo_sp", "hi_sp", "sp", "span", "range", "very_long_name_of_a_rule_that_nobody_would_ever_write_down_in_a_grammar_but_that_is_legal", "i0", "f0", "f1", "act", "skip", "closure", "r#match", "r#fn", "r#type", "union", "auto", "default",
  "ws", "spacing", "_ws", "_", "__", "_digit", "eof", "EOF", "comment", "digit", "ident", "identifier", "keyword", "string", "number", "start", "main", "root", "expr", "expression", "token", "newline", "Skip", "ignore", "whitespace", "any", "empty", "epsilon"];

/// Groups parts of sequences and choices, or dissolves groups.
fn regroup(e: &mut Ex, r: &mut Rng, n: &mut u32) {
  for k in e.kids_mut() { regroup(k, r, n) }
  let (v, seq) = match &e.k { Seq(v) => (v.clone(), true), Alt(v) => (v.clone(), false), _ => return };
  let mut v = v;
  let make = |v: Vec<Ex>| ex(if seq { Seq(v) } else { Alt(v) });
  if r.pct(35) {
    // Dissolve.
    let mut flat = vec![];
    for x in v { match (&x.k, seq) { (Seq(w), true) | (Alt(w), false) => { *n += 1; flat.extend(w.iter().cloned()) } _ => flat.push(x) } }
    v = flat;
  }
  if v.len() > 2 && r.pct(60) {
    let i = r.below(v.len() - 1);
    let j = r.range(i + 2, v.len());
    if j - i < v.len() {
      let mid: Vec<Ex> = v.splice(i..j, vec![]).collect();
      v.insert(i, make(mid));
      *n += 1;
    }
  }
  e.k = make(v).k;
}

/// What a presentation changes, for the report.
struct Pres { how: Vec<&'static str>, g: Gram, perm: Vec<usize>, style: Style, head: String }

fn present(g: &Gram, t: &Typing, r: &mut Rng, which: usize) -> Option<(Pres, Typing)> {
  let mut how = vec![];
  let mut h = g.clone();
  // Which changes: all of a kind in turn, then mixtures.
  let on = |k: usize, r: &mut Rng| match which { 0 => r.pct(55), w => w == k };
  let mut style = Style::plain();
  if on(1, r) { how.push("parentheses"); style = Style { rng: Some(r.fork()), parens: 55, ..style } }
  if on(2, r) { how.push("layout"); style = Style { rng: Some(r.fork()), comments: 15, spaces: 55, ..style } }
  if on(3, r) { how.push("spelling"); style = Style { rng: Some(r.fork()), spelling: 80, ..style } }
  if on(4, r) {
    let mut n = 0;
    for x in &mut h.rules { regroup(&mut x.body, r, &mut n) }
    if n > 0 { how.push("grouping") }
  }
  if on(5, r) {
    for x in &mut h.rules { if let As(..) = x.body.k { if r.pct(70) { x.lhs = !x.lhs; if !how.contains(&"ascription side") { how.push("ascription side") } } } }
  }
  let n = h.rules.len();
  let mut perm: Vec<usize> = (0..n).collect();
  if on(6, r) && n > 1 {
    how.push("rule order");
    r.shuffle(&mut perm);
    let mut rules: Vec<Option<Rule>> = (0..n).map(|_| None).collect();
    for (i, x) in h.rules.iter().enumerate() { let mut x = x.clone(); x.body.walk_mut(&mut |e| if let Ref(j) = &e.k { e.k = Ref(perm[*j]) }); rules[perm[i]] = Some(x) }
    h.rules = rules.into_iter().map(|x| x.unwrap()).collect();
    h.poly = h.poly.iter().map(|i| perm[*i]).collect();
  }
  if on(7, r) {
    how.push("names");
    let mut names: Vec<&str> = NAMES.iter().filter(|n| **n != "_").cloned().collect();
    r.shuffle(&mut names);
    // What surrounds a name might be given a meaning.
    let mut used = std::collections::BTreeSet::new();
    for (x, n) in h.rules.iter_mut().zip(names) {
      let n = n.trim_start_matches("r#");
      let mut new = match r.below(8) {
        0 | 1 => format!("_{}", n), 2 => format!("{}_", n), 3 => format!("{}{}", r.pick(&["__", "skip_", "hidden_", "is_", "S", "X_", "p_"]), n),
        4 => format!("{}{}", n, r.pick(&["__", "1", "_rule", "_opt", "List", "_token", "s", "_ws", "2"])), 5 => n.chars().enumerate().flat_map(|(i, c)| if i == 0 { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(), _ => n.to_string(),
      };
      if ["match", "fn", "type"].contains(&&*new) { new = format!("r#{}", new) }
      while !used.insert(new.clone()) || ["Self", "_"].contains(&&*new) { new.push('9') }
      x.name = new;
    }
    if r.pct(30) { let v = crate::gen::siblings(r, h.rules.len()); for (x, n) in h.rules.iter_mut().zip(v) { x.name = n } }
  }
  if which == 8 || (which < 9 && r.pct(30)) { how.push("item order") }
  let mut head = String::new();
  if which == 9 || (which == 0 && r.pct(25)) {
    how.push("attributes");
    for _ in 0..r.range(1, 3) { head.push_str(*r.pick(ATTRS)); head.push('\n') }
  }
  if which == 10 || (which == 0 && r.pct(25)) { how.push("macro"); style = Style { rng: Some(style.rng.take().unwrap_or_else(|| r.fork())), vars: Some(vec![]), ..style } }
  if how.is_empty() { return None }
  h.number();
  if !model::well_formed(&h).faults.is_empty() { return None }
  let u = model::infer(&h).ok()?;
  // Grouping must not change the types the reference gives.
  if (0..n).any(|i| u.rule[perm[i]].real() != t.rule[i].real()) { return None }
  Some((Pres { how, g: h, perm, style, head }, u))
}

/// Attributes of the grammar: two print what was inferred while compiling, others are announced and ignored.
const ATTRS: &[&str] = &["#![show_typing]", "#![debug_typing]", "#![debug_typing]", "#![no_such_attribute]", "#![tool::option]", "#![limits(rules = 3)]", "//! What the grammar is about."];

const ITEMS: &[&str] = &["pub struct Extra { pub a: u8 }", "pub const LIMIT: usize = 3;", "use std::collections::HashMap as Map;", "pub enum Shape { Dot, Line }", "impl Default for Shape { fn default() -> Shape { Shape::Dot } }", "pub fn helper<T>(x: T) -> T { x }", "pub static NAME: &'static str = \"name\";", "pub trait Visit { fn visit(&self); }", "pub type Pair = (char, char);"];

fn unit(gid: u32, g: &Gram, t: &Typing, s: Strm, st: &mut Style, items: &[&str], shuffle: Option<&mut Rng>, head: &str, dir: &std::path::Path) -> Unit {
  let (mut inn, out) = exec::functions(g, t);
  for f in inn.iter_mut() {
    let (i, j) = match (f.find(" -> "), f.find(" { ")) { (Some(i), Some(j)) if i + 4 < j => (i + 4, j), _ => continue };
    let ty = st.var(&["ty"], f[i..j].to_string());
    f.replace_range(i..j, &ty);
  }
  inn.extend(items.iter().map(|x| x.to_string()));
  let body = match shuffle {
    None => exec::macro_body(g, &inn, s, st),
    Some(r) => {
      let mut lines: Vec<String> = inn;
      let sl = exec::stream_line(s);
      if !sl.is_empty() { lines.push(sl.to_string()) }
      r.shuffle(&mut lines);
      // Rules keep their order, items go anywhere.
      let mut rules: Vec<String> = g.rules.iter().map(|x| g.render_rule(x, st)).collect();
      for l in lines { let at = r.below(rules.len() + 1); rules.insert(at, l) }
      rules.join("\n")
    }
  };
  let mut call = format!("oak! {{\n{}{}\n}}", head, body);
  if let Some(vars) = &st.vars {
    // Written by a macro, from this file or another one, with parts of its own and parts from its caller.
    let params: Vec<String> = vars.iter().enumerate().map(|(i, v)| format!("$v{}:{}", i, v.0)).collect();
    let args: Vec<&str> = vars.iter().map(|v| &*v.1).collect();
    let mut def = format!("macro_rules! grammar_{} {{ ({}) => {{ {} }} }}", gid, params.join(", "), call);
    if gid % 3 != 0 {
      let f = dir.join(format!("macro-{}.rs", gid));
      std::fs::write(&f, &def).expect("file of a macro");
      def = format!("include!(\"{}\");", f.display());
    }
    call = format!("{}\ngrammar_{}! {{ {} }}", def, gid, args.join(", "));
  }
  Unit { gid, src: format!("use oak::oak;\nuse oakrt::*;\n{}\n{}", out.join("\n"), call), entries: exec::entries_of(gid, g, s, "") }
}

/// The source with the macro that is in another file.
fn shown(src: &str) -> String {
  match src.find("include!(\"") {
    Some(i) => { let f = &src[i + 10..]; let f = &f[..f.find('"').unwrap()]; format!("{}\n// in another file:\n{}", src, std::fs::read_to_string(f).unwrap_or_default()) }
    None => src.to_string(),
  }
}

fn compare(a: &Obs, b: &Obs) -> Vec<String> {
  let mut v = vec![];
  if a.status != b.status { v.push(format!("ended with {} and {}", a.status, b.status)); return v }
  if a.status == "ok" && a.end != b.end { v.push(format!("consumed up to {} and {}", a.end, b.end)) }
  if a.data != b.data { v.push(format!("delivered {} and {}", a.data, b.data)) }
  if a.ty != b.ty { v.push(format!("types {} and {}", a.ty, b.ty)) }
  if a.calls != b.calls { v.push(format!("called {:?} and {:?}", a.calls, b.calls)) }
  if a.far != b.far || a.exp != b.exp { v.push(format!("furthest failure {} {:?} and {} {:?}", a.far, a.exp, b.far, b.exp)) }
  if a.class != b.class { v.push(format!("classified {} and {}", a.class, b.class)) }
  v
}

/// Grammars that were, or are, treated differently in another order of their rules.
fn orders(cx: &mut Cx) {
  let az = || ex(Cl(vec![Cls::Rng('a', 'z')]));
  let items = |r: usize| ex(Opt(bx(Seq(vec![ex(Ref(r)), ex(Star(bx(Seq(vec![lit(","), ex(Ref(r))]))))]))));
  let grammars: Vec<(&str, Vec<(&str, Ex)>)> = vec![
    ("list-of-itself", vec![("list", ex(Seq(vec![lit("["), items(1), lit("]")]))), ("value", ex(Alt(vec![lit("x"), ex(Ref(0))])))]),
    ("char-before-itself", vec![("r0", ex(Seq(vec![az(), ex(Seq(vec![lit("["), ex(Ref(1))]))]))), ("r1", ex(Alt(vec![lit("y"), ex(Seq(vec![lit("["), ex(Ref(0))]))])))]),
    ("annotated-list-of-itself", vec![("list", ex(As(bx(Seq(vec![lit("["), items(1), lit("]")])), Asc::Inv))), ("value", ex(Alt(vec![lit("x"), ex(Ref(0))])))]),
    ("option-of-each-other", vec![("ab", ex(Seq(vec![az(), ex(Opt(bx(Ref(1))))]))), ("cd", ex(Seq(vec![az(), ex(Opt(bx(Ref(0))))])))]),
    ("parentheses", vec![("group", ex(Seq(vec![lit("("), ex(Ref(1)), lit(")")]))), ("value", ex(Alt(vec![az(), ex(Ref(0))])))]),
  ];
  let (mut units, mut jobs, mut names) = (vec![], vec![], vec![]);
  for (name, rules) in &grammars {
    for turn in [false, true] {
      let mut g = Gram::default();
      let n = rules.len();
      for i in 0..n {
        let (r, mut b) = rules[if turn { n - 1 - i } else { i }].clone();
        if turn { b.walk_mut(&mut |e| if let Ref(j) = &e.k { e.k = Ref(n - 1 - *j) }) }
        g.rules.push(Rule { name: r.into(), body: b, lhs: false });
      }
      g.number();
      let gid = units.len() as u32;
      for r in &g.rules { jobs.push(Job { gid, rule: r.name.clone(), mode: "P", start: 0, budget: 1000, text: String::new() }) }
      units.push(Unit { gid, src: format!("use oak::oak;\nuse oakrt::*;\noak! {{\n{}\n}}", exec::macro_body(&g, &[], Strm::Mon, &mut Style::plain())), entries: exec::entries_of(gid, &g, Strm::Mon, "") });
      names.push(*name);
    }
  }
  let b = exec::batch(&cx.env, &units, &jobs, 1);
  let seen = |gid: u32| -> String {
    match b.compiled.get(&gid) {
      None => "not compiled".into(),
      Some(c) if !c.ok => "refused".into(),
      _ => { let mut v: Vec<String> = jobs.iter().zip(&b.obs).filter(|(j, _)| j.gid == gid).map(|(j, o)| format!("{}: {}", j.rule, o.ty)).collect(); v.sort(); format!("accepted with {}", v.join(", ")) }
    }
  };
  for k in (0..units.len()).step_by(2) {
    let (x, y) = (seen(k as u32), seen(k as u32 + 1));
    cx.rep.evaluations += 1;
    cx.rep.count("orders_compared", 1);
    if x == "not compiled" || y == "not compiled" { continue }
    cx.rep.nontrivial(&format!("order {}", names[k]));
    if x != y { cx.rep.violation(&format!("order:{}", names[k]), format!("{} in one order of the rules, {} in the other:\n{}\n{}", x, y, units[k].src, units[k + 1].src), String::new()) }
  }
}

pub fn run(cx: &mut Cx) {
  orders(cx);
  cx.rep.rule = "grammar, presentation of it, rule and input on which both ran, with backtracking, repetition, captures or a value of several parts".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { pred: 6, rep: 8, opt: 6, act: 9, asc: 5, seq: 16, alt: 14, ..Cfg::base() };
    let c = vec![(5, v.clone()), (2, Cfg { wide: 100, ..v.clone() }), (2, Cfg { span: 6, range: 5, ..v.clone() }), (2, Cfg { depth: 9, size: 50, rules: (1, 3), ..v.clone() }), (1, Cfg { hand: 5, ..v.clone() }), (1, Cfg { rules: (6, 10), depth: 4, size: 10, refs: 16, ..v })];
    let s = Spec { inputs: 7, wild: 0, ..spec(c, if cx.rep.quick() { 72 } else { 120 }) };
    let mut gs = pipe::build(&mut cx.rng, &s, 0);
    let base = gs.len();
    let mut links: Vec<(usize, Vec<&'static str>)> = vec![];
    for i in 0..base {
      let mut r = cx.rng.fork();
      // User items in both.
      let items: Vec<&str> = if r.pct(50) { vec![] } else { let mut v: Vec<&str> = ITEMS.to_vec(); r.shuffle(&mut v); let k = r.range(1, 4); v.truncate(k); if v.iter().any(|x| x.starts_with("impl")) { v.retain(|x| !x.contains("enum")); v.push(ITEMS[3]) } v };
      {
        let g = &gs[i];
        let u = unit(g.gid, g.gram(), g.typing(), g.strm, &mut Style::plain(), &items, None, "", &cx.env.work);
        gs[i].unit = u;
      }
      // One kind of change alone, and two mixtures.
      for (j, which) in [1 + (i % 10), 0, 0].iter().enumerate() {
        let (p, t) = match (0..6).find_map(|_| present(gs[i].gram(), gs[i].typing(), &mut r, *which)) { Some(x) => x, None => continue };
        let gid = 10000 * (j as u32 + 1) + i as u32;
        let mut st = p.style.clone();
        let sh = p.how.contains(&"item order");
        let mut r2 = r.fork();
        let u = unit(gid, &p.g, &t, gs[i].strm, &mut st, &items, if sh { Some(&mut r2) } else { None }, &p.head, &cx.env.work);
        let cases = gs[i].cases.iter().map(|c| C { rule: p.perm[c.rule], start: c.start, text: c.text.clone(), rec: c.rec.clone(), par: c.par.clone(), obs_r: None, obs_p: None }).collect();
        for h in &p.how { cx.rep.count(&format!("changed_{}", h.replace(' ', "_")), 1) }
        links.push((i, p.how));
        let strm = gs[i].strm;
        gs.push(G { gid, world: World::one(p.g, t), strm, unit: u, cases });
      }
    }
    let b = pipe::execute(&cx.env, &mut gs, &s, 8);
    lost(cx, &gs[..base], &b, Losses::Rustc);
    // A presentation that does not compile, of a grammar that does.
    for (h, (i, how)) in gs[base..].iter().zip(&links) {
      let g = &gs[*i];
      let good = |gid: u32| b.compiled.get(&gid).map_or(false, |c| c.ok);
      if !good(g.gid) { continue }
      cx.rep.evaluations += 1;
      if !good(h.gid) {
        let m = b.compiled.get(&h.gid).map(|c| c.summary()).unwrap_or_default();
        cx.rep.violation(&format!("refused:{}", crate::rng::hash(&h.unit.src)), format!("accepted as\n{}\nbut refused with another {}: {}\n{}", g.unit.src, how.join(", "), m, shown(&h.unit.src)), format!("{:#?}", b.compiled.get(&h.gid).map(|c| &c.diags)));
        continue
      }
      cx.rep.sample(4, || json::obj(vec![("grammar", json::s(g.gram().text())), ("changed", json::s(how.join(", "))), ("presentation", json::s(shown(&h.unit.src)))]));
      for (c, d) in g.cases.iter().zip(&h.cases) {
        for (x, y, m) in [(&c.obs_r, &d.obs_r, "recognize"), (&c.obs_p, &d.obs_p, "parse")] {
          let (x, y) = match (x, y) { (Some(x), Some(y)) => (x, y), _ => continue };
          cx.rep.evaluations += 1;
          cx.rep.count("pairs_compared", 1);
          let v = compare(x, y);
          let name = &g.gram().rules[c.rule].name;
          if c.rec.backtracks > 0 || c.rec.iters > 1 || c.par.data.contains(',') { cx.rep.nontrivial(&format!("{}\u{1}{}\u{1}{}", h.unit.src, name, c.text)) }
          if !v.is_empty() {
            cx.rep.violation(&format!("{}:{}:{}", crate::rng::hash(&h.unit.src), name, c.text), format!("{}_{} on {:?} from {}: {} when written with another {}\nin grammar:\n{}\nwritten as:\n{}", m, name, c.text, c.start, v.join("; "), how.join(", "), g.gram().text(), shown(&h.unit.src)), describe(g, c, m));
          }
        }
      }
    }
    // What operators bind to is settled by the reference.
    gs.truncate(base);
    pipe::judge(&mut cx.rep, &gs, OUTCOME | DATA | TYPE | FAIL | CALLS, &|_, _| false);
    n += 1;
  }
}
