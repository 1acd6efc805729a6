//! The reference model: documented typing, well-formedness, and PEG evaluation with values, action calls and
//! furthest failures. Written from the documentation, as plain recursive descent over the grammar.
use crate::gram::{*, Kd::*};
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Inv, Unit, Char, List(Box<Ty>), Opt(Box<Ty>), Tup(Vec<Ty>), Rust(String), /** Unknown to oak; the string is the actual type. */ Ext(String) }

impl Ty {
  pub fn is_unit(&self) -> bool { matches!(self, Ty::Inv | Ty::Unit) }
  pub fn card(&self) -> usize { match self { Ty::Inv | Ty::Unit => 0, Ty::Tup(v) => v.len(), _ => 1 } }
  /// The Rust type, as printed by `Show::ty`.
  pub fn real(&self) -> String {
    match self {
      Ty::Inv | Ty::Unit => "()".into(),
      Ty::Char => "char".into(),
      Ty::List(t) => format!("Vec<{}>", t.real()),
      Ty::Opt(t) => format!("Option<{}>", t.real()),
      Ty::Tup(v) => format!("({})", v.iter().map(|t| t.real()).collect::<Vec<_>>().join(",")),
      Ty::Rust(s) | Ty::Ext(s) => s.clone(),
    }
  }
  pub fn has_ext(&self) -> bool {
    match self { Ty::Ext(_) => true, Ty::List(t) | Ty::Opt(t) => t.has_ext(), Ty::Tup(v) => v.iter().any(|t| t.has_ext()), _ => false }
  }
  /// Types of the values of the components.
  pub fn comps(&self) -> Vec<Ty> { match self { Ty::Inv | Ty::Unit => vec![], Ty::Tup(v) => v.clone(), t => vec![t.clone()] } }
}

/// A tuple of the given parts, by the documented simplifications.
pub fn tuple(parts: &[Ty]) -> Ty {
  let mut flat = vec![];
  for p in parts { match p { Ty::Tup(v) => flat.extend(v.iter().cloned()), t => flat.push(t.clone()) } }
  let unit = flat.iter().any(|t| *t == Ty::Unit);
  flat.retain(|t| !t.is_unit());
  match flat.len() { 0 => if unit { Ty::Unit } else { Ty::Inv }, 1 => flat.pop().unwrap(), _ => Ty::Tup(flat) }
}

fn same(a: &Ty, b: &Ty) -> bool {
  match (a, b) { (Ty::Rust(x), Ty::Rust(y)) => x == y, (Ty::Ext(x), Ty::Ext(y)) => x == y, _ => a == b }
}

/// Common type of the branches of a choice.
pub fn common(tys: &[Ty]) -> Result<Ty, String> {
  let mut distinct: Vec<Ty> = vec![];
  for t in tys { if !distinct.iter().any(|d| same(d, t)) { distinct.push(t.clone()) } }
  if distinct.len() == 1 { return Ok(distinct.pop().unwrap()) }
  if distinct.iter().all(|t| t.is_unit()) { return Ok(Ty::Inv) }
  if distinct.len() == 2 {
    let (e, o) = match (&distinct[0], &distinct[1]) { (Ty::Ext(e), o) | (o, Ty::Ext(e)) => (e, o), _ => return Err(format!("mismatch {:?}", tys)) };
    if o.real() == *e && !o.is_unit() { return Ok(o.clone()) }
  }
  Err(format!("mismatch {:?}", tys))
}

#[derive(Clone, Debug, Default)]
pub struct Typing {
  /// Per node.
  pub ty: Vec<Option<Ty>>,
  pub rule: Vec<Ty>,
}

impl Typing { pub fn of(&self, e: &Ex) -> &Ty { self.ty[e.id].as_ref().unwrap() } }

enum RTy { T(Ty), Rec(bool) }

/// Infers the types of all rules. `Err` when the grammar is not consistently typed, or when its recursive types
/// are not of a shape the documentation settles.
pub fn infer(g: &Gram) -> Result<Typing, String> {
  // Type-flow dependencies.
  let n = g.rules.len();
  let mut dep: Vec<HashSet<usize>> = vec![HashSet::new(); n];
  fn flow(e: &Ex, out: &mut HashSet<usize>) {
    match &e.k {
      Ref(i) => { out.insert(*i); }
      Not(_) | And(_) | Rg(_) | Act(..) | As(..) => {}
      _ => for k in e.kids() { flow(k, out) }
    }
  }
  for (i, r) in g.rules.iter().enumerate() { flow(&r.body, &mut dep[i]) }
  let mut reach = dep.clone();
  for _ in 0..n { for i in 0..n { let add: Vec<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().cloned()).collect(); reach[i].extend(add) } }
  let mut ty: Vec<Option<Ty>> = vec![None; n];
  for i in &g.poly { ty[*i] = Some(Ty::Inv) }
  // Rules in an order where what they depend on comes first, cycles together.
  let mut done: Vec<bool> = (0..n).map(|i| ty[i].is_some()).collect();
  loop {
    let next = (0..n).find(|&i| !done[i] && reach[i].iter().all(|&j| done[j] || reach[j].contains(&i) || j == i));
    let i = match next { Some(i) => i, None => break };
    let scc: Vec<usize> = (0..n).filter(|&j| !done[j] && (j == i || (reach[i].contains(&j) && reach[j].contains(&i)))).collect();
    let mut any_rec = true;
    while any_rec {
      any_rec = false;
      let mut progress = false;
      for &j in &scc {
        if ty[j].is_some() { continue }
        match eval_ty(g, &g.rules[j].body, &ty)? {
          RTy::T(t) => { ty[j] = Some(t); progress = true }
          RTy::Rec(true) => return Err("recursive type".into()),
          RTy::Rec(false) => any_rec = true,
        }
      }
      if any_rec && !progress {
        for &j in &scc { if ty[j].is_none() { ty[j] = Some(Ty::Inv) } }
        any_rec = false;
      }
    }
    // What the documentation settles does not depend on the rule the cycle is entered from.
    if scc.len() > 1 || dep[i].contains(&i) {
      if scc.len() > 5 { return Err("long cycle".into()) }
      for set in 1u32..1 << scc.len() {
        let mut partial = ty.clone();
        for (b, &j) in scc.iter().enumerate() { if set >> b & 1 == 1 { partial[j] = None } }
        for (b, &j) in scc.iter().enumerate() {
          if set >> b & 1 == 0 { continue }
          match eval_ty(g, &g.rules[j].body, &partial)? {
            RTy::T(t) => if Some(&t) != ty[j].as_ref() { return Err("order-dependent cycle".into()) },
            RTy::Rec(true) => return Err("recursive type".into()),
            RTy::Rec(false) => {}
          }
        }
      }
    }
    for j in scc { done[j] = true }
  }
  let rule: Vec<Ty> = ty.into_iter().map(|t| t.ok_or_else(|| "untyped rule".to_string())).collect::<Result<_, _>>()?;
  // Check with everything known, and record the type of each node.
  let mut t = Typing { ty: vec![None; g.nodes], rule: rule.clone() };
  for (i, r) in g.rules.iter().enumerate() {
    let known = check(g, &r.body, &rule, &mut t, false)?;
    if !g.poly.contains(&i) && known != rule[i] { return Err(format!("rule {} is {:?} or {:?}", r.name, rule[i], known)) }
  }
  for (i, r) in g.rules.iter().enumerate() {
    if rule[i].has_ext() { return Err(format!("external type of rule {}", r.name)) }
    ascribed(g, &r.body, &t, false)?;
  }
  Ok(t)
}

fn eval_ty(g: &Gram, e: &Ex, known: &[Option<Ty>]) -> Result<RTy, String> {
  use RTy::*;
  Ok(match &e.k {
    Lit(_) | Not(_) | And(_) => T(Ty::Inv),
    Any | Cl(_) => T(Ty::Char),
    Ref(i) => match &known[*i] { Some(t) => T(t.clone()), None => Rec(false) },
    Kd::Ext(i) => T(Ty::Ext(g.exts[*i].ty.clone())),
    Act(_, a) => T(action_ty(a)),
    As(_, a) => T(asc_ty(a)),
    Rg(_) => T(Ty::Rust("Range".into())),
    Star(x) | Plus(x) => match eval_ty(g, x, known)? { T(Ty::Inv) => T(Ty::Inv), T(t) => T(Ty::List(Box::new(t))), Rec(_) => Rec(true) },
    Opt(x) => match eval_ty(g, x, known)? { T(Ty::Inv) => T(Ty::Inv), T(t) => T(Ty::Opt(Box::new(t))), Rec(_) => Rec(true) },
    Spn(x) => match eval_ty(g, x, known)? { T(t) => T(tuple(&[Ty::Rust("Span".into()), t])), Rec(_) => Rec(true) },
    Seq(v) => {
      let mut parts = vec![];
      let (mut rec, mut poly) = (false, false);
      for x in v { match eval_ty(g, x, known)? { T(t) => parts.push(t), Rec(p) => { rec = true; poly |= p } } }
      if rec { Rec(poly || parts.iter().any(|t| !t.is_unit())) } else { T(tuple(&parts)) }
    }
    Alt(v) => {
      let mut parts = vec![];
      let mut rec = false;
      for x in v { match eval_ty(g, x, known)? { T(t) => parts.push(t), Rec(true) => return Err("recursive type in a choice".into()), Rec(false) => rec = true } }
      if parts.is_empty() && rec { Rec(false) } else { T(common(&parts)?) }
    }
  })
}

fn action_ty(a: &Action) -> Ty { match a.kind { AKind::InChr if !a.boxed => Ty::Char, AKind::InChr => Ty::Rust(a.ret()), AKind::In(_) | AKind::InBox(_) => Ty::Rust(a.ret()), _ => Ty::Ext(a.ret()) } }
fn asc_ty(a: &Asc) -> Ty { match a { Asc::Unit => Ty::Unit, Asc::Inv => Ty::Inv, Asc::Rust(t) if t == "char" => Ty::Char, Asc::Rust(t) => Ty::Rust(t.clone()) } }

/// `unit`: nothing below delivers a value, branches may then differ.
fn check(g: &Gram, e: &Ex, rules: &[Ty], t: &mut Typing, unit: bool) -> Result<Ty, String> {
  let mut kids = vec![];
  let below = unit || matches!(e.k, Not(_) | And(_) | Rg(_) | As(_, Asc::Unit) | As(_, Asc::Inv));
  for k in e.kids() { kids.push(check(g, k, rules, t, below)?) }
  let ty = match &e.k {
    Lit(_) | Not(_) | And(_) => Ty::Inv,
    Any | Cl(_) => Ty::Char,
    Ref(i) => rules[*i].clone(),
    Kd::Ext(i) => Ty::Ext(g.exts[*i].ty.clone()),
    Act(_, a) => action_ty(a),
    As(_, a) => asc_ty(a),
    Rg(_) => Ty::Rust("Range".into()),
    Star(_) | Plus(_) => if kids[0] == Ty::Inv { Ty::Inv } else { Ty::List(Box::new(kids[0].clone())) },
    Opt(_) => if kids[0] == Ty::Inv { Ty::Inv } else { Ty::Opt(Box::new(kids[0].clone())) },
    Spn(_) => tuple(&[Ty::Rust("Span".into()), kids[0].clone()]),
    Seq(_) => tuple(&kids),
    Alt(_) => match common(&kids) { Ok(t) => t, Err(_) if unit => Ty::Inv, Err(e) => return Err(e) },
  };
  t.ty[e.id] = Some(ty.clone());
  Ok(ty)
}

/// Rust ascriptions are only documented over expressions whose type comes from an action or an outer rule.
fn ascribed(g: &Gram, e: &Ex, t: &Typing, unit: bool) -> Result<(), String> {
  if unit { return Ok(()) }
  match &e.k {
    As(x, Asc::Rust(r)) => { passes(x, r, t)?; ascribed(g, x, t, false) }
    As(x, _) | Not(x) | And(x) | Rg(x) => ascribed(g, x, t, true),
    _ => { for k in e.kids() { ascribed(g, k, t, t.of(e).is_unit())? } Ok(()) }
  }
}
fn passes(e: &Ex, r: &str, t: &Typing) -> Result<(), String> {
  match t.of(e) { Ty::Rust(s) | Ty::Ext(s) if s == r => {} Ty::Char if r == "char" => {} o => return Err(format!("ascription of {} to {:?}", r, o)) }
  match &e.k {
    Seq(v) => { for x in v { if !t.of(x).is_unit() { passes(x, r, t)? } } Ok(()) }
    Alt(v) => { for x in v { passes(x, r, t)? } Ok(()) }
    Spn(_) | Rg(_) => Err("ascription over a span".into()),
    _ => Ok(()),
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Well-formedness.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wfa { pub fail: bool, pub succeed: bool, pub consume: bool, pub never: bool }
pub const WFA_DEFAULT: Wfa = Wfa { fail: true, succeed: true, consume: true, never: false };

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fault { LeftRec, Loop, Unreachable, Never, Always }

pub struct Wf { pub rules: Vec<Wfa>, pub faults: BTreeSet<Fault> }

pub fn wf_ex(e: &Ex, rules: &[Wfa], faults: &mut BTreeSet<Fault>) -> Wfa {
  let mut w = match &e.k {
    Lit(s) if s.is_empty() => Wfa { fail: false, succeed: true, consume: false, never: false },
    Lit(_) | Any | Cl(_) | Kd::Ext(_) => WFA_DEFAULT,
    Ref(i) => rules[*i],
    Spn(x) | Rg(x) | Act(x, _) | As(x, _) => return wf_ex(x, rules, faults),
    Star(x) | Plus(x) => {
      let c = wf_ex(x, rules, faults);
      let c = if c.succeed && !c.consume { faults.insert(Fault::Loop); WFA_DEFAULT } else { c };
      if let Star(_) = e.k { Wfa { fail: false, succeed: true, consume: false, never: c.never } } else { c }
    }
    Opt(x) => { let c = wf_ex(x, rules, faults); Wfa { fail: false, succeed: true, consume: false, never: c.never } }
    And(x) => { let c = wf_ex(x, rules, faults); Wfa { consume: false, never: true, ..c } }
    Not(x) => { let c = wf_ex(x, rules, faults); Wfa { fail: c.succeed, succeed: c.fail, consume: false, never: true } }
    Seq(v) => {
      let mut w = Wfa { fail: false, succeed: true, consume: false, never: true };
      for x in v { let c = wf_ex(x, rules, faults); w.fail |= c.fail; w.succeed &= c.succeed; w.consume |= c.consume; w.never &= c.never }
      w
    }
    Alt(v) => {
      let mut w = Wfa { fail: true, succeed: false, consume: true, never: true };
      for (i, x) in v.iter().enumerate() {
        let c = wf_ex(x, rules, faults);
        w.fail &= c.fail; w.succeed |= c.succeed; w.consume &= c.consume; w.never &= c.never;
        if i + 1 < v.len() && !c.fail { faults.insert(Fault::Unreachable); return w }
      }
      w
    }
  };
  if w.fail && !w.succeed { faults.insert(Fault::Never); w.succeed = true }
  else if w.succeed && !w.fail && w.never { faults.insert(Fault::Always); w.never = false }
  w
}

/// Rules called by `e` before anything is consumed for certain.
fn left_refs(e: &Ex, rules: &[Wfa], out: &mut HashSet<usize>) {
  match &e.k {
    Ref(i) => { out.insert(*i); }
    Seq(v) => for x in v {
      left_refs(x, rules, out);
      if wf_ex(x, rules, &mut BTreeSet::new()).consume { break }
    },
    _ => for k in e.kids() { left_refs(k, rules, out) }
  }
}

pub fn well_formed(g: &Gram) -> Wf {
  let n = g.rules.len();
  let mut rules = vec![WFA_DEFAULT; n];
  for _ in 0..4 * n + 8 {
    let mut changed = false;
    for i in 0..n {
      let w = wf_ex(&g.rules[i].body, &rules, &mut BTreeSet::new());
      if w != rules[i] { rules[i] = w; changed = true }
    }
    if !changed { break }
  }
  let mut faults = BTreeSet::new();
  for r in &g.rules { wf_ex(&r.body, &rules, &mut faults); }
  let mut left: Vec<HashSet<usize>> = vec![HashSet::new(); n];
  for i in 0..n { left_refs(&g.rules[i].body, &rules, &mut left[i]) }
  for _ in 0..n { for i in 0..n { let add: Vec<usize> = left[i].iter().flat_map(|j| left[*j].iter().cloned()).collect(); left[i].extend(add) } }
  if (0..n).any(|i| left[i].contains(&i)) { faults.insert(Fault::LeftRec); }
  Wf { rules, faults }
}

// ---------------------------------------------------------------------------------------------------------------
// Evaluation.

#[derive(Clone)]
pub struct World { pub grams: Vec<Gram>, pub types: Vec<Typing> }

impl World {
  pub fn one(g: Gram, t: Typing) -> World { World { grams: vec![g], types: vec![t] } }
}

#[derive(Clone, Debug, Default)]
pub struct Out {
  pub ok: bool,
  pub end: usize,
  pub data: String,
  pub far: usize,
  pub exp: BTreeSet<String>,
  pub calls: Vec<String>,
  pub terms: u64,
  pub backtracks: u64,
  pub iters: u64,
  /// Iterations that consumed nothing.
  pub idle: u64,
  /// (node, outcome) pairs met.
  pub cov: BTreeSet<(usize, bool)>,
}

pub struct Interp<'a> {
  w: &'a World,
  text: &'a str,
  o: Out,
  fuel: u64,
  depth: usize,
  most: usize,
  pub max_depth: usize,
}

struct Stop;
type R = Result<Option<(usize, Vec<String>)>, Stop>;

pub fn pack(v: &[String]) -> String {
  match v.len() { 0 => "u".into(), 1 => v[0].clone(), _ => format!("({})", v.join(",")) }
}

/// Evaluates `rule` of grammar `g` at `start`; `None` when the evaluation is too long for the reference.
thread_local! { /// Calls inside of each other the evaluation follows, in this thread.
  pub static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(400); }

pub fn run(w: &World, g: usize, rule: usize, text: &str, start: usize, parser: bool, fuel: u64) -> Option<Out> {
  let mut i = Interp { w, text, o: Out { far: start, ..Out::default() }, fuel, depth: 0, most: DEPTH.with(|d| d.get()), max_depth: 0 };
  let want = parser && !w.types[g].rule[rule].is_unit();
  match i.ev(g, &w.grams[g].rules[rule].body, start, want) {
    Err(Stop) => None,
    Ok(Some((p, v))) => {
      i.o.ok = true;
      i.o.end = p;
      i.o.data = pack(&v);
      Some(i.o)
    }
    Ok(None) => Some(i.o),
  }
}

impl<'a> Interp<'a> {
  fn miss(&mut self, p: usize, what: String) {
    if p > self.o.far { self.o.far = p; self.o.exp.clear() }
    if p == self.o.far { self.o.exp.insert(what); }
  }
  fn ev(&mut self, g: usize, e: &'a Ex, p: usize, want: bool) -> R {
    if self.fuel == 0 || self.depth > self.most { return Err(Stop) }
    self.fuel -= 1;
    self.depth += 1;
    self.max_depth = self.max_depth.max(self.depth);
    let r = self.ev1(g, e, p, want);
    self.depth -= 1;
    if let Ok(r) = &r { if g == 0 { self.o.cov.insert((e.id, r.is_some())); } }
    r
  }
  fn ev1(&mut self, g: usize, e: &'a Ex, p: usize, want: bool) -> R {
    let w = self.w;
    let gram = &w.grams[g];
    let types = &w.types[g];
    let want = want && !types.of(e).is_unit();
    Ok(match &e.k {
      Lit(s) => {
        self.o.terms += 1;
        if self.text[p..].starts_with(s.as_str()) { Some((p + s.len(), vec![])) } else { self.miss(p, s.clone()); None }
      }
      Any | Cl(_) => {
        self.o.terms += 1;
        let c = self.text[p..].chars().next();
        let ok = match (&e.k, c) { (_, None) => false, (Cl(v), Some(c)) => class_matches(v, c), _ => true };
        if ok {
          let c = c.unwrap();
          Some((p + c.len_utf8(), if want { vec![format!("'{}'", c.escape_default())] } else { vec![] }))
        } else {
          let label = match &e.k { Cl(v) => class_label(v), _ => "<character>".to_string() };
          self.miss(p, label);
          None
        }
      }
      Ref(i) => {
        // A rule reduced to unit is recognized.
        let want = want && !types.rule[*i].is_unit();
        return self.ev(g, &gram.rules[*i].body, p, want)
      }
      Kd::Ext(i) => match &gram.exts[*i].sem {
        Sem::Rule(g2, r2) => {
          let unit = w.types[*g2].rule[*r2].is_unit();
          match self.ev(*g2, &w.grams[*g2].rules[*r2].body, p, want && !unit)? {
            Some((q, v)) => Some((q, if want { vec![pack(&v)] } else { vec![] })),
            None => None,
          }
        }
        Sem::Hand(name) => self.hand(name, p, want),
      },
      Seq(v) => {
        let mut q = p;
        let mut vals = vec![];
        for x in v {
          match self.ev(g, x, q, want)? {
            Some((n, c)) => { q = n; vals.extend(c) }
            None => { if q != p { self.o.backtracks += 1 } return Ok(None) }
          }
        }
        Some((q, vals))
      }
      Alt(v) => {
        let mut r = None;
        for x in v { r = self.ev(g, x, p, want)?; if r.is_some() { break } }
        r
      }
      Star(x) | Plus(x) => {
        let mut q = p;
        let mut vals = vec![];
        let mut n = 0;
        let plus = matches!(e.k, Plus(_));
        loop {
          match self.ev(g, x, q, want)? {
            Some((m, c)) => {
              n += 1;
              self.o.iters += 1;
              if want { vals.push(pack(&c)) }
              // Only the rules of other grammars match nothing here: the repetition ends.
              if m == q { self.o.idle += 1; break }
              q = m;
            }
            None => break,
          }
        }
        if plus && n == 0 { None } else { Some((q, if want { vec![format!("[{}]", vals.join(","))] } else { vec![] })) }
      }
      Opt(x) => match self.ev(g, x, p, want)? {
        Some((q, c)) => Some((q, if want { vec![format!("Some({})", pack(&c))] } else { vec![] })),
        None => Some((p, if want { vec!["None".into()] } else { vec![] })),
      },
      And(x) => self.ev(g, x, p, false)?.map(|_| (p, vec![])),
      Not(x) => if self.ev(g, x, p, false)?.is_some() { None } else { Some((p, vec![])) },
      Spn(x) => match self.ev(g, x, p, want)? {
        Some((q, c)) => { let mut v = vec![]; if want { v.push(format!("<{},{}>", p, q)); v.extend(c) } Some((q, v)) }
        None => None,
      },
      Rg(x) => match self.ev(g, x, p, false)? {
        Some((q, _)) => Some((q, if want { vec![format!("{{{},{}}}", p, q)] } else { vec![] })),
        None => None,
      },
      As(x, _) => return self.ev(g, x, p, want),
      Act(x, a) => match self.ev(g, x, p, want)? {
        Some((q, c)) => {
          if !want { return Ok(Some((q, vec![]))) }
          let v = match &a.kind {
            AKind::Ctor(k) => if c.is_empty() { format!("K::{}", k) } else { format!("K::{}({})", k, c.join(",")) },
            _ => {
              let v = format!("{}({})", a.name, c.join(","));
              self.o.calls.push(v.clone());
              match a.kind { AKind::OutTup(_) => format!("({},'z')", v), AKind::InChr | AKind::OutChr => "'w'".into(), AKind::InBox(_) | AKind::OutBox(_) => format!("box {}", v), _ => v }
            }
          };
          Some((q, vec![if a.boxed { format!("box {}", v) } else { v }]))
        }
        None => None,
      },
    })
  }
  /// Rules written by hand in oakrt.
  fn hand(&mut self, name: &str, p: usize, want: bool) -> Option<(usize, Vec<String>)> {
    let b = self.text.as_bytes();
    match name {
      // One or more digits; value N<9>.
      "num" => {
        let mut q = p;
        self.o.terms += 1;
        while q < b.len() && b[q].is_ascii_digit() { q += 1; self.o.terms += 1 }
        if q == p { self.miss(p, "number".into()); return None }
        Some((q, if want { vec![format!("num:{}", &self.text[p..q])] } else { vec![] }))
      }
      // Zero or more digits; value N<8>.
      "blank" => {
        let mut q = p;
        self.o.terms += 1;
        while q < b.len() && b[q].is_ascii_digit() { q += 1; self.o.terms += 1 }
        Some((q, if want { vec![format!("blank:{}", &self.text[p..q])] } else { vec![] }))
      }
      // Two characters that are the same; value (char, char).
      "twin" => {
        let mut it = self.text[p..].chars();
        self.o.terms += 2;
        match (it.next(), it.next()) {
          (Some(x), Some(y)) if x == y => {
            let q = p + 2 * x.len_utf8();
            Some((q, if want { vec![format!("('{}','{}')", x.escape_default(), y.escape_default())] } else { vec![] }))
          }
          _ => { self.miss(p, "twin".into()); None }
        }
      }
      _ => panic!("unknown hand-written rule {}", name),
    }
  }
}
