//! Random grammars, well-formed and consistently typed by construction (and checked against the model afterwards).
use crate::gram::{*, Kd::*};
use crate::model::{self, Ty, Typing, Wfa, WFA_DEFAULT};
use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Cfg {
  pub rules: (usize, usize),
  pub depth: usize,
  pub size: usize,
  /// Weights of the kinds of expressions.
  pub lit: u32, pub class: u32, pub any: u32, pub refs: u32, pub seq: u32, pub alt: u32, pub rep: u32, pub opt: u32,
  pub pred: u32, pub act: u32, pub asc: u32, pub span: u32, pub range: u32, pub hand: u32,
  /// Percentage of rules that deliver nothing.
  pub unit_rules: u32,
  pub poly: u32,
  /// Percentage of grammars with non-ASCII alphabets.
  pub unicode: u32,
  /// Percentage of grammars with long literals, many branches, long sequences, many class items.
  pub wide: u32,
  /// Percentage of rules that deliver tuples, by themselves or inside of lists and options.
  pub rich: u32,
}

impl Cfg {
  pub fn base() -> Cfg {
    Cfg { rules: (2, 5), depth: 5, size: 22, lit: 10, class: 6, any: 2, refs: 8, seq: 12, alt: 9, rep: 6, opt: 4, pred: 3,
      act: 6, asc: 2, span: 0, range: 1, hand: 0, unit_rules: 30, poly: 4, unicode: 25, wide: 15, rich: 0 }
  }
}

struct Plan { ty: Ty, consume: bool }

pub struct Gen<'a> {
  pub rng: &'a mut Rng,
  pub cfg: &'a Cfg,
  plans: Vec<Plan>,
  cur: usize,
  budget: i32,
  next_fn: u32,
  alpha: Vec<char>,
  words: Vec<String>,
  wide: bool,
  /// Twice as much of everything, and more.
  huge: bool,
  pub exts: Vec<ExtDef>,
}

#[derive(Clone, Copy)]
struct Cx { must: bool, left: bool, barrier: bool, unit: bool, d: usize }

pub fn hand_exts() -> Vec<ExtDef> {
  vec![
    ExtDef { path: "hand::num".into(), ty: "N<9>".into(), sem: Sem::Hand("num") },
    ExtDef { path: "hand::twin".into(), ty: "(char,char)".into(), sem: Sem::Hand("twin") },
  ]
}

fn unbox(s: &str) -> &str { s.strip_prefix("Box<").map(|t| &t[..t.len() - 1]).unwrap_or(s) }

/// Is there an action for the type?
fn makeable(s: &str) -> bool {
  let s = unbox(unbox(s));
  s == "K" || (s.starts_with("N<") && s.ends_with('>') && s != "N<9>") || (s.starts_with("(N<") && s.ends_with(",char)") && s.matches(',').count() == 1)
}

/// Constructors take arguments of their own types.
fn takes(a: &Action, t: &Ty) -> bool {
  match &a.kind {
    AKind::Ctor(c) => match *c {
      "U" | "V" => t.is_unit(), "C" => *t == Ty::Char, "L" => *t == Ty::List(Box::new(Ty::Char)), "O" => *t == Ty::Opt(Box::new(Ty::Char)),
      "B" => *t == Ty::Tup(vec![Ty::Char, Ty::Char]), "S" => *t == span(), "W" => *t == n(0) || *t == Ty::Ext("N<0>".into()), _ => false,
    },
    _ => true,
  }
}

pub fn n(k: u32) -> Ty { Ty::Rust(format!("N<{}>", k)) }
fn span() -> Ty { Ty::Rust("Span".into()) }
fn range() -> Ty { Ty::Rust("Range".into()) }

/// A grammar, its typing, and how many attempts were thrown away.
pub fn grammar(rng: &mut Rng, cfg: &Cfg) -> (Gram, Typing) { grammar_with(rng, cfg, vec![]) }

pub fn grammar_with(rng: &mut Rng, cfg: &Cfg, more: Vec<ExtDef>) -> (Gram, Typing) {
  loop {
    if let Some(r) = attempt(rng, cfg, more.clone()) { return r }
  }
}

pub fn alphabet(rng: &mut Rng, unicode: u32) -> Vec<char> {
  let mut v: Vec<char> = match rng.below(6) {
    0 => vec!['a', 'b'], 1 | 2 => vec!['a', 'b', 'c'], 3 => vec!['a', 'b', '0', '1', '+'], 4 => vec!['x', 'y', ' ', '\n'],
    _ => vec!['a', '(', ')', '"', '\\', '\'', '{', '}', '`', '%'],
  };
  if rng.pct(unicode) {
    for _ in 0..rng.range(1, 3) { v.push(*rng.pick(&['\0', '\t', '\r', 'é', 'ß', '漢', '😀', '\u{301}', 'Ω', '\u{7f}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}'])) }
  }
  v
}

fn attempt(rng: &mut Rng, cfg: &Cfg, more: Vec<ExtDef>) -> Option<(Gram, Typing)> {
  let count = rng.range(cfg.rules.0, cfg.rules.1);
  let alpha = alphabet(rng, cfg.unicode);
  let wide = rng.pct(cfg.wide);
  let huge = wide && rng.pct(15);
  let mut words = vec![];
  for _ in 0..rng.range(3, 7) {
    let l = if wide && rng.pct(30) { if huge && rng.pct(30) { rng.range(60, 300) } else { rng.range(4, 24) } } else { *rng.pick(&[1, 1, 1, 2, 2, 3]) };
    words.push((0..l).map(|_| *rng.pick(&alpha)).collect::<String>());
  }
  let mut exts = if cfg.hand > 0 { hand_exts() } else { vec![] };
  exts.extend(more);
  let mut g = Gen { rng, cfg, plans: vec![], cur: 0, budget: 0, next_fn: 0, alpha, words, wide, huge, exts };
  for _ in 0..count {
    let ty = if g.rng.pct(cfg.unit_rules) { if g.rng.pct(80) { Ty::Inv } else { Ty::Unit } } else if g.rng.pct(cfg.rich) {
      (0..12).map(|_| g.rand_ty(2)).find(|t| t.real().contains(',')).unwrap_or(Ty::Char)
    } else { g.rand_ty(2) };
    let consume = g.rng.pct(85);
    g.plans.push(Plan { ty, consume });
  }
  let mut gram = Gram { exts: g.exts.clone(), ..Gram::default() };
  for i in 0..count {
    g.cur = i;
    let mut ok = false;
    for _ in 0..12 {
      g.budget = cfg.size as i32;
      let ty = g.plans[i].ty.clone();
      let must = g.plans[i].consume;
      let mut cx = Cx { must, left: true, barrier: false, unit: false, d: cfg.depth };
      // The ascription may stand on the left of the rule.
      let lhs = matches!(ty, Ty::Rust(_) | Ty::Unit | Ty::Inv) && g.asc_rate();
      if lhs { cx.barrier = true }
      let body = if lhs {
        let inner = match &ty {
          Ty::Rust(r) if r != "Span" && r != "Range" => g.gen(&Ty::Ext(r.clone()), cx),
          Ty::Unit | Ty::Inv => { let t = g.rand_ty(2); g.gen(&t, Cx { unit: true, ..cx }) }
          _ => g.gen(&ty, cx),
        };
        match &ty {
          Ty::Rust(r) if r != "Span" && r != "Range" => ex(As(Box::new(inner), Asc::Rust(r.clone()))),
          Ty::Unit => ex(As(Box::new(inner), Asc::Unit)),
          Ty::Inv => ex(As(Box::new(inner), Asc::Inv)),
          _ => inner,
        }
      } else { g.gen(&ty, cx) };
      let w = g.attr(&body);
      if w.consume >= must && w.fail { 
        let lhs = lhs && matches!(body.k, As(..));
        gram.rules.push(Rule { name: format!("r{}", i), body, lhs });
        ok = true;
        break
      }
      g.plans[i].consume = true;
    }
    if !ok { return None }
  }
  if g.rng.pct(cfg.poly) {
    // Rules whose types would contain each other, in up to three separate cycles, and rules that call them.
    let first = gram.rules.len();
    let cycles = if g.rng.pct(50) { 1 } else { g.rng.range(2, 3) };
    for _ in 0..cycles {
      let a = gram.rules.len();
      let k = g.rng.range(1, 3);
      for j in 0..k {
        let c1 = g.class();
        let next = a + (j + 1) % k;
        let q = match g.rng.below(3) { 0 => ex(Opt(bx(Ref(next)))), 1 => ex(Star(bx(Ref(next)))), _ => ex(Opt(bx(Seq(vec![lit(","), ex(Ref(next))])))) };
        let mut parts = vec![c1, q];
        if j > 0 || g.rng.pct(30) { parts.insert(0, lit("x")) }
        // A cycle may lead to an earlier one.
        if a > first && g.rng.pct(30) { parts.insert(0, ex(Ref(first + g.rng.below(a - first)))) }
        gram.rules.push(Rule { name: format!("r{}", a + j), body: ex(Seq(parts)), lhs: false });
      }
    }
    let end = gram.rules.len();
    gram.poly = (first..end).collect();
    if g.rng.pct(50) {
      let w = if g.rng.pct(50) { lit("(") } else { g.class() };
      let mut parts = vec![w, ex(Ref(first + g.rng.below(end - first)))];
      while parts.len() < 4 && g.rng.pct(40) { parts.push(ex(Ref(first + g.rng.below(end - first)))) }
      gram.rules.push(Rule { name: format!("r{}", end), body: ex(Seq(parts)), lhs: false });
    }
  }
  gram.number();
  // More is too slow to compile.
  if gram.size() > 220 { return None }
  if !model::well_formed(&gram).faults.is_empty() { return None }
  let t = model::infer(&gram).ok()?;
  if gram.actions().iter().any(|(c, _)| t.of(c).card() > 32) { return None }
  if gram.actions().iter().any(|(c, a)| !takes(a, t.of(c))) { return None }
  if t.rule.iter().any(|t| t.card() > 32) { return None }
  // Tuples too long to be printed.
  if t.ty.iter().any(|t| t.as_ref().map_or(false, |t| t.card() > 32)) { return None }
  Some((gram, t))
}

impl<'a> Gen<'a> {
  fn asc_rate(&mut self) -> bool { let a = self.cfg.asc; a > 0 && self.rng.pct(12 + a) }
  fn attr(&self, e: &Ex) -> Wfa {
    let rules: Vec<Wfa> = self.plans.iter().map(|p| Wfa { consume: p.consume, ..WFA_DEFAULT }).collect();
    model::wf_ex(e, &rules, &mut BTreeSet::new())
  }
  fn faulty(&self, e: &Ex) -> bool {
    let rules: Vec<Wfa> = self.plans.iter().map(|p| Wfa { consume: p.consume, ..WFA_DEFAULT }).collect();
    let mut f = BTreeSet::new();
    model::wf_ex(e, &rules, &mut f);
    !f.is_empty()
  }

  pub fn rand_ty(&mut self, d: usize) -> Ty {
    let c = self.cfg;
    let act = c.act;
    loop {
      return match self.rng.weighted(&[6, 2, 6, if d > 0 { 5 } else { 0 }, if d > 0 { 4 } else { 0 }, if d > 0 { 5 } else { 0 }, act * 2, act / 2, act / 3, c.span, c.range]) {
        0 => Ty::Inv,
        1 => Ty::Unit,
        2 => Ty::Char,
        3 => { let t = self.rand_ty(d - 1); if t == Ty::Inv { continue } Ty::List(Box::new(t)) }
        4 => { let t = self.rand_ty(d - 1); if t == Ty::Inv { continue } Ty::Opt(Box::new(t)) }
        5 => {
          let most = if self.wide && self.rng.pct(25) { if self.huge { 27 } else { 8 } } else { 3 };
          let v: Vec<Ty> = (0..self.rng.range(2, most)).map(|_| self.rand_ty(d - 1)).collect();
          model::tuple(&v)
        }
        6 => { let k = self.rng.below(4) as u32; if self.rng.pct(20) { Ty::Rust(if self.rng.pct(25) { format!("Box<Box<N<{}>>>", k) } else { format!("Box<N<{}>>", k) }) } else { n(k) } }
        7 => Ty::Rust("K".into()),
        8 => { let k = self.rng.below(3) as u32; Ty::Rust(format!("(N<{}>,char)", k)) }
        9 => { let t = if self.rng.pct(50) { Ty::Inv } else { self.rand_ty(d.saturating_sub(1)) }; model::tuple(&[span(), t]) }
        _ => range(),
      }
    }
  }
  /// How a value of the type is made: boxed by the action, boxed by its function, what is in the boxes.
  fn boxes(&mut self, s: &str) -> (bool, bool, String) {
    let one = unbox(s);
    let two = unbox(one);
    if one == s { (false, false, s.to_string()) }
    else if two != one { (true, true, two.to_string()) }
    else if one.starts_with("N<") && self.rng.pct(30) { (false, true, one.to_string()) }
    else { (true, false, one.to_string()) }
  }

  /// A type for an operand whose value is used by an action: parts unknown to oak are fine there.
  fn arg_ty(&mut self) -> Ty {
    if self.rng.pct(15) {
      let k = self.rng.below(4) as u32;
      let e = if self.cfg.hand > 0 && self.rng.pct(60) { let i = self.rng.below(self.exts.len()); Ty::Ext(self.exts[i].ty.clone()) } else { Ty::Ext(format!("N<{}>", k)) };
      match self.rng.below(4) { 0 => e, 1 => Ty::List(Box::new(e)), 2 => Ty::Opt(Box::new(e)), _ => { let t = self.rand_ty(1); model::tuple(&[e, t]) } }
    } else { self.rand_ty(2) }
  }

  pub fn class(&mut self) -> Ex {
    let mut v = vec![];
    let hy = self.rng.below(20);
    if hy == 0 { v.push(Cls::One('-')) }
    let top = if self.wide && self.rng.pct(40) { if self.huge { 60 } else { 9 } } else { 3 };
    for _ in 0..self.rng.range(1, top) {
      let a = *self.rng.pick(&self.alpha);
      let a = if a == '-' { 'a' } else { a };
      if self.rng.pct(35) {
        let k = self.rng.range(1, 4) as u32;
        if let Some(b) = char::from_u32(a as u32 + k) { if b != '-' { v.push(Cls::Rng(a, b)); continue } }
      }
      v.push(Cls::One(a));
    }
    if hy == 1 { v.push(Cls::One('-')) }
    ex(Cl(v))
  }
  fn word(&mut self, must: bool) -> Ex {
    if !must && self.rng.pct(3) { return lit("") }
    let w = self.rng.pick(&self.words).clone();
    ex(Lit(w))
  }
  fn act_name(&mut self) -> u32 { self.next_fn += 1; self.next_fn - 1 }

  fn find_ref(&mut self, ty: &Ty, cx: Cx) -> Option<Ex> {
    let mut c = vec![];
    for j in 0..self.plans.len() {
      let p = &self.plans[j];
      if p.ty != *ty && !(cx.unit) { continue }
      if cx.must && !p.consume { continue }
      if j <= self.cur {
        if cx.left { continue }
        let flow_ok = cx.barrier || cx.unit || (p.ty == Ty::Inv && self.plans[self.cur].ty == Ty::Inv) || (p.ty == self.plans[self.cur].ty && self.rng.pct(20));
        if !flow_ok { continue }
      }
      c.push(j);
    }
    if c.is_empty() { None } else { Some(ex(Ref(*self.rng.pick(&c)))) }
  }

  fn gen(&mut self, ty: &Ty, cx: Cx) -> Ex {
    self.budget -= 1;
    let cx = if self.budget <= 0 { Cx { d: 0, ..cx } } else { cx };
    if cx.unit && self.cfg.hand > 0 && self.rng.pct(6) { let i = self.rng.below(self.exts.len()); return ex(Kd::Ext(i)) }
    // Where nothing is delivered, any expression will do.
    if cx.unit && cx.d > 0 && self.rng.pct(30) {
      let t = self.rand_ty(1);
      return self.gen1(&t, cx)
    }
    self.gen1(ty, cx)
  }

  fn down(cx: Cx) -> Cx { Cx { d: cx.d.saturating_sub(1), ..cx } }

  fn gen1(&mut self, ty: &Ty, cx: Cx) -> Ex {
    let c = self.cfg.clone();
    if cx.d == 0 {
      if self.rng.pct(50) { if let Some(e) = self.find_ref(ty, cx) { return e } }
      return self.leaf(ty, cx)
    }
    let dn = Self::down(cx);
    // Kinds that fit every type: reference, sequence with silent parts, choice.
    let own = match ty {
      Ty::Inv => c.lit + c.pred + c.rep + c.opt + c.asc,
      Ty::Unit => 8,
      Ty::Char => c.class + c.any,
      Ty::List(_) => c.rep + 4, Ty::Opt(_) => c.opt + 4,
      Ty::Tup(_) => c.seq + 4,
      _ => c.act + 4,
    };
    let wrap = match ty { Ty::Tup(_) => 1, _ => c.seq };
    match self.rng.weighted(&[own, c.refs, wrap, c.alt]) {
      0 => self.own(ty, cx),
      1 => match self.find_ref(ty, cx) { Some(e) => e, None => self.own(ty, cx) },
      2 => self.seq(&[ty.clone()], cx),
      _ => {
        let k = if self.wide && self.rng.pct(35) { let m = if self.huge { 36 } else { 11 }; self.rng.range(5, m) } else { *self.rng.pick(&[2, 2, 2, 3, 4]) };
        if k > 4 { self.budget += k as i32 }
        let mut v = vec![];
        // Branches of both unit kinds make an invisible choice; types unknown to oak adopt the other branches' type.
        let mixed = if *ty == Ty::Inv && self.rng.pct(15) { self.rng.below(k) } else { k };
        for i in 0..k {
          let last = i + 1 == k;
          let bt = match ty {
            Ty::Inv if i == mixed => Ty::Unit,
            Ty::Rust(s) if i > 0 && s != "Span" && s != "Range" && self.rng.pct(20) => Ty::Ext(s.clone()),
            Ty::Char if i > 0 && c.act > 0 && self.rng.pct(6) => Ty::Ext("char".into()),
            t => t.clone(),
          };
          let must = cx.must || (!last && self.rng.pct(70));
          let mut b = self.gen(&bt, Cx { must, ..dn });
          if !last && (!self.attr(&b).fail || self.faulty(&b)) { b = self.gen(&bt, Cx { must: true, ..dn }) }
          v.push(b);
        }
        ex(Alt(v))
      }
    }
  }

  /// The least expression of a type.
  fn leaf(&mut self, ty: &Ty, cx: Cx) -> Ex {
    let cx = Cx { d: 0, ..cx };
    match ty {
      Ty::Inv => self.word(cx.must),
      Ty::Unit => { let e = if self.rng.pct(50) { self.word(cx.must) } else { self.class() }; ex(As(Box::new(e), Asc::Unit)) }
      Ty::Char => if self.rng.pct(20) { ex(Any) } else { self.class() },
      _ => self.own(ty, cx),
    }
  }

  /// The construct that makes a value of the type.
  fn own(&mut self, ty: &Ty, cx: Cx) -> Ex {
    let c = self.cfg.clone();
    let dn = Self::down(cx);
    match ty {
      Ty::Inv => {
        if cx.d == 0 { return self.word(cx.must) }
        let np = if cx.must { 0 } else { 1 };
        match self.rng.weighted(&[c.lit, c.pred * np * 2, c.rep * if cx.must { 1 } else { 2 }, c.opt * np, c.asc]) {
          0 => self.word(cx.must),
          1 => {
            let t = self.rand_ty(1);
            let sub = Cx { must: self.rng.pct(75), unit: true, barrier: true, ..dn };
            let mut e = self.gen(&t, sub);
            let w = self.attr(&e);
            if !(w.fail && w.succeed) || self.faulty(&e) { e = self.gen(&t, Cx { must: true, ..sub }) }
            // The operand may end with a predicate of its own.
            if self.rng.pct(20) {
              let (a, b) = if self.rng.pct(50) { (self.class(), self.class()) } else { (self.word(true), self.word(true)) };
              let a = if self.rng.pct(50) { ex(Not(Box::new(a))) } else { ex(And(Box::new(a))) };
              let b = if self.rng.pct(50) { ex(Not(Box::new(b))) } else { ex(And(Box::new(b))) };
              let mut v = match e.k { Seq(v) => v, _ => vec![e] };
              v.push(a);
              if self.rng.pct(25) { v.push(b) }
              e = ex(Seq(v));
            }
            if self.rng.pct(55) { ex(Not(Box::new(e))) } else { ex(And(Box::new(e))) }
          }
          2 => {
            let e = self.gen(&Ty::Inv, Cx { must: true, ..dn });
            if cx.must || self.rng.pct(40) { ex(Plus(Box::new(e))) } else { ex(Star(Box::new(e))) }
          }
          3 => { let e = self.gen(&Ty::Inv, dn); ex(Opt(Box::new(e))) }
          _ => { let t = self.rand_ty(2); let e = self.gen(&t, Cx { unit: true, barrier: true, ..dn }); ex(As(Box::new(e), Asc::Inv)) }
        }
      }
      Ty::Unit => { let t = self.rand_ty(2); let e = self.gen(&t, Cx { unit: true, barrier: true, ..dn }); ex(As(Box::new(e), Asc::Unit)) }
      Ty::Char => match self.rng.weighted(&[c.class, c.any, (c.act + 1) / 2, if c.asc > 0 { 1 } else { 0 }]) {
        0 => self.class(),
        1 => ex(Any),
        2 => {
          let t = self.arg_ty();
          let e = self.gen(&t, Cx { barrier: true, ..dn });
          let name = format!("f{}", self.act_name());
          ex(Act(Box::new(e), Action { name, kind: AKind::InChr, boxed: false }))
        }
        _ => {
          let t = if c.act > 0 && self.rng.pct(50) { Ty::Ext("char".into()) } else { Ty::Char };
          let e = self.gen(&t, Cx { barrier: true, ..dn });
          ex(As(Box::new(e), Asc::Rust("char".into())))
        }
      },
      Ty::List(t) => {
        let e = self.gen(t, Cx { must: true, ..dn });
        if cx.must || self.rng.pct(40) { ex(Plus(Box::new(e))) } else { ex(Star(Box::new(e))) }
      }
      Ty::Opt(t) => {
        if cx.must { return self.seq(&[ty.clone()], cx) }
        let e = self.gen(t, dn);
        ex(Opt(Box::new(e)))
      }
      Ty::Tup(v) => {
        if v[0] == span() && self.rng.pct(80) {
          let rest = model::tuple(&v[1..]);
          let e = self.gen(&rest, dn);
          return ex(Spn(Box::new(e)))
        }
        // Group neighbours at random.
        let mut parts = vec![];
        let mut i = 0;
        while i < v.len() {
          let l = if i + 1 < v.len() && v.len() > 2 && self.rng.pct(25) { 2 } else { 1 };
          parts.push(model::tuple(&v[i..i + l]));
          i += l;
        }
        self.seq(&parts, cx)
      }
      Ty::Rust(s) if s == "Span" => {
        let t = if self.rng.pct(25) { Ty::Unit } else { Ty::Inv };
        let e = self.gen(&t, dn);
        ex(Spn(Box::new(e)))
      }
      Ty::Rust(s) if s == "Range" => {
        let t = self.rand_ty(1);
        let e = self.gen(&t, Cx { unit: true, barrier: true, ..dn });
        ex(Rg(Box::new(e)))
      }
      Ty::Rust(s) => {
        let (boxed, own, inner) = self.boxes(s);
        match inner.strip_prefix("N<") {
          Some(k) if !self.rng.pct(15) => {
            let k: u32 = k[..k.len() - 1].parse().unwrap();
            let t = self.arg_ty();
            let e = self.gen(&t, Cx { barrier: true, ..dn });
            // Functions of the grammar may be called like types or keywords.
            let i = self.act_name();
            let keywords = ["match", "type", "loop", "in", "fn", "move", "where", "try"];
            let name = match self.rng.below(12) {
              0 => format!("F{}", i), 1 if (i as usize) < keywords.len() => format!("r#{}", keywords[i as usize]), _ => format!("f{}", i),
            };
            ex(Act(Box::new(e), Action { name, kind: if own { AKind::InBox(k) } else { AKind::In(k) }, boxed }))
          }
          _ => {
            let e = self.gen(&Ty::Ext(s.clone()), Cx { barrier: true, ..dn });
            ex(As(Box::new(e), Asc::Rust(s.clone())))
          }
        }
      }
      Ty::Ext(s) => {
        let hand: Vec<usize> = (0..self.exts.len()).filter(|i| self.exts[*i].ty == *s).collect();
        if !hand.is_empty() && (!makeable(s) || self.rng.pct(60)) { let h = *self.rng.pick(&hand); return ex(Kd::Ext(h)) }
        let (boxed, own, inner) = self.boxes(s);
        if inner == "K" {
          let sub = Cx { barrier: true, ..dn };
          let (t, ctor) = match self.rng.below(7) {
            0 => (Ty::Inv, "U"), 1 => (if self.rng.pct(50) { Ty::Unit } else { Ty::Inv }, "V"), 2 => (Ty::Char, "C"),
            3 => (Ty::List(Box::new(Ty::Char)), "L"), 4 => (Ty::Opt(Box::new(Ty::Char)), "O"), 5 => (Ty::Tup(vec![Ty::Char, Ty::Char]), "B"),
            _ => if c.span > 0 { (span(), "S") } else { (n(0), "W") },
          };
          let e = self.gen(&t, sub);
          return ex(Act(Box::new(e), Action { name: String::new(), kind: AKind::Ctor(ctor), boxed }))
        }
        let t = self.arg_ty();
        let e = self.gen(&t, Cx { barrier: true, ..dn });
        let name = format!("f{}", self.act_name());
        let kind = if inner == "char" { AKind::OutChr } else { match inner.strip_prefix("N<") {
          Some(k) => { let k = k[..k.len() - 1].parse().unwrap(); if own { AKind::OutBox(k) } else { AKind::Out(k) } }
          None => match inner.strip_prefix("(N<") {
            Some(k) => AKind::OutTup(k[..k.find('>').unwrap()].parse().unwrap()),
            None => panic!("no constructor for {:?}", ty),
          }
        }};
        ex(Act(Box::new(e), Action { name, kind, boxed }))
      }
    }
  }

  /// A sequence delivering the given parts, silent expressions in between.
  fn seq(&mut self, parts: &[Ty], cx: Cx) -> Ex {
    let mut tys: Vec<Ty> = parts.to_vec();
    let most = if self.wide && self.rng.pct(30) { self.budget += 5; if self.huge { 20 } else { 7 } } else { 2 };
    let fill = self.rng.range(if tys.len() < 2 { 1 } else { 0 }, most);
    let unit_ok = tys.iter().any(|t| *t != Ty::Inv);
    for _ in 0..fill {
      let at = self.rng.below(tys.len() + 1);
      let t = if unit_ok && self.rng.pct(15) { Ty::Unit } else { Ty::Inv };
      tys.insert(at, t);
    }
    let dn = Self::down(cx);
    let who = if cx.must { self.rng.below(tys.len()) } else { usize::MAX };
    let mut v: Vec<Ex> = vec![];
    let mut left = cx.left;
    for (i, t) in tys.iter().enumerate() {
      let must = i == who;
      let mut e = self.gen_in(t, Cx { must, left, ..dn });
      if must && !self.attr(&e).consume {
        // Options cannot consume for certain: add something that does.
        e = self.gen(t, Cx { must: false, left, ..dn });
        v.push(self.word(true));
        left = false;
      }
      if self.attr(&e).consume { left = false }
      v.push(e);
    }
    // A predicate in front of a literal that begins or extends that literal.
    if self.cfg.pred > 0 && self.rng.pct(12) {
      let lits: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i].k, Lit(w) if !w.is_empty())).collect();
      if !lits.is_empty() {
        let at = *self.rng.pick(&lits);
        let Lit(w) = v[at].k.clone() else { unreachable!() };
        let near = match self.rng.below(4) {
          0 => w.clone(),
          1 => w.chars().take(1 + self.rng.below(w.chars().count())).collect(),
          2 => format!("{}{}", w, self.rng.pick(&self.alpha)),
          _ => format!("{}{}", w, self.rng.pick(&self.words)),
        };
        let e = lit(&near);
        v.insert(at, if self.rng.pct(65) { ex(Not(Box::new(e))) } else { ex(And(Box::new(e))) });
      }
    }
    if v.len() == 1 { return v.pop().unwrap() }
    ex(Seq(v))
  }
  fn gen_in(&mut self, t: &Ty, cx: Cx) -> Ex {
    match t {
      Ty::Opt(x) if cx.must => { let e = self.gen(x, Cx { must: false, ..Self::down(cx) }); ex(Opt(Box::new(e))) }
      _ => self.gen(t, cx),
    }
  }
}

/// Names that differ from each other in as little as possible.
pub fn siblings(r: &mut Rng, n: usize) -> Vec<String> {
  let base = *r.pick(&["tail", "a", "list_item", "état", "x1", "rule"]);
  let mut c = base.chars();
  let cap: String = c.next().map(|x| x.to_uppercase().collect::<String>()).unwrap_or_default() + c.as_str();
  let mut v = vec![base.to_string(), cap.clone(), base.to_uppercase(), format!("{}_", base), format!("_{}", base), format!("__{}", base), format!("{}__", base), format!("{}1", base), format!("{}11", base), format!("{}_1", base),
    format!("{}{}", base, base), format!("{}t", base), format!("{}_", cap), format!("{}01", base), format!("parse_{}", base), format!("recognize_{}", base)];
  v.sort();
  v.dedup();
  r.shuffle(&mut v);
  let mut i = 0;
  while v.len() < n { v.push(format!("{}_x{}", base, i)); i += 1 }
  v.truncate(n);
  v
}
