//! Grammars as data, and their rendering as `oak!` source text.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Cls { One(char), Rng(char, char) }

#[derive(Clone, Debug, PartialEq)]
pub enum Asc { Unit, Inv, Rust(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum AKind {
  /// Function written inside of the macro, returning `N<k>`: its type is known to oak.
  In(u32),
  /// Function written outside, returning `N<k>`: its type is unknown to oak.
  Out(u32),
  /// Function written outside, returning the tuple `(N<k>, char)`.
  OutTup(u32),
  /// Functions returning a `Box<N<k>>`, inside and outside of the macro.
  InBox(u32),
  OutBox(u32),
  /// Functions returning a character, inside and outside of the macro.
  InChr,
  OutChr,
  /// Constructor of `K`.
  Ctor(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Action { pub name: String, pub kind: AKind, pub boxed: bool }

impl Action {
  pub fn ret(&self) -> String {
    let t = match &self.kind {
      AKind::In(k) | AKind::Out(k) => format!("N<{}>", k),
      AKind::OutTup(k) => format!("(N<{}>,char)", k),
      AKind::InBox(k) | AKind::OutBox(k) => format!("Box<N<{}>>", k),
      AKind::InChr | AKind::OutChr => "char".to_string(),
      AKind::Ctor(_) => "K".to_string(),
    };
    if self.boxed { format!("Box<{}>", t) } else { t }
  }
  pub fn path(&self) -> String {
    match &self.kind { AKind::Ctor(c) => format!("K::{}", c), _ => self.name.clone() }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ex { pub id: usize, pub k: Kd }

#[derive(Clone, Debug, PartialEq)]
pub enum Kd {
  Lit(String),
  Any,
  Cl(Vec<Cls>),
  Ref(usize),
  /// Rule outside of the grammar: index in `Gram::exts`.
  Ext(usize),
  Seq(Vec<Ex>),
  Alt(Vec<Ex>),
  Star(Box<Ex>),
  Plus(Box<Ex>),
  Opt(Box<Ex>),
  Not(Box<Ex>),
  And(Box<Ex>),
  Spn(Box<Ex>),
  Rg(Box<Ex>),
  Act(Box<Ex>, Action),
  As(Box<Ex>, Asc),
}
use Kd::*;

pub fn ex(k: Kd) -> Ex { Ex { id: 0, k } }
pub fn bx(k: Kd) -> Box<Ex> { Box::new(ex(k)) }
pub fn lit(s: &str) -> Ex { ex(Lit(s.to_string())) }

impl Ex {
  pub fn kids(&self) -> Vec<&Ex> {
    match &self.k {
      Lit(_) | Any | Cl(_) | Ref(_) | Ext(_) => vec![],
      Seq(v) | Alt(v) => v.iter().collect(),
      Star(e) | Plus(e) | Opt(e) | Not(e) | And(e) | Spn(e) | Rg(e) | Act(e, _) | As(e, _) => vec![e],
    }
  }
  pub fn kids_mut(&mut self) -> Vec<&mut Ex> {
    match &mut self.k {
      Lit(_) | Any | Cl(_) | Ref(_) | Ext(_) => vec![],
      Seq(v) | Alt(v) => v.iter_mut().collect(),
      Star(e) | Plus(e) | Opt(e) | Not(e) | And(e) | Spn(e) | Rg(e) | Act(e, _) | As(e, _) => vec![e],
    }
  }
  pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Ex)) { f(self); for k in self.kids() { k.walk(f) } }
  pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Ex)) { f(self); for k in self.kids_mut() { k.walk_mut(f) } }
  pub fn size(&self) -> usize { 1 + self.kids().iter().map(|k| k.size()).sum::<usize>() }
}

#[derive(Clone, Debug)]
pub struct Rule { pub name: String, pub body: Ex, /** The ascription at the root is written on the left of `=`. */ pub lhs: bool }

/// What a rule outside of the grammar means.
#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
  /// Rule of another grammar of the world.
  Rule(usize, usize),
  /// Hand-written rule of oakrt: see `hand` there.
  Hand(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExtDef { pub path: String, pub ty: String, pub sem: Sem }

#[derive(Clone, Debug, Default)]
pub struct Gram {
  pub rules: Vec<Rule>,
  pub exts: Vec<ExtDef>,
  /// Rules on a cycle of recursive types: reduced to unit by oak, with a warning.
  pub poly: Vec<usize>,
  pub nodes: usize,
}

impl Gram {
  pub fn number(&mut self) {
    let mut n = 0;
    for r in &mut self.rules { r.body.walk_mut(&mut |e| { e.id = n; n += 1 }) }
    self.nodes = n;
  }
  pub fn has(&self, p: &dyn Fn(&Ex) -> bool) -> bool {
    let mut found = false;
    for r in &self.rules { r.body.walk(&mut |e| if p(e) { found = true }) }
    found
  }
  pub fn size(&self) -> usize { self.rules.iter().map(|r| r.body.size()).sum() }
  pub fn actions(&self) -> Vec<(&Ex, &Action)> {
    let mut v = vec![];
    for r in &self.rules { r.body.walk(&mut |e| if let Act(c, a) = &e.k { v.push((&**c, a)) }) }
    v
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Rendering.

#[derive(Clone)]
pub struct Style {
  pub rng: Option<Rng>,
  /// Percentages of redundant parentheses, comments, odd white space, odd spellings of strings.
  pub parens: u32,
  pub comments: u32,
  pub spaces: u32,
  pub spelling: u32,
  /// Parts given by the variables of a macro: the kind of each variable and its text.
  pub vars: Option<Vec<(&'static str, String)>>,
}

impl Style {
  pub fn plain() -> Style { Style { rng: None, parens: 0, comments: 0, spaces: 0, spelling: 0, vars: None } }
  pub fn wild(rng: Rng) -> Style { Style { rng: Some(rng), parens: 12, comments: 6, spaces: 30, spelling: 40, vars: None } }
  fn pct(&mut self, p: u32) -> bool { match &mut self.rng { Some(r) => r.pct(p), None => false } }
  /// The text, or the variable of a macro that stands for it.
  pub fn var(&mut self, kinds: &[&'static str], text: String) -> String {
    if self.vars.is_none() || text.contains('$') || !self.pct(30) { return text }
    let kind = *self.rng.as_mut().unwrap().pick(kinds);
    let v = self.vars.as_mut().unwrap();
    v.push((kind, text));
    format!("$v{}", v.len() - 1)
  }
  fn asc(&mut self, a: &Asc) -> String {
    let t = match a { Asc::Rust(t) => { let t = self.var(&["ty"], t.clone()); if t.starts_with('$') && self.pct(50) { return t } format!("({})", t) } _ => render_asc(a) };
    self.var(&["tt"], t)
  }
  /// White space where some is required.
  fn sp(&mut self) -> String {
    let (c, s) = (self.comments, self.spaces);
    if self.pct(c) {
      return [" /* c */ ", " // x > f / y\n", "\n/* \"a\" */ ", " /* nested /* e* */ */ "][self.rng.as_mut().unwrap().below(4)].to_string()
    }
    if self.pct(s) { return ["\n", "  ", "\t", "\n    ", "\r\n"][self.rng.as_mut().unwrap().below(5)].to_string() }
    " ".to_string()
  }
  /// White space where none is required.
  fn os(&mut self) -> String {
    let s = self.spaces;
    if self.pct(s / 2) { self.sp() } else { String::new() }
  }
}

pub fn rust_str(s: &str, st: &mut Style) -> String {
  let spelling = st.spelling;
  if st.pct(spelling) {
    let r = st.rng.as_mut().unwrap();
    match r.below(4) {
      3 if !s.contains('\r') && !s.contains("\"##") => return format!("r##\"{}\"##", s),
      0 if !s.contains('\r') && !s.contains('"') && !s.contains("\"#") => return format!("r\"{}\"", s),
      1 if !s.contains('\r') && !s.contains("\"#") => return format!("r#\"{}\"#", s),
      _ => {
        let mut o = String::from("\"");
        for c in s.chars() {
          if (c as u32) < 0x80 && r.pct(50) { o.push_str(&format!("\\x{:02x}", c as u32)) }
          else if r.pct(60) { o.push_str(&format!("\\u{{{:x}}}", c as u32)) }
          else { o.push_str(&esc_char(c)) }
        }
        o.push('"');
        return o
      }
    }
  }
  let mut o = String::from("\"");
  for c in s.chars() { o.push_str(&esc_char(c)) }
  o.push('"');
  o
}

fn esc_char(c: char) -> String {
  match c {
    '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), '\r' => "\\r".into(), '\t' => "\\t".into(),
    '\0' => "\\0".into(),
    c if (c as u32) < 0x20 || c as u32 == 0x7f => format!("\\x{:02x}", c as u32),
    // Invisible and bidirectional characters are refused or warned about in source text.
    c if ('\u{80}'..='\u{a0}').contains(&c) || ('\u{200b}'..='\u{206f}').contains(&c) || c == '\u{feff}' || c == '\u{85}'
      || ('\u{e000}'..='\u{f8ff}').contains(&c) || (c as u32) >= 0xe0000 || ('\u{fff0}'..='\u{ffff}').contains(&c) => format!("\\u{{{:x}}}", c as u32),
    c => c.to_string(),
  }
}

/// The text of a class, between its quotes.
pub fn class_text(v: &[Cls]) -> String {
  let mut s = String::new();
  for c in v {
    match c { Cls::One(c) => s.push(*c), Cls::Rng(a, b) => { s.push(*a); s.push('-'); s.push(*b) } }
  }
  s
}

/// How a class is named in error messages: bounds escaped, `a-a` shown as `a`.
pub fn class_label(v: &[Cls]) -> String {
  let mut s = String::from("[\"");
  for c in v {
    match c {
      Cls::One(c) => s.extend(c.escape_default()),
      Cls::Rng(a, b) if a == b => s.extend(a.escape_default()),
      Cls::Rng(a, b) => { s.extend(a.escape_default()); s.push('-'); s.extend(b.escape_default()) }
    }
  }
  s.push_str("\"]");
  s
}

pub fn class_matches(v: &[Cls], c: char) -> bool {
  v.iter().any(|i| match i { Cls::One(x) => *x == c, Cls::Rng(a, b) => *a <= c && c <= *b })
}

fn level(e: &Ex) -> u8 {
  match &e.k {
    Alt(_) => 0,
    Act(..) | Spn(_) | Rg(_) => 1,
    Seq(_) => 2,
    As(..) => 3,
    Not(_) | And(_) => 4,
    Star(_) | Plus(_) | Opt(_) => 5,
    _ => 6,
  }
}

pub fn render_asc(a: &Asc) -> String {
  match a { Asc::Unit => "()".into(), Asc::Inv => "(^)".into(), Asc::Rust(t) => format!("({})", t) }
}

impl Gram {
  pub fn render_ex(&self, e: &Ex, need: u8, st: &mut Style) -> String {
    let p = st.parens;
    if level(e) < need || st.pct(p) {
      let (a, b) = (st.os(), st.os());
      let t = format!("({}{}{})", a, self.render_ex(e, 0, st), b);
      return st.var(&["tt"], t)
    }
    match &e.k {
      Lit(s) => { let t = rust_str(s, st); st.var(&["tt", "literal"], t) }
      Any => st.var(&["tt"], ".".into()),
      Cl(v) => { let (a, b) = (st.os(), st.os()); let t = rust_str(&class_text(v), st); let t = format!("[{}{}{}]", a, st.var(&["tt", "literal"], t), b); st.var(&["tt"], t) }
      Ref(i) => st.var(&["tt", "ident", "path"], self.rules[*i].name.clone()),
      // `a ::b` would be `a : :b`.
      Ext(i) if self.exts[*i].path.starts_with("::") => { let p = st.var(&["path"], self.exts[*i].path.clone()); format!("({})", p) }
      Ext(i) => st.var(&["path"], self.exts[*i].path.clone()),
      Seq(v) => {
        let mut o = String::new();
        for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(&st.sp()) } o.push_str(&self.render_ex(x, 3, st)) }
        o
      }
      Alt(v) => {
        let mut o = String::new();
        for (i, x) in v.iter().enumerate() {
          if i > 0 { let (a, b) = (st.sp(), st.sp()); o.push_str(&format!("{}/{}", a, b)) }
          o.push_str(&self.render_ex(x, 1, st))
        }
        o
      }
      Star(x) => format!("{}{}*", self.render_ex(x, 6, st), st.os()),
      Plus(x) => format!("{}{}+", self.render_ex(x, 6, st), st.os()),
      Opt(x) => format!("{}{}?", self.render_ex(x, 6, st), st.os()),
      Not(x) => format!("!{}{}", st.os(), self.render_ex(x, 5, st)),
      And(x) => format!("&{}{}", st.os(), self.render_ex(x, 5, st)),
      Spn(x) => format!("..{}{}", st.sp(), self.render_ex(x, 2, st)),
      Rg(x) => format!("...{}{}", st.sp(), self.render_ex(x, 2, st)),
      Act(x, a) => {
        let need = match &x.k { Spn(_) | Rg(_) => 1, _ => 2 };
        let inner = self.render_ex(x, need, st);
        let (s1, s2) = (st.sp(), st.sp());
        let f = match a.kind { AKind::Ctor(_) => st.var(&["path"], a.path()), _ => st.var(&["tt", "ident", "path"], a.path()) };
        format!("{}{}>{}{}{}", inner, s1, s2, if a.boxed { "box " } else { "" }, f)
      }
      As(x, a) => { let inner = self.render_ex(x, 4, st); let (s1, s2) = (st.os(), st.os()); let t = st.asc(a); format!("{}{}:{}{}", inner, s1, s2, t) }
    }
  }
  pub fn render_rule(&self, r: &Rule, st: &mut Style) -> String {
    match (&r.body.k, r.lhs) {
      (As(x, a), true) => {
        let (s1, s2, s3, s4) = (st.os(), st.os(), st.sp(), st.sp());
        let (n, t) = (st.var(&["tt", "ident"], r.name.clone()), st.asc(a));
        format!("{}{}:{}{}{}={}{}", n, s1, s2, t, s3, s4, self.render_ex(x, 0, st))
      }
      _ => { let (s1, s2) = (st.sp(), st.sp()); let n = st.var(&["tt", "ident"], r.name.clone()); format!("{}{}={}{}", n, s1, s2, self.render_ex(&r.body, 0, st)) }
    }
  }
  pub fn text(&self) -> String {
    let mut st = Style::plain();
    self.rules.iter().map(|r| self.render_rule(r, &mut st)).collect::<Vec<_>>().join("\n")
  }
}
