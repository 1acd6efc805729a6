//! P21: the languages of the manual and of the repository, compiled by Oak, beside parsers written by hand for them.
use super::*;
use crate::exec::{Job, Strm, Unit};
use crate::json;

/// What a text means to a language: the value and where it ends. `Err` when an action would panic.
type Said = Result<Option<(String, usize)>, ()>;

struct Lang { name: &'static str, src: &'static str, rules: &'static [(&'static str, fn(&str) -> Said)], make: fn(&mut Rng) -> String, tokens: &'static [&'static str] }

const LANGS: &[Lang] = &[
  Lang { name: "sum", src: include_str!("../langs/sum.rs"), rules: &[("sum", sum)], make: make_sum, tokens: &["+", "1", "20", "++", "0"] },
  Lang { name: "manual", src: include_str!("../langs/manual.rs"), rules: CALC, make: make_calc, tokens: CALC_TOKENS },
  Lang { name: "calc", src: include_str!("../langs/calc.rs"), rules: CALC, make: make_calc, tokens: CALC_TOKENS },
  Lang { name: "two", src: include_str!("../langs/two.rs"), rules: &[("program", program), ("expression", expression), ("let_expr", let_expr)], make: make_calc, tokens: CALC_TOKENS },
  Lang { name: "json", src: include_str!("../langs/json.rs"), rules: &[("program", json_text), ("json_string", json_string), ("json_array", json_array)], make: make_json,
    tokens: &["{", "}", "[", "]", ",", ":", "\"", "\"a\"", "12", " ", "\n", "[1]", "{}", "[]", "\"\"", "\\", "#"] },
  Lang { name: "ntcc", src: include_str!("../langs/ntcc.rs"), rules: &[("ntcc", ntcc), ("constraint", ntcc_constraint)], make: make_ntcc,
    tokens: &["pick", "when", "store", "skip", "let", "in", "dom", "min", "max", "end", "par", "next", "async", "rep", "unless", "|", "||", "|=", "<", "<=", ">", ">=", "==", "<>", "->", "<-", "..", "=", "x", "12", " ", "\n"] },
  Lang { name: "names", src: include_str!("../langs/names.rs"), rules: &[("type_names", names), ("ident", names_ident)], make: make_names, tokens: &["(", ")", ",", "_", "a", "T1", " ", "__", "1"] },
  Lang { name: "rust", src: include_str!("../langs/rust.rs"), rules: &[("identifier", rust_identifier), ("keyword", rust_keyword), ("integer", rust_integer)], make: make_rust,
    tokens: &["_", "1", "i8", "u8", "isize", "usize", "u64", "let", "type", "typeof", "do", "self", "Self", "a", " ", "-", "+", "in", "i"] },
];

// ---------------------------------------------------------------------------------------------------------------
// Parsers by hand.

struct At<'a> { t: &'a [u8], panics: bool }

impl<'a> At<'a> {
  fn new(t: &'a str) -> Self { At { t: t.as_bytes(), panics: false } }
  fn at(&self, i: usize) -> u8 { *self.t.get(i).unwrap_or(&0) }
  fn run(&self, mut i: usize, f: impl Fn(u8) -> bool) -> usize { while i < self.t.len() && f(self.t[i]) { i += 1 } i }
  fn ws(&self, i: usize) -> usize { self.run(i, |c| b" \n\r\t".contains(&c)) }
  fn digits(&self, i: usize) -> usize { self.run(i, |c| c.is_ascii_digit()) }
  fn word(&self, i: usize) -> usize { self.run(i, |c| c.is_ascii_alphanumeric() || c == b'_') }
  fn is(&self, i: usize, s: &str) -> bool { self.t.len() >= i && self.t[i..].starts_with(s.as_bytes()) }
  fn text(&self, a: usize, b: usize) -> String { String::from_utf8_lossy(&self.t[a..b]).into_owned() }
  fn u32(&mut self, a: usize, b: usize) -> u32 { match self.text(a, b).parse() { Ok(n) => n, Err(_) => { self.panics = true; 0 } } }
  fn said(&self, r: Option<(String, usize)>) -> Said { if self.panics { Err(()) } else { Ok(r) } }
}

fn sum(t: &str) -> Said {
  let mut a = At::new(t);
  let mut i = a.digits(0);
  if i == 0 { return Ok(None) }
  let mut total = Some(a.u32(0, i));
  while a.at(i) == b'+' && a.digits(i + 1) > i + 1 {
    let j = a.digits(i + 1);
    let n = a.u32(i + 1, j);
    total = total.and_then(|x| x.checked_add(n));
    i = j;
  }
  if total.is_none() { a.panics = true }
  a.said(Some((total.unwrap_or(0).to_string(), i)))
}

// Calc: by operator levels.
const CALC: &[(&str, fn(&str) -> Said)] = &[("program", program), ("expression", expression), ("identifier", identifier), ("number", number), ("let_expr", let_expr), ("keyword", keyword)];
const CALC_TOKENS: &[&str] = &["let", "in", "=", "+", "-", "*", "/", "^", "(", ")", "x", "lets", "inn", "12", " ", "\n", "let x = 1 in ", "0", "_"];

impl<'a> At<'a> {
  fn ident(&self, i: usize) -> Option<(String, usize)> {
    let j = self.word(i);
    if j == i || self.at(i).is_ascii_digit() || self.is_word(i, "let") || self.is_word(i, "in") { return None }
    Some((self.text(i, j), self.ws(j)))
  }
  fn is_word(&self, i: usize, w: &str) -> bool { self.is(i, w) && self.word(i) == i + w.len() }
  fn op(&self, i: usize, ops: &[u8]) -> Option<(char, usize)> { if i < self.t.len() && ops.contains(&self.t[i]) { Some((self.t[i] as char, self.ws(i + 1))) } else { None } }
  fn bind(&mut self, i: usize) -> Option<(String, usize)> {
    if !self.is_word(i, "let") { return None }
    let (x, i) = self.ident(self.ws(i + 3))?;
    if self.at(i) != b'=' { return None }
    let (v, i) = self.level(self.ws(i + 1), 0)?;
    if !self.is_word(i, "in") { return None }
    let (b, i) = self.level(self.ws(i + 2), 0)?;
    Some((format!("{} {} {}", x, v, b), i))
  }
  fn atom(&mut self, i: usize) -> Option<(String, usize)> {
    let j = self.digits(i);
    if j > i { return Some((self.u32(i, j).to_string(), self.ws(j))) }
    if let Some(x) = self.ident(i) { return Some(x) }
    if let Some((s, i)) = self.bind(i) { return Some((format!("(let {})", s), i)) }
    if self.at(i) != b'(' { return None }
    let (e, i) = self.level(self.ws(i + 1), 0)?;
    if self.at(i) == b')' { Some((e, self.ws(i + 1))) } else { None }
  }
  /// 0: sums, 1: products, 2: powers.
  fn level(&mut self, i: usize, l: usize) -> Option<(String, usize)> {
    if l == 2 {
      // To the right; an operator without its right operand fails the whole power.
      let (base, i) = self.atom(i)?;
      return match self.op(i, b"^") { None => Some((base, i)), Some((_, i)) => { let (e, i) = self.level(i, 2)?; Some((format!("(^ {} {})", base, e), i)) } }
    }
    let (mut left, mut i) = self.level(i, l + 1)?;
    while let Some((o, j)) = self.op(i, if l == 0 { b"+-" } else { b"*/" }) {
      match self.level(j, l + 1) { Some((right, j)) => { left = format!("({} {} {})", o, left, right); i = j } None => break }
    }
    Some((left, i))
  }
}

fn boxed(r: Option<(String, usize)>) -> Option<(String, usize)> { r.map(|(s, i)| (format!("box {}", s), i)) }
fn program(t: &str) -> Said { let mut a = At::new(t); let i = a.ws(0); let r = a.level(i, 0); a.said(boxed(r)) }
fn expression(t: &str) -> Said { let mut a = At::new(t); let r = a.level(0, 0); a.said(boxed(r)) }
fn identifier(t: &str) -> Said { Ok(At::new(t).ident(0).map(|(s, i)| (format!("{:?}", s), i))) }
fn number(t: &str) -> Said { let mut a = At::new(t); let j = a.digits(0); if j == 0 { return Ok(None) } let n = a.u32(0, j); let e = a.ws(j); a.said(Some((n.to_string(), e))) }
fn keyword(t: &str) -> Said { let a = At::new(t); Ok(["let", "in"].iter().find(|w| a.is_word(0, w)).map(|w| ("u".into(), a.ws(w.len())))) }
fn let_expr(t: &str) -> Said {
  // The tuple itself: name, value, body.
  let mut a = At::new(t);
  let r = (|| {
    if !a.is_word(0, "let") { return None }
    let (x, i) = a.ident(a.ws(3))?;
    if a.at(i) != b'=' { return None }
    let (v, i) = a.level(a.ws(i + 1), 0)?;
    if !a.is_word(i, "in") { return None }
    let (b, i) = a.level(a.ws(i + 2), 0)?;
    Some((format!("({:?},box {},box {})", x, v, b), i))
  })();
  a.said(r)
}

// JSON, as in the test grammar: natural numbers, no escapes, no empty array.
impl<'a> At<'a> {
  fn string(&self, i: usize) -> Option<(String, usize)> {
    if self.at(i) != b'"' { return None }
    let j = self.run(i + 1, |c| c.is_ascii_alphanumeric() || b"_() ,.:&'/@?*=;-".contains(&c));
    if self.at(j) != b'"' { return None }
    Some((self.text(i + 1, j), self.ws(j + 1)))
  }
  fn array(&mut self, i: usize) -> Option<(String, usize)> {
    if self.at(i) != b'[' { return None }
    let mut i = self.ws(i + 1);
    let mut o = String::from("[");
    loop {
      let (v, j) = self.value(i)?;
      o += &v;
      o.push(';');
      match self.at(j) { b',' => i = self.ws(j + 1), b']' => { o.push(']'); return Some((o, self.ws(j + 1))) } _ => return None }
    }
  }
  fn pair(&mut self, i: usize) -> Option<(String, usize)> {
    let (k, i) = self.string(i)?;
    if self.at(i) != b':' { return None }
    let (v, i) = self.value(self.ws(i + 1))?;
    Some((format!("{}={};", k, v), i))
  }
  fn value(&mut self, i: usize) -> Option<(String, usize)> {
    match self.at(i) {
      b'0'..=b'9' => { let j = self.digits(i); Some((self.u32(i, j).to_string(), self.ws(j))) }
      b'"' => self.string(i).map(|(s, i)| (format!("\"{}\"", s), i)),
      b'[' => self.array(i),
      b'{' => {
        let mut i = self.ws(i + 1);
        let mut o = String::from("{");
        if let Some((p, j)) = self.pair(i) {
          o += &p;
          i = j;
          while self.at(i) == b',' { match self.pair(self.ws(i + 1)) { Some((p, j)) => { o += &p; i = j } None => return None } }
        }
        if self.at(i) != b'}' { return None }
        o.push('}');
        Some((o, self.ws(i + 1)))
      }
      _ => None,
    }
  }
}
fn json_text(t: &str) -> Said { let mut a = At::new(t); let i = a.ws(0); let r = a.value(i); a.said(boxed(r)) }
fn json_string(t: &str) -> Said { Ok(At::new(t).string(0).map(|(s, i)| (format!("{:?}", s), i))) }
fn json_array(t: &str) -> Said {
  // Before the action: the values followed by a comma, and the last one.
  let mut a = At::new(t);
  if a.at(0) != b'[' { return Ok(None) }
  let mut i = a.ws(1);
  let mut v = vec![];
  let r = loop {
    match a.value(i) {
      None => break None,
      Some((x, j)) => { v.push(format!("box {}", x)); match a.at(j) { b',' => i = a.ws(j + 1), b']' => break Some(a.ws(j + 1)), _ => break None } }
    }
  };
  let r = r.map(|e| { let last = v.pop().unwrap(); (format!("([{}],{})", v.join(","), last), e) });
  a.said(r)
}

// NTCC.
impl<'a> At<'a> {
  fn sp(&self, i: usize) -> usize { self.run(i, |c| b" \n\t".contains(&c)) }
  fn tok(&self, i: usize, s: &str) -> Option<usize> { if self.is(i, s) { Some(self.sp(i + s.len())) } else { None } }
  fn maybe(&self, i: usize, s: &str) -> usize { self.tok(i, s).unwrap_or(i) }
  fn var(&self, i: usize) -> Option<usize> { let j = self.word(i); if j == i || self.at(i).is_ascii_digit() { None } else { Some(self.sp(j)) } }
  fn int(&self, i: usize) -> Option<usize> { let j = self.digits(i); if j == i { None } else { Some(self.sp(j)) } }
  fn operand(&self, i: usize) -> Option<usize> { if self.at(i).is_ascii_digit() { self.int(i) } else { self.var(i) } }
  fn constraint(&self, i: usize) -> Option<usize> {
    let i = self.operand(i)?;
    let op = ["<=", "<>", ">=", "==", "<", ">"].iter().find(|o| self.is(i, o))?;
    self.operand(self.sp(i + op.len()))
  }
  fn when(&self, i: usize) -> Option<usize> {
    let i = self.tok(self.tok(self.tok(i, "when")?, "store")?, "|=")?;
    self.proc(self.tok(self.constraint(i)?, "->")?)
  }
  fn bound(&self, i: usize) -> Option<usize> {
    if let Some(j) = self.int(i) { return Some(j) }
    for w in ["min", "max"] { if let Some(j) = self.tok(i, w) { if let Some(k) = self.var(j) { return Some(k) } } }
    None
  }
  fn next(&self, i: usize) -> Option<usize> { self.proc(self.tok(i, "next")?) }
  fn proc(&self, i: usize) -> Option<usize> {
    let sum = |i| { let mut i = self.when(self.maybe(self.tok(i, "pick")?, "|"))?; while let Some(j) = self.tok(i, "|").and_then(|j| self.when(j)) { i = j } Some(self.maybe(i, "end")) };
    let par = |i| { let mut i = self.proc(self.maybe(self.tok(i, "par")?, "||"))?; while let Some(j) = self.tok(i, "||").and_then(|j| self.proc(j)) { i = j } Some(self.maybe(i, "end")) };
    let unless = |i| { let i = self.constraint(self.tok(i, "unless")?)?; self.next(self.tok(self.tok(i, "|=")?, "store")?) };
    let let_in = |i| {
      let i = self.tok(self.var(self.tok(i, "let")?)?, "=")?;
      let range = self.bound(i).and_then(|j| self.tok(j, "..")).and_then(|j| self.bound(j));
      let i = match range { Some(j) => j, None => self.var(self.tok(i, "dom")?)? };
      self.proc(self.tok(i, "in")?)
    };
    match self.at(i) {
      b'p' => sum(i).or_else(|| par(i)),
      b's' if self.is(i, "store") => self.tok(i, "store").and_then(|j| self.tok(j, "<-")).and_then(|j| self.constraint(j)),
      b's' => self.tok(i, "skip"),
      b'n' => self.next(i),
      b'a' => self.tok(i, "async").and_then(|j| self.proc(j)),
      b'r' => self.tok(i, "rep").and_then(|j| self.proc(j)),
      b'u' => unless(i),
      b'l' => let_in(i),
      _ => None,
    }
  }
}
fn unit(r: Option<usize>) -> Said { Ok(r.map(|i| ("u".into(), i))) }
fn ntcc(t: &str) -> Said { let a = At::new(t); unit(a.proc(a.sp(0))) }
fn ntcc_constraint(t: &str) -> Said { unit(At::new(t).constraint(0)) }

// Type names.
impl<'a> At<'a> {
  fn names(&self, i: usize) -> Option<usize> {
    let i = self.var(self.sp(i))?;
    let args = (|| {
      let mut i = self.names(self.tok(i, "(")?)?;
      while let Some(j) = self.tok(i, ",").and_then(|j| self.names(j)) { i = j }
      self.tok(i, ")")
    })();
    Some(args.unwrap_or(i))
  }
}
fn names(t: &str) -> Said { unit(At::new(t).names(0)) }
fn names_ident(t: &str) -> Said { unit(At::new(t).var(0)) }

// Words and integers of Rust.
const WORDS: &[&str] = &["as", "break", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "self",
  "Self", "struct", "super", "true", "trait", "type", "unsafe", "use", "while", "continue", "box", "const", "where",
  "virtual", "proc", "alignof", "become", "offsetof", "priv", "pure", "sizeof", "typeof", "unsized", "yield", "do", "abstract", "final", "override", "macro"];
fn rust_identifier(t: &str) -> Said {
  let a = At::new(t);
  let j = a.word(0);
  if j == 0 || a.at(0).is_ascii_digit() || WORDS.contains(&&t[..j]) { return Ok(None) }
  Ok(Some((format!("{:?}", &t[..j]), a.ws(j))))
}
fn rust_keyword(t: &str) -> Said { let a = At::new(t); let j = a.word(0); Ok(if WORDS.contains(&&t[..j]) { Some(("u".into(), a.ws(j))) } else { None }) }
fn rust_integer(t: &str) -> Said {
  let a = At::new(t);
  let (minus, i) = match a.at(0) { b'-' => (true, 1), b'+' => (false, 1), _ => (false, 0) };
  let mut j = a.digits(i);
  if j == i { return Ok(None) }
  loop { let k = a.run(j, |c| c == b'_'); let l = a.run(k, |c| c.is_ascii_digit()); if l == k { break } j = l }
  let n: u64 = match t[i..j].replace('_', "").parse() { Ok(n) => n, Err(_) => return Err(()) };
  let s = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].iter().find(|s| a.is(j, s)).unwrap_or(&"");
  if minus && s.starts_with('u') { return Err(()) }
  Ok(Some((format!("{}{}{}", if minus { "-" } else { "+" }, n, s), j + s.len())))
}

// ---------------------------------------------------------------------------------------------------------------
// Texts.

fn gap(r: &mut Rng) -> String { match r.below(6) { 0..=2 => String::new(), 3 | 4 => " ".into(), _ => (0..r.range(1, 4)).map(|_| *r.pick(&[' ', '\n', '\t'])).collect() } }
fn some(r: &mut Rng) -> String { let g = gap(r); if g.is_empty() { " ".into() } else { g } }
fn name(r: &mut Rng) -> String {
  match r.below(8) { 0 => (*r.pick(&["lets", "inn", "let_", "in_", "_let", "iN", "le", "i", "letin", "maxi", "minx"])).into(), _ => { let n = r.range(1, 5); let mut s = String::from(*r.pick(&['a', 'Z', '_', 'k', 'i', 'l'])); for _ in 1..n { s.push(*r.pick(&['a', 'e', 't', 'n', '0', '9', '_', 'X'])) } s } }
}
fn nat(r: &mut Rng) -> String { match r.below(6) { 0 => "0".into(), 1 => "4294967295".into(), 2 => format!("00{}", r.below(99)), _ => r.below(100000).to_string() } }

fn make_sum(r: &mut Rng) -> String { let n = if r.pct(4) { r.range(200, 3000) } else { r.range(1, 8) }; (0..n).map(|_| r.below(1000).to_string()).collect::<Vec<_>>().join("+") }

fn calc(r: &mut Rng, d: usize) -> String {
  let n = if r.pct(60) { 1 } else { r.range(2, 6) };
  let mut s = String::new();
  for k in 0..n {
    if k > 0 { s.push(*r.pick(&['+', '-', '*', '/', '^', '^'])); s += &gap(r) }
    s += &match r.below(if d == 0 { 4 } else { 8 }) {
      0 | 1 => nat(r),
      2 | 3 => name(r),
      4 | 5 => format!("({}{})", gap(r), calc(r, d - 1)),
      _ => format!("let{}{}{}={}{} in{}{}", some(r), name(r), gap(r), gap(r), calc(r, d - 1), some(r), calc(r, d - 1)),
    };
    s += &gap(r);
  }
  s
}
fn make_calc(r: &mut Rng) -> String {
  if r.pct(3) {
    let n = r.range(300, 4000);
    let ops = *r.pick(&["+", "-", "*", "^", "+*^-/"]);
    let ops: Vec<char> = ops.chars().collect();
    let mut s = String::from("1");
    for _ in 0..n { s.push(*r.pick(&ops)); s += *r.pick(&["x", "2", "y1 ", "33\n"]) }
    return s
  }
  if r.pct(2) { let mut s = name(r); for _ in 0..r.range(300, 9000) { s.push(*r.pick(&['a', '7', '_'])) } return s }
  let d = r.range(1, 4);
  format!("{}{}", gap(r), calc(r, d))
}

fn jstr(r: &mut Rng) -> String { let n = if r.pct(2) { r.range(200, 5000) } else { r.below(7) }; (0..n).map(|_| *r.pick(&['a', 'Z', '0', '_', '(', ')', ' ', ',', '.', ':', '&', '\'', '/', '@', '?', '*', '=', ';', '-'])).collect() }
fn jval(r: &mut Rng, d: usize) -> String {
  let n = if r.pct(2) && d < 3 { r.range(50, 1200) } else { r.range(1, 4) };
  match r.below(if d == 0 { 4 } else { 8 }) {
    0 | 1 => format!("{}{}", nat(r), gap(r)),
    2 | 3 => format!("\"{}\"{}", jstr(r), gap(r)),
    4 | 5 => format!("[{}{}]{}", gap(r), (0..n).map(|_| jval(r, d - 1)).collect::<Vec<_>>().join(","), gap(r)),
    6 if r.pct(20) => format!("{{{}}}{}", gap(r), gap(r)),
    _ => format!("{{{}{}}}{}", gap(r), (0..n).map(|_| format!("\"{}\"{}:{}{}", jstr(r), gap(r), gap(r), jval(r, d - 1))).collect::<Vec<_>>().join(&format!(",{}", gap(r))), gap(r)),
  }
}
fn make_json(r: &mut Rng) -> String { let d = r.range(1, 4); format!("{}{}", gap(r), jval(r, d)) }

fn operand(r: &mut Rng) -> String { if r.pct(50) { r.below(99).to_string() } else { name(r) } }
fn constraint(r: &mut Rng) -> String { format!("{}{}{}{}{}", operand(r), gap(r), *r.pick(&["<=", "<>", ">=", "==", "<", ">"]), gap(r), operand(r)) }
fn proc(r: &mut Rng, d: usize) -> String {
  if d == 0 { return if r.pct(50) { "skip".into() } else { format!("store <-{}{}", gap(r), constraint(r)) } }
  let when = |r: &mut Rng| format!("when{}store {}|= {} -> {}", some(r), gap(r), constraint(r), proc(r, d - 1));
  match r.below(9) {
    0 => { let n = r.range(1, 3); let v: Vec<String> = (0..n).map(|_| when(r)).collect(); format!("pick {}{}{}", if r.pct(50) { "|" } else { "" }, v.join(" | "), if r.pct(50) { " end" } else { "" }) }
    1 | 2 => { let n = r.range(1, 3); let v: Vec<String> = (0..n).map(|_| proc(r, d - 1)).collect(); format!("par {}{}{}", if r.pct(50) { "|| " } else { "" }, v.join(" || "), if r.pct(50) { " end" } else { "" }) }
    3 => format!("next{}{}", some(r), proc(r, d - 1)),
    4 => format!("async {}", proc(r, d - 1)),
    5 => format!("rep{}{}", gap(r), proc(r, d - 1)),
    6 => format!("unless {} |= store next {}", constraint(r), proc(r, d - 1)),
    _ => {
      let range = match r.below(4) { 0 => format!("dom {}", name(r)), 1 => format!("max {} .. 10", name(r)), 2 => format!("{}..{}", r.below(9), r.below(99)), _ => format!("min {} .. max {}", name(r), name(r)) };
      format!("let {} = {} in {}", name(r), range, proc(r, d - 1))
    }
  }
}
fn make_ntcc(r: &mut Rng) -> String {
  if r.pct(3) { let n = r.range(100, 1500); return format!("{}skip", "next ".repeat(n)) }
  if r.pct(3) { let n = r.range(100, 900); return format!("par {} end", vec!["store<-x<1"; n].join("||")) }
  let d = r.range(1, 4);
  format!("{}{}", gap(r), proc(r, d))
}

fn make_names(r: &mut Rng) -> String {
  fn go(r: &mut Rng, d: usize) -> String {
    let w = if r.pct(25) { "_".into() } else { name(r) };
    let mut s = format!("{}{}{}", gap(r), w, gap(r)).replace('\r', "");
    if d > 0 && r.pct(65) { let n = r.range(1, 4); let v: Vec<String> = (0..n).map(|_| go(r, d - 1)).collect(); s += &format!("({}){}", v.join(","), gap(r)) }
    s
  }
  if r.pct(3) { let n = r.range(100, 800); return format!("{}{}", "a(".repeat(n) + "x", ")".repeat(n)) }
  go(r, 4)
}

fn make_rust(r: &mut Rng) -> String {
  let mut s = String::new();
  match r.below(10) {
    0..=4 => {
      s += *r.pick(&["", "", "-", "+"]);
      let most = if r.pct(5) { 40 } else { 9 };
      for k in 0..r.range(1, most) { if k > 0 && r.pct(25) { s += &"_".repeat(r.range(1, 3)) } s.push((b'0' + r.below(10) as u8) as char) }
      s += *r.pick(&["", "", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "_u8", "i", "i128", "__"]);
    }
    5 | 6 => { s += *r.pick(WORDS); if r.pct(40) { s += *r.pick(&["_", "s", "1", "of", "!", "\u{e9}"]) } s += &gap(r) }
    7 => { let a = *r.pick(WORDS); let b = *r.pick(WORDS); s = format!("{}{}{}", a, *r.pick(&["", " ", "_"]), b) }
    _ => { s += &name(r); s += &gap(r); s += &name(r) }
  }
  s
}

/// Damages a text.
fn spoil(r: &mut Rng, t: &str, tokens: &[&str]) -> String {
  let mut s = t.to_string();
  for _ in 0..r.range(1, 4) {
    let cuts: Vec<usize> = s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())).collect();
    let i = *r.pick(&cuts);
    let j = { let k = cuts.iter().position(|x| *x == i).unwrap(); cuts[(k + r.range(1, 4)).min(cuts.len() - 1)] };
    match r.below(9) {
      0 | 1 => s.insert_str(i, *r.pick(tokens)),
      2 => s.replace_range(i..j, ""),
      3 => s.replace_range(i..j, *r.pick(tokens)),
      4 => s.truncate(i),
      5 => s.insert(i, *r.pick(&['é', '日', '😀', '\u{0}', '#', '\r', '~', '\u{a0}', '"'])),
      6 => { let x = s[i..j].to_string(); s.insert_str(i, &x) }
      7 => { let x = s[..i].to_string(); s.push_str(&x) }
      _ => { let x = s.split_off(i); s = x },
    }
    if s.len() > 12000 { let mut k = 12000; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k) }
  }
  s
}

/// Nesting, which the grammars read several times.
fn nesting(t: &str) -> usize {
  let (mut d, mut m) = (0usize, 0usize);
  for c in t.chars() { match c { '(' | '[' | '{' => { d += 1; m = m.max(d) } ')' | ']' | '}' => d = d.saturating_sub(1), _ => () } }
  m
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "language, rule and text of more than one token on which the compiled rule ran beside the parser written by hand".into();
  let mut n = 0;
  while cx.more(n) {
    for edition in ["2015", "2018", "2021"] { one(cx, edition) }
    n += 1;
  }
  if cx.rep.evaluations < 2000 { cx.rep.inconclusive = Some("hardly anything ran".into()) }
}

fn one(cx: &mut Cx, edition: &'static str) {
  {
    cx.env.edition = edition;
    let mut units = vec![];
    for (k, l) in LANGS.iter().enumerate() {
      for (v, s) in [Strm::Str, Strm::Mon, Strm::File].iter().enumerate() {
        let gid = (k * 3 + v) as u32;
        // As documented, where a stream is declared.
        let line = match s { Strm::Str if k % 2 == 1 => "type Stream<'a> = StrStream<'a>;", s => exec::stream_line(*s) };
        let entries = l.rules.iter().flat_map(|(r, _)| ["R", "P"].iter().map(move |m| format!("Entry {{ gid: {}, rule: \"{}\", mode: \"{}\", f: {} }}", gid, r, m, exec::call(*s, &format!("{}_{}", if *m == "R" { "recognize" } else { "parse" }, r))))).collect();
        units.push(Unit { gid, src: l.src.replace("//STREAM", line), entries });
      }
    }
    let mut jobs: Vec<Job> = vec![];
    let mut want: Vec<(usize, usize, usize, Said)> = vec![];
    let per = if cx.rep.quick() { 4000 } else { 6000 };
    for (k, l) in LANGS.iter().enumerate() {
      for i in 0..per {
        let r = &mut cx.rng;
        let mut t = (l.make)(r);
        if i % 5 >= 2 { t = spoil(r, &t, l.tokens) }
        if i % 25 == 0 { t = (0..r.range(0, 12)).map(|_| *r.pick(l.tokens)).collect() }
        // `let` nests as well.
        let lets = if k >= 1 && k <= 3 { t.matches("let").count() } else { 0 };
        if k != 0 && k < 5 && nesting(&t) + lets > 9 { continue }
        let v = r.below(3);
        for (ri, (rule, f)) in l.rules.iter().enumerate() {
          // The rules besides the first on a part of the texts, from where they may begin.
          if ri > 0 && !r.pct(35) { continue }
          let mut x = t.clone();
          if ri > 0 && r.pct(60) {
            let starts: Vec<usize> = x.char_indices().filter(|(_, c)| match *rule { "let_expr" => *c == 'l', "json_string" => *c == '"', "json_array" => *c == '[', _ => !c.is_whitespace() }).map(|c| c.0).collect();
            if !starts.is_empty() { x = x[*r.pick(&starts)..].to_string() }
          }
          let said = f(&x);
          for m in ["R", "P"] {
            jobs.push(Job { gid: (k * 3 + v) as u32, rule: rule.to_string(), mode: m, start: 0, budget: 400_000_000, text: x.clone() });
            want.push((k, v, ri, said.clone()));
          }
        }
      }
    }
    let b = exec::batch(&cx.env, &units, &jobs, 3);
    for u in &units {
      let c = match b.compiled.get(&u.gid) { Some(c) => c, None => continue };
      if !c.ok { cx.rep.violation(&format!("compile:{}", LANGS[u.gid as usize / 3].name), format!("the {} grammar ({:?}) does not compile: {}", LANGS[u.gid as usize / 3].name, u.gid % 3, c.summary()), u.src.clone()) }
      else { cx.rep.count("grammars_compiled", 1) }
    }
    for ((j, o), (k, v, ri, said)) in jobs.iter().zip(&b.obs).zip(&want) {
      let l = &LANGS[*k];
      if o.status == "uncompiled" || o.status == "skipped" { continue }
      let parser = j.mode == "P";
      if said.is_err() && parser { cx.rep.count("actions_that_panic", 1); continue }
      // Recognizers run no action.
      let said = match said { Ok(s) => s.clone(), Err(()) => { if o.status.starts_with("panic") { cx.rep.violation(&format!("{}:{}:{}", l.name, l.rules[*ri].0, j.text), format!("{} recognize_{} on {:?}: {}", l.name, j.rule, pipe::brief(&j.text), o.status), j.text.clone()) } continue } };
      cx.rep.evaluations += 1;
      cx.rep.count(&format!("texts_{}", l.name), 1);
      let full = said.as_ref().map(|s| s.1 == j.text.len());
      cx.rep.count(match full { None => "refused", Some(true) => "accepted_whole", Some(false) => "accepted_in_part" }, 1);
      cx.rep.max("longest_text", j.text.len() as u64);
      cx.rep.max("deepest_stack", o.stack);
      if j.text.len() > 2 { cx.rep.nontrivial(&format!("{}:{}:{}:{}", l.name, j.rule, j.mode, j.text)) }
      let class = match full { None => "failure", Some(true) => "full", Some(false) => "partial" };
      let mut d = vec![];
      if (o.status == "ok") != said.is_some() || !(o.status == "ok" || o.status == "fail") { d.push(format!("{} instead of {}", o.status, if said.is_some() { "ok" } else { "fail" })) }
      else {
        if let Some((value, end)) = &said {
          if o.end != *end { d.push(format!("stops at {} instead of {}", o.end, end)) }
          if parser && (!o.has_data || o.data != *value) { d.push(format!("value {} instead of {}", pipe::brief(&o.data), pipe::brief(value))) }
        }
        if o.class != class { d.push(format!("classified {} instead of {}", o.class, class)) }
        if o.far > j.text.len() { d.push(format!("furthest failure {} behind the text", o.far)) }
        d.extend(o.stream_errors.iter().cloned());
      }
      cx.rep.sample(4, || json::obj(vec![("language", json::s(l.name)), ("rule", json::s(j.rule.clone())), ("text", json::s(pipe::brief(&j.text))), ("class", json::s(o.class.clone())), ("value", json::s(pipe::brief(&o.data)))]));
      if !d.is_empty() {
        cx.rep.violation(&format!("{}:{}:{}", l.name, j.rule, j.text), format!("{} grammar (stream {}): {}_{} on {:?}: {}", l.name, v, if parser { "parse" } else { "recognize" }, j.rule, pipe::brief(&j.text), d.join("; ")), format!("{}\n{:#?}\nexpected {:?}", j.text, o, said));
      }
    }
  }
}
