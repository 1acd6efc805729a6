//! Just enough JSON: reading compiler messages, writing evidence.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
  pub fn get(&self, k: &str) -> &J {
    if let J::Obj(v) = self { for (n, x) in v { if n == k { return x } } }
    &J::Null
  }
  pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
  pub fn num(&self) -> f64 { if let J::Num(n) = self { *n } else { 0.0 } }
  pub fn arr(&self) -> &[J] { if let J::Arr(v) = self { v } else { &[] } }
  pub fn is_true(&self) -> bool { *self == J::Bool(true) }
  pub fn write(&self, o: &mut String, ind: usize) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => { let _ = write!(o, "{}", b); }
      J::Num(n) => if n.fract() == 0.0 && n.abs() < 1e15 { let _ = write!(o, "{}", *n as i64); } else { let _ = write!(o, "{:.3}", n); },
      J::Str(s) => quote(s, o),
      J::Arr(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } o.push('\n'); for _ in 0..=ind { o.push(' ') } x.write(o, ind + 1) }
        o.push(']');
      }
      J::Obj(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 { o.push(',') }
          o.push('\n');
          for _ in 0..=ind { o.push(' ') }
          quote(k, o);
          o.push_str(": ");
          x.write(o, ind + 1)
        }
        o.push('}');
      }
    }
  }
}

fn quote(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
      c => o.push(c),
    }
  }
  o.push('"');
}

pub fn s(x: impl Into<String>) -> J { J::Str(x.into()) }
pub fn n(x: impl TryInto<i64>) -> J { J::Num(x.try_into().ok().unwrap_or(0) as f64) }
pub fn obj(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }

pub fn parse(t: &str) -> Option<J> {
  let b = t.as_bytes();
  let mut p = 0;
  val(t, b, &mut p)
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1 } }
fn val(t: &str, b: &[u8], p: &mut usize) -> Option<J> {
  ws(b, p);
  match *b.get(*p)? {
    b'{' => {
      *p += 1;
      let mut v = vec![];
      loop {
        ws(b, p);
        if b[*p] == b'}' { *p += 1; return Some(J::Obj(v)) }
        if b[*p] == b',' { *p += 1; continue }
        let k = match val(t, b, p)? { J::Str(s) => s, _ => return None };
        ws(b, p);
        *p += 1;
        v.push((k, val(t, b, p)?));
      }
    }
    b'[' => {
      *p += 1;
      let mut v = vec![];
      loop {
        ws(b, p);
        if b[*p] == b']' { *p += 1; return Some(J::Arr(v)) }
        if b[*p] == b',' { *p += 1; continue }
        v.push(val(t, b, p)?);
      }
    }
    b'"' => {
      *p += 1;
      let mut o = String::new();
      loop {
        let st = *p;
        while b[*p] != b'"' && b[*p] != b'\\' { *p += 1 }
        o.push_str(&t[st..*p]);
        if b[*p] == b'"' { *p += 1; return Some(J::Str(o)) }
        *p += 1;
        match b[*p] {
          b'n' => o.push('\n'), b't' => o.push('\t'), b'r' => o.push('\r'), b'b' => o.push('\u{8}'), b'f' => o.push('\u{c}'),
          b'u' => {
            let mut u = u32::from_str_radix(t.get(*p + 1..*p + 5)?, 16).ok()?;
            *p += 4;
            if (0xd800..0xdc00).contains(&u) && b.get(*p + 1) == Some(&b'\\') {
              let l = u32::from_str_radix(t.get(*p + 3..*p + 7)?, 16).ok()?;
              u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
              *p += 6;
            }
            o.push(char::from_u32(u).unwrap_or('?'));
          }
          c => o.push(c as char),
        }
        *p += 1;
      }
    }
    b't' => { *p += 4; Some(J::Bool(true)) }
    b'f' => { *p += 5; Some(J::Bool(false)) }
    b'n' => { *p += 4; Some(J::Null) }
    _ => {
      let st = *p;
      while *p < b.len() && (b[*p] == b'-' || b[*p] == b'+' || b[*p] == b'.' || b[*p].is_ascii_alphanumeric()) { *p += 1 }
      t[st..*p].parse().ok().map(J::Num)
    }
  }
}
