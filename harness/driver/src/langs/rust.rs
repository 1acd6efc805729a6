// grammars/src/rust/mod.rs, in today's syntax, with types of its own for the literals.
use oak::oak;
use oak_runtime::*;
use oakrt::*;
oak! {
  //STREAM

  identifier = !digit !keyword ident_char+ spacing > to_string
  ident_char = ["a-zA-Z0-9_"]

  keyword
    = strict_keyword kw_tail
    / reserved_keyword kw_tail

  kw_tail = !ident_char spacing

  special_idents
    = "self"
    / "static"
    / "super"
    / "'static"
    // for matcher NTs
    / "tt"
    / "matchers"
    // outside of libsyntax
    / "__rust_abi"
    / "<opaque>"
    / "<unnamed_field>"
    / "Self"
    / "prelude_import"

  strict_keyword
    = "as"
    / "break"
    / "crate"
    / "else"
    / "enum"
    / "extern"
    / "false"
    / "fn"
    / "for"
    / "if"
    / "impl"
    / "in"
    / "let"
    / "loop"
    / "match"
    / "mod"
    / "move"
    / "mut"
    / "pub"
    / "ref"
    / "return"
    // Static and Self are also special idents (prefill de-dupes)
    / "static"
    / "self"
    / "Self"
    / "struct"
    / "super"
    / "true"
    / "trait"
    / "type"
    / "unsafe"
    / "use"
    / "while"
    / "continue"
    / "box"
    / "const"
    / "where"

  reserved_keyword
    = "virtual"
    / "proc"
    / "alignof"
    / "become"
    / "offsetof"
    / "priv"
    / "pure"
    / "sizeof"
    / "typeof"
    / "unsized"
    / "yield"
    / "do"
    / "abstract"
    / "final"
    / "override"
    / "macro"

  integer
    = decimal

  decimal = sign? number integer_suffix? > make_decimal

  sign
    = "-" > make_minus_sign
    / "+" > make_plus_sign

  number = digits > make_number
  digits = digit+ (underscore* digit)* > concat

  integer_suffix
    = "u8" > make_u8
    / "u16" > make_u16
    / "u32" > make_u32
    / "u64" > make_u64
    / "usize" > make_usize
    / "i8" > make_i8
    / "i16" > make_i16
    / "i32" > make_i32
    / "i64" > make_i64
    / "isize" > make_isize

  digit = ["0-9"]
  underscore = "_":(^)
  spacing = [" \n\r\t"]*:()

  pub enum IntTy { TyI8, TyI16, TyI32, TyI64, TyIs }
  pub enum UintTy { TyU8, TyU16, TyU32, TyU64, TyUs }
  #[derive(PartialEq)]
  pub enum Sign { Plus, Minus }
  pub enum LitIntType { SignedIntLit(IntTy, Sign), UnsignedIntLit(UintTy), UnsuffixedIntLit(Sign) }
  pub enum Lit_ { LitInt(u64, LitIntType) }
  use self::IntTy::*;
  use self::UintTy::*;
  use self::LitIntType::*;
  use std::str::FromStr;

  fn concat(mut x: Vec<char>, y: Vec<char>) -> Vec<char> {
    x.extend(y.into_iter());
    x
  }

  fn make_u8() -> LitIntType { UnsignedIntLit(TyU8) }
  fn make_u16() -> LitIntType { UnsignedIntLit(TyU16) }
  fn make_u32() -> LitIntType { UnsignedIntLit(TyU32) }
  fn make_u64() -> LitIntType { UnsignedIntLit(TyU64) }
  fn make_usize() -> LitIntType { UnsignedIntLit(TyUs) }
  fn make_i8() -> LitIntType { SignedIntLit(TyI8, Sign::Plus) }
  fn make_i16() -> LitIntType { SignedIntLit(TyI16, Sign::Plus) }
  fn make_i32() -> LitIntType { SignedIntLit(TyI32, Sign::Plus) }
  fn make_i64() -> LitIntType { SignedIntLit(TyI64, Sign::Plus) }
  fn make_isize() -> LitIntType { SignedIntLit(TyIs, Sign::Plus) }

  fn make_minus_sign() -> Sign { Sign::Minus }
  fn make_plus_sign() -> Sign { Sign::Plus }

  fn make_decimal(sign: Option<Sign>, number: u64, suffix: Option<LitIntType>) -> Lit_ {
    let sign = sign.unwrap_or(Sign::Plus);
    let ty = match suffix {
      None => UnsuffixedIntLit(sign),
      Some(SignedIntLit(ty, _)) => SignedIntLit(ty, sign),
      Some(UnsignedIntLit(_)) if sign == Sign::Minus => {
        panic!("unary negation of unsigned integers is forbidden.");
      },
      Some(x) => x
    };
    Lit_::LitInt(number, ty)
  }

  fn make_number(raw_number: Vec<char>) -> u64 {
    match u64::from_str(&*to_string(raw_number)).ok() {
      Some(x) => x,
      None => panic!("int literal is too large")
    }
  }

  fn to_string(raw_text: Vec<char>) -> String {
    raw_text.into_iter().collect()
  }
}

impl ::oakrt::Show for Lit_ {
  fn show(&self, o: &mut String) {
    let Lit_::LitInt(n, t) = self;
    let sign = |s: &Sign| if *s == Sign::Plus { "+" } else { "-" };
    o.push_str(&match t {
      UnsuffixedIntLit(s) => format!("{}{}", sign(s), n),
      SignedIntLit(t, s) => format!("{}{}{}", sign(s), n, match t { TyI8 => "i8", TyI16 => "i16", TyI32 => "i32", TyI64 => "i64", TyIs => "isize" }),
      UnsignedIntLit(t) => format!("+{}{}", n, match t { TyU8 => "u8", TyU16 => "u16", TyU32 => "u32", TyU64 => "u64", TyUs => "usize" }),
    })
  }
  fn ty() -> String { "Lit_".into() }
}
