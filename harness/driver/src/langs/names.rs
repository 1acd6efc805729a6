// tests/grammars/type_name.rs
use oak::oak;
use oak_runtime::*;
use oakrt::*;
oak! {
  //STREAM
  lparen = "(" spacing

  type_name = auto_infer_kw &(lparen / not_eof / comma)
            / ident

  type_names = spacing type_name (lparen type_names (comma type_names)* rparen)?

  spacing = [" \n\t"]*:(^)

  ident = (!["0-9"] ["a-zA-Z0-9_"]+ spacing):(^)
  auto_infer_kw = "_" spacing
  rparen = ")" spacing
  not_eof = !.
  comma = "," spacing
}
