// tests/grammars/json.rs
use oak::oak;
use oak_runtime::*;
use oakrt::*;
oak! {
    //STREAM
    program =  spacing json_expr spacing
    // well_formed_json = lbrace json_expr? rbrace

    //JSON
    json_expr
    = number > make_json_number
    /   json_string > make_json_string
    /   json_array > make_json_array
    /   json_object > make_json_object

    json_object
    = lbrace json_members? spacing rbrace

    json_members
    = json_pair (coma json_pair)* > make_json_member

    json_pair
    = json_string colon json_expr > make_json_pair

    json_array
    = lbracket (json_expr coma)* json_expr spacing rbracket

    json_string
    = dquote json_char* dquote spacing > to_string

    //Generic Types
    dquote = "\""
    spacing = [" \n\r\t"]*:(^)
    digit = ["0-9"]
    colon = ":" spacing
    semicolon = ";" spacing
    coma = "," spacing
    number = digit+ spacing > to_number
    not_zero_digit = ["1-9"]
    digits = digit+

    json_char
    = ["a-zA-Z0-9_() ,.:&'/@?*=;-"]

    lparen = "(" spacing
    rparen = ")" spacing
    lbracket = "[" spacing
    rbracket = "]" spacing
    lbrace = "{" spacing
    rbrace = "}" spacing

    use std::str::FromStr;

    pub type PExpr = Box<JSONExpr>;

    //Enums
    #[derive(Debug)]
    pub enum JSONExpr {
        Str(String),
        Number(u32),
        Array(Vec<Box<JSONExpr>>),
        Object(Option<Box<JSONPair>>)
    }

    #[derive(Debug)]
    pub enum JSONPair {
        Pair(String, Box<JSONExpr>),
        Json(Vec<Box<JSONPair>>)
    }

    //Functions

    fn make_json_number(number:u32)-> Box<JSONExpr> {
        Box::new(JSONExpr::Number(number))
    }

    fn make_json_string(string:String) -> Box<JSONExpr> {
        Box::new(JSONExpr::Str(string))
    }

    fn make_json_pair(string:String, expr:Box<JSONExpr>) -> Box<JSONPair> {
        Box::new(JSONPair::Pair(string,expr))
    }

    fn make_json_array(array:Vec<Box<JSONExpr>>, front:Box<JSONExpr>) -> Box<JSONExpr> {
        let mut vector = Vec::new();
        for i in array{
            vector.push(i);
        }
        vector.push(front);
        Box::new(JSONExpr::Array(vector))
    }

    fn make_json_member(pair: Box<JSONPair>, rest: Vec<Box<JSONPair>>) -> Box<JSONPair> {
        let mut vector = vec![pair];
        for i in rest{
            vector.push(i);
        }
        Box::new(JSONPair::Json(vector))
    }

    fn make_json_object(m: Option<Box<JSONPair>>) -> Box<JSONExpr> {
        Box::new(JSONExpr::Object(m))
    }

    fn to_number(raw_text: Vec<char>) -> u32 {
        u32::from_str(&*to_string(raw_text)).unwrap()
    }


    fn to_string(raw_text: Vec<char>) -> String {
        raw_text.into_iter().collect()
    }

}

impl ::oakrt::Show for JSONExpr {
  fn show(&self, o: &mut String) {
    match self {
      JSONExpr::Str(s) => { o.push('"'); o.push_str(s); o.push('"') }
      JSONExpr::Number(n) => o.push_str(&n.to_string()),
      JSONExpr::Array(v) => { o.push('['); for x in v { (**x).show(o); o.push(';') } o.push(']') }
      JSONExpr::Object(None) => o.push_str("{}"),
      JSONExpr::Object(Some(p)) => { o.push('{'); (**p).show(o); o.push('}') }
    }
  }
  fn ty() -> String { "JSONExpr".into() }
}
impl ::oakrt::Show for JSONPair {
  fn show(&self, o: &mut String) {
    match self {
      JSONPair::Pair(k, v) => { o.push_str(k); o.push('='); (**v).show(o) }
      JSONPair::Json(v) => for x in v { (**x).show(o); o.push(';') },
    }
  }
  fn ty() -> String { "JSONPair".into() }
}
