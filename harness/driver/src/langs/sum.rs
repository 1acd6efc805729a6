// doc/src/getting-started.md
use oak::oak;
use oak_runtime::*;
use oakrt::*;
use std::str::FromStr;

oak!{
  #![show_api]
  //STREAM

  sum = number ("+" number)* > add
  number = ["0-9"]+ > to_number

  fn add(x: u32, rest: Vec<u32>) -> u32 {
    rest.iter().fold(x, |x,y| x+y)
  }

  fn to_number(raw_text: Vec<char>) -> u32 {
    let text: String = raw_text.into_iter().collect();
    u32::from_str(&*text).unwrap()
  }
}
