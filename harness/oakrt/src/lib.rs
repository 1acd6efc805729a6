//! Runtime side of the monitors. Linked into every generated shard: instrumented stream, value printing, action
//! log, job loop. It only observes; the verdicts are given by the driver, which compares what is written here
//! with the reference model.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::Range;
use std::rc::Rc;

pub use oak_runtime::file_map_stream::{FileMap, FileMapStream};
pub use oak_runtime::*;
pub use syntex_pos::BytePos;

// ---------------------------------------------------------------------------------------------------------------
// Escaping of fields in the job and observation files.

pub fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len());
  for c in s.chars() {
    match c {
      '\\' => o.push_str("\\\\"),
      '\t' => o.push_str("\\t"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\x1f' => o.push_str("\\u"),
      c => o.push(c),
    }
  }
  o
}

pub fn unesc(s: &str) -> String {
  let mut o = String::with_capacity(s.len());
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\\' {
      match it.next() {
        Some('t') => o.push('\t'),
        Some('n') => o.push('\n'),
        Some('r') => o.push('\r'),
        Some('u') => o.push('\x1f'),
        Some(c) => o.push(c),
        None => {}
      }
    } else {
      o.push(c)
    }
  }
  o
}

// ---------------------------------------------------------------------------------------------------------------
// Observations.

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Obs {
  /// "ok", "fail", "panic: ...", or (set by the driver) "abort", "hang".
  pub status: String,
  /// Where the current stream stands at the end (byte offset).
  pub end: usize,
  /// Furthest failure (byte offset).
  pub far: usize,
  pub exp: Vec<String>,
  pub has_data: bool,
  pub data: String,
  pub ty: String,
  pub calls: Vec<String>,
  /// Terminal tests (next, consume_prefix) and all stream operations.
  pub terms: u64,
  pub ops: u64,
  /// Bytes of call stack used below the caller of the rule.
  pub stack: u64,
  /// into_result: "full", "partial", "failure".
  pub class: String,
  /// Rendering of the expectation.
  pub render: String,
  /// Violations of the stream model seen by the instrumented stream.
  pub stream_errors: Vec<String>,
}

impl Obs {
  pub fn encode(&self) -> String {
    let j = |v: &Vec<String>| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join("\x1f");
    format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
      esc(&self.status), self.end, self.far, j(&self.exp), self.has_data as u8, esc(&self.data), esc(&self.ty),
      j(&self.calls), self.terms, self.ops, self.stack, self.class, esc(&self.render), j(&self.stream_errors))
  }
  pub fn decode(line: &str) -> Option<Obs> {
    let f: Vec<&str> = line.split('\t').collect();
    if f.len() != 14 { return None }
    let l = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s.split('\x1f').map(unesc).collect() } };
    // A list holding one empty string is encoded like the empty list: the number of items is what `esc` keeps.
    Some(Obs {
      status: unesc(f[0]), end: f[1].parse().ok()?, far: f[2].parse().ok()?, exp: l(f[3]),
      has_data: f[4] == "1", data: unesc(f[5]), ty: unesc(f[6]), calls: l(f[7]),
      terms: f[8].parse().ok()?, ops: f[9].parse().ok()?, stack: f[10].parse().ok()?,
      class: f[11].to_string(), render: unesc(f[12]), stream_errors: l(f[13]),
    })
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Values.

thread_local! {
  static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
  static SPAN_BASE: Cell<u32> = Cell::new(0);
}

/// Offset to subtract from spans (source files do not start at 0).
pub fn set_span_base(b: u32) { SPAN_BASE.with(|s| s.set(b)) }

/// Canonical printing of values and of their static types.
pub trait Show {
  fn show(&self, o: &mut String);
  fn ty() -> String;
  fn sh(&self) -> String { let mut s = String::new(); self.show(&mut s); s }
}

impl Show for () {
  fn show(&self, o: &mut String) { o.push('u') }
  fn ty() -> String { "()".into() }
}
impl Show for char {
  fn show(&self, o: &mut String) { let _ = write!(o, "'{}'", self.escape_default()); }
  fn ty() -> String { "char".into() }
}
impl Show for String {
  fn show(&self, o: &mut String) { let _ = write!(o, "{:?}", self); }
  fn ty() -> String { "String".into() }
}
impl Show for u32 {
  fn show(&self, o: &mut String) { let _ = write!(o, "{}", self); }
  fn ty() -> String { "u32".into() }
}
impl<T: Show> Show for Vec<T> {
  fn show(&self, o: &mut String) {
    o.push('[');
    for (i, x) in self.iter().enumerate() { if i > 0 { o.push(',') } x.show(o) }
    o.push(']')
  }
  fn ty() -> String { format!("Vec<{}>", T::ty()) }
}
impl<T: Show> Show for Option<T> {
  fn show(&self, o: &mut String) {
    match self { None => o.push_str("None"), Some(x) => { o.push_str("Some("); x.show(o); o.push(')') } }
  }
  fn ty() -> String { format!("Option<{}>", T::ty()) }
}
impl<T: Show> Show for Box<T> {
  fn show(&self, o: &mut String) { o.push_str("box "); (**self).show(o) }
  fn ty() -> String { format!("Box<{}>", T::ty()) }
}
macro_rules! show_tuple { ($($n:ident $i:tt),+) => {
  impl<$($n: Show),+> Show for ($($n,)+) {
    fn show(&self, o: &mut String) { o.push('('); $( if $i > 0 { o.push(',') } self.$i.show(o); )+ o.push(')') }
    fn ty() -> String { let v: Vec<String> = vec![$($n::ty()),+]; format!("({})", v.join(",")) }
  }
} }
show_tuple!(T0 0, T1 1);
show_tuple!(T0 0, T1 1, T2 2);
show_tuple!(T0 0, T1 1, T2 2, T3 3);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30);
show_tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31);

impl Show for Span {
  fn show(&self, o: &mut String) {
    let b = SPAN_BASE.with(|s| s.get());
    let _ = write!(o, "<{},{}>", self.lo.0.wrapping_sub(b), self.hi.0.wrapping_sub(b));
  }
  fn ty() -> String { "Span".into() }
}
impl<S: Pos> Show for Range<S> {
  fn show(&self, o: &mut String) { let _ = write!(o, "{{{},{}}}", self.start.pos(), self.end.pos()); }
  fn ty() -> String { "Range".into() }
}

/// Result of the generated semantic actions. Neither `Clone` nor `Copy`: generated code cannot duplicate it.
pub struct N<const I: u32>(pub String);
impl<const I: u32> Show for N<I> {
  fn show(&self, o: &mut String) { o.push_str(&self.0) }
  fn ty() -> String { format!("N<{}>", I) }
}

/// Logs a call of a semantic action and builds its result.
pub fn act<const I: u32>(name: &str, args: Vec<String>) -> N<I> {
  let v = format!("{}({})", name, args.join(","));
  LOG.with(|l| l.borrow_mut().push(v.clone()));
  nested();
  N(v)
}

// What an action does besides: another whole parse.
thread_local! {
  static NESTED: RefCell<Option<(fn(&Job) -> Obs, Job, Obs)>> = RefCell::new(None);
  static NESTED_RUNS: Cell<u64> = Cell::new(0);
  static NESTED_ERRORS: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn nested() {
  if let Some((f, job, want)) = NESTED.with(|n| n.borrow_mut().take()) {
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let base = SPAN_BASE.with(|b| b.get());
    let got = f(&job);
    NESTED_RUNS.with(|n| n.set(n.get() + 1));
    if let Some(d) = changed(&want, &got) { NESTED_ERRORS.with(|e| e.borrow_mut().push(format!("inside an action, on {:?}: {}", job.text, d))) }
    SPAN_BASE.with(|b| b.set(base));
    LOG.with(|l| *l.borrow_mut() = log);
    NESTED.with(|n| *n.borrow_mut() = Some((f, job, want)));
  }
}

/// What differs between two observations of the same parse.
fn changed(a: &Obs, b: &Obs) -> Option<String> {
  // The expected items are shown in no particular order.
  let strip = |o: &Obs| { let mut r: Vec<char> = o.render.chars().collect(); r.sort(); Obs { stack: 0, render: r.into_iter().collect(), ..o.clone() } };
  let (a, b) = (strip(a), strip(b));
  if a == b { None } else { Some(format!("{:?} instead of {:?}", b, a)) }
}

fn lcg(s: &mut u64) -> usize { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*s >> 33) as usize }

/// Another text of the same length, with other line ends.
pub fn decoy(t: &str, s: &mut u64) -> String {
  t.chars().map(|c| if c.is_ascii() { match lcg(s) % 6 { 0 => '\n', 1 => 'a', 2 if c == '\n' => 'b', _ => c } } else { c }).collect()
}

/// Uses of a text that have nothing to do with the next parse.
pub fn touch(t: &str) -> usize {
  let mut s = t.stream();
  let mut n = 0;
  loop {
    n += s.location().len() + s.code_snippet(10).len();
    if s.next().is_none() { break }
  }
  n
}

/// All parses of the shard once more: in another order, over one buffer filled again and again, concurrently, and from
/// within the actions of one another. Grammars numbered below `free` run over streams with a budget: any text will do.
fn again(index: &std::collections::HashMap<(u32, &str, &str), fn(&Job) -> Obs>, lines: &[&str], seed: u64, free: u32) -> Obs {
  let mut all: Vec<(fn(&Job) -> Obs, Job)> = vec![];
  let mut any: Vec<bool> = vec![];
  for l in lines {
    let f: Vec<&str> = l.split('\t').collect();
    if f[5].len() > 30000 { continue }
    if let Some(g) = index.get(&(f[0].parse().unwrap(), f[1], f[2])) { all.push((*g, Job { start: f[3].parse().unwrap(), budget: f[4].parse().unwrap(), text: unesc(f[5]) })); any.push(f[0].parse::<u32>().unwrap() < free) }
  }
  let base: Vec<Obs> = all.iter().map(|(f, j)| f(j)).collect();
  let mut o = Obs { status: "ok".into(), ..Obs::default() };
  let n = all.len();
  let order = |s: &mut u64| { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { v.swap(i, lcg(s) % (i + 1)) } v };
  let mut s = seed;
  // Other orders.
  for _ in 0..2 {
    for i in order(&mut s) {
      let got = all[i].0(&all[i].1);
      o.terms += 1;
      if let Some(d) = changed(&base[i], &got) { o.stream_errors.push(format!("repeated in another order, on {:?}: {}", all[i].1.text, d)) }
    }
  }
  // The same buffer for all texts, what follows one another over it sharing address or length.
  let mut slot = Job { text: String::with_capacity(1 + all.iter().map(|a| a.1.text.len()).max().unwrap_or(0)), start: 0, budget: 0 };
  let mut by_length = order(&mut s);
  by_length.sort_by_key(|i| all[*i].1.text.len());
  for i in by_length.into_iter().chain(order(&mut s)) {
    let j = &all[i].1;
    slot.start = j.start;
    slot.budget = j.budget;
    let d = decoy(&j.text, &mut s);
    slot.text.clear();
    slot.text.push_str(&d);
    if any[i] && slot.text.is_char_boundary(j.start) { all[i].0(&slot); } else { touch(&slot.text); }
    slot.text.clear();
    slot.text.push_str(&j.text);
    let got = all[i].0(&slot);
    o.far += 1;
    if let Some(d) = changed(&base[i], &got) { o.stream_errors.push(format!("repeated on a buffer used before, on {:?}: {}", j.text, d)) }
  }
  // Concurrently.
  let found = std::sync::Mutex::new(vec![]);
  let done = std::sync::atomic::AtomicU64::new(0);
  std::thread::scope(|sc| {
    for _ in 0..4 {
      let v = order(&mut s);
      let (all, base, found, done) = (&all, &base, &found, &done);
      std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || for i in v {
        let got = all[i].0(&all[i].1);
        done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if let Some(d) = changed(&base[i], &got) { found.lock().unwrap().push(format!("beside other threads, on {:?}: {}", all[i].1.text, d)) }
      }).unwrap();
    }
  });
  o.ops = done.into_inner();
  o.stream_errors.extend(found.into_inner().unwrap());
  // From within actions.
  for i in order(&mut s) {
    if base[i].calls.is_empty() { continue }
    let k = lcg(&mut s) % n;
    NESTED.with(|n| *n.borrow_mut() = Some((all[k].0, Job { text: all[k].1.text.clone(), ..all[k].1 }, base[k].clone())));
    let got = all[i].0(&all[i].1);
    NESTED.with(|n| *n.borrow_mut() = None);
    if let Some(d) = changed(&base[i], &got) { o.stream_errors.push(format!("with a parse inside its actions, on {:?}: {}", all[i].1.text, d)) }
  }
  o.stack = NESTED_RUNS.with(|n| n.get());
  o.stream_errors.extend(NESTED_ERRORS.with(|e| std::mem::take(&mut *e.borrow_mut())));
  o.stream_errors.truncate(5);
  o
}

/// User-defined data type whose constructors are used as semantic actions (unit variants take no argument).
pub enum K { U, V, C(char), L(Vec<char>), O(Option<char>), B(char, char), S(Span), I(Box<K>), W(N<0>) }
impl Show for K {
  fn show(&self, o: &mut String) {
    match self {
      K::U => o.push_str("K::U"),
      K::V => o.push_str("K::V"),
      K::C(a) => { o.push_str("K::C("); a.show(o); o.push(')') }
      K::L(a) => { o.push_str("K::L("); a.show(o); o.push(')') }
      K::O(a) => { o.push_str("K::O("); a.show(o); o.push(')') }
      K::B(a, b) => { o.push_str("K::B("); a.show(o); o.push(','); b.show(o); o.push(')') }
      K::S(a) => { o.push_str("K::S("); a.show(o); o.push(')') }
      K::I(a) => { o.push_str("K::I("); a.show(o); o.push(')') }
      K::W(a) => { o.push_str("K::W("); a.show(o); o.push(')') }
    }
  }
  fn ty() -> String { "K".into() }
}

// ---------------------------------------------------------------------------------------------------------------
// Streams.

pub trait Pos { fn pos(&self) -> usize; }
impl<'a> Pos for StrStream<'a> { fn pos(&self) -> usize { self.bytes_offset() } }
impl<'a> Pos for FileMapStream<'a> {
  fn pos(&self) -> usize {
    // The only public view of the position of a file stream is its span.
    let s = Range { start: self.clone(), end: self.clone() }.stream_span();
    (s.lo.0 - SPAN_BASE.with(|b| b.get())) as usize
  }
}

/// What the instrumented stream records during one parse.
pub struct Mon<'a> {
  text: &'a str,
  terms: Cell<u64>,
  ops: Cell<u64>,
  budget: u64,
  base: usize,
  low: Cell<usize>,
  errors: RefCell<Vec<String>>,
}

impl<'a> Mon<'a> {
  pub fn new(text: &'a str, budget: u64) -> Mon<'a> {
    let here = 0u8;
    let base = &here as *const u8 as usize;
    Mon { text, terms: Cell::new(0), ops: Cell::new(0), budget, base, low: Cell::new(base), errors: RefCell::new(vec![]) }
  }
  #[inline(never)]
  fn tick(&self, term: bool) {
    let here = 0u8;
    let a = &here as *const u8 as usize;
    if a < self.low.get() { self.low.set(a) }
    self.ops.set(self.ops.get() + 1);
    if term { self.terms.set(self.terms.get() + 1) }
    if self.ops.get() > self.budget { panic!("OAKV_BUDGET: more than {} stream operations", self.budget) }
  }
  fn error(&self, m: String) {
    let mut e = self.errors.borrow_mut();
    if e.len() < 5 { e.push(m) }
  }
}

/// The instrumented stream: the real `StrStream`, every operation of which is counted and checked against a cursor.
#[derive(Clone)]
pub struct MonStream<'a> {
  inner: StrStream<'a>,
  at: usize,
  mon: &'a Mon<'a>,
}

impl<'a> MonStream<'a> {
  pub fn new(mon: &'a Mon<'a>) -> MonStream<'a> { MonStream { inner: mon.text.stream(), at: 0, mon } }
  fn check(&self, what: &str) {
    if self.inner.bytes_offset() != self.at {
      self.mon.error(format!("{}: stream stands at {}, cursor at {}", what, self.inner.bytes_offset(), self.at));
    }
  }
}

impl<'a> Iterator for MonStream<'a> {
  type Item = char;
  fn next(&mut self) -> Option<char> {
    self.mon.tick(true);
    let want = self.mon.text[self.at..].chars().next();
    let got = self.inner.next();
    if want != got { self.mon.error(format!("next at {}: {:?} instead of {:?}", self.at, got, want)); }
    self.at += want.map_or(0, |c| c.len_utf8());
    self.check("next");
    got
  }
}
impl<'a> ConsumePrefix<&'static str> for MonStream<'a> {
  fn consume_prefix(&mut self, p: &'static str) -> bool {
    self.mon.tick(true);
    let want = self.mon.text[self.at..].starts_with(p);
    let got = self.inner.consume_prefix(p);
    if want != got { self.mon.error(format!("prefix {:?} at {}: {:?} instead of {:?}", p, self.at, got, want)); }
    if want { self.at += p.len() }
    self.check("consume_prefix");
    got
  }
}
impl<'a> HasNext for MonStream<'a> {
  fn has_next(&self) -> bool {
    self.mon.tick(false);
    let got = self.inner.has_next();
    if got != (self.at < self.mon.text.len()) { self.mon.error(format!("has_next at {}: {}", self.at, got)); }
    got
  }
}
impl<'a> PartialEq for MonStream<'a> {
  fn eq(&self, o: &Self) -> bool {
    self.mon.tick(false);
    let got = self.inner == o.inner;
    if got != (self.at == o.at) { self.mon.error(format!("{} == {}: {}", self.at, o.at, got)); }
    got
  }
}
impl<'a> Eq for MonStream<'a> {}
impl<'a> PartialOrd for MonStream<'a> {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    self.mon.tick(false);
    let got = PartialOrd::partial_cmp(&self.inner, &o.inner);
    if got != Some(self.at.cmp(&o.at)) { self.mon.error(format!("{} <=> {}: {:?}", self.at, o.at, got)); }
    got
  }
}
impl<'a> Ord for MonStream<'a> {
  fn cmp(&self, o: &Self) -> Ordering {
    self.mon.tick(false);
    let got = Ord::cmp(&self.inner, &o.inner);
    if got != self.at.cmp(&o.at) { self.mon.error(format!("{} cmp {}: {:?}", self.at, o.at, got)); }
    got
  }
}
impl<'a> Location for MonStream<'a> { fn location(&self) -> String { self.inner.location() } }
impl<'a> CodeSnippet for MonStream<'a> { fn code_snippet(&self, l: usize) -> String { self.inner.code_snippet(l) } }
// (No `StreamSpan`: coherence keeps `Range<MonStream>` out of reach of any crate but oak_runtime.)
impl<'a> Pos for MonStream<'a> { fn pos(&self) -> usize { self.at } }

/// A stream written by a user: a shared vector of characters, without lifetime.
#[derive(Clone)]
pub struct CharStream { text: Rc<Vec<char>>, at: usize, bytes: usize }
impl CharStream {
  pub fn new(s: &str) -> CharStream { CharStream { text: Rc::new(s.chars().collect()), at: 0, bytes: 0 } }
}
impl Iterator for CharStream {
  type Item = char;
  fn next(&mut self) -> Option<char> {
    let c = self.text.get(self.at).cloned();
    if let Some(c) = c { self.at += 1; self.bytes += c.len_utf8() }
    c
  }
}
impl ConsumePrefix<&'static str> for CharStream {
  fn consume_prefix(&mut self, p: &'static str) -> bool {
    let n = p.chars().count();
    if self.at + n <= self.text.len() && p.chars().zip(self.text[self.at..].iter()).all(|(a, b)| a == *b) {
      self.at += n;
      self.bytes += p.len();
      true
    } else { false }
  }
}
impl HasNext for CharStream { fn has_next(&self) -> bool { self.at < self.text.len() } }
impl PartialEq for CharStream { fn eq(&self, o: &Self) -> bool { self.at == o.at } }
impl Eq for CharStream {}
impl PartialOrd for CharStream { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.at.partial_cmp(&o.at) } }
impl Ord for CharStream { fn cmp(&self, o: &Self) -> Ordering { self.at.cmp(&o.at) } }
impl Location for CharStream { fn location(&self) -> String { format!("@{}", self.at) } }
impl CodeSnippet for CharStream { fn code_snippet(&self, l: usize) -> String { self.text[self.at..].iter().take(l).collect() } }
impl Pos for CharStream { fn pos(&self) -> usize { self.bytes } }

/// A stream with a type parameter, carrying user data along.
#[derive(Clone)]
pub struct TagStream<'a, D: Clone> { inner: StrStream<'a>, pub tag: D }
impl<'a, D: Clone> TagStream<'a, D> { pub fn new(s: &'a str, tag: D) -> Self { TagStream { inner: s.stream(), tag } } }
impl<'a, D: Clone> Iterator for TagStream<'a, D> { type Item = char; fn next(&mut self) -> Option<char> { self.inner.next() } }
impl<'a, D: Clone> ConsumePrefix<&'static str> for TagStream<'a, D> { fn consume_prefix(&mut self, p: &'static str) -> bool { self.inner.consume_prefix(p) } }
impl<'a, D: Clone> HasNext for TagStream<'a, D> { fn has_next(&self) -> bool { self.inner.has_next() } }
impl<'a, D: Clone> PartialEq for TagStream<'a, D> { fn eq(&self, o: &Self) -> bool { self.inner == o.inner } }
impl<'a, D: Clone> Eq for TagStream<'a, D> {}
impl<'a, D: Clone> PartialOrd for TagStream<'a, D> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { PartialOrd::partial_cmp(&self.inner, &o.inner) } }
impl<'a, D: Clone> Ord for TagStream<'a, D> { fn cmp(&self, o: &Self) -> Ordering { Ord::cmp(&self.inner, &o.inner) } }
impl<'a, D: Clone> Location for TagStream<'a, D> { fn location(&self) -> String { self.inner.location() } }
impl<'a, D: Clone> CodeSnippet for TagStream<'a, D> { fn code_snippet(&self, l: usize) -> String { self.inner.code_snippet(l) } }
impl<'a, D: Clone> Pos for TagStream<'a, D> { fn pos(&self) -> usize { self.inner.bytes_offset() } }

/// The least a stream has to be: what is neither printed nor located, nor shared with other threads.
#[derive(Clone)]
pub struct Bare<'a> { text: &'a str, at: usize, _alone: Rc<Cell<u8>> }
/// What it is made from.
pub struct BareText<'a>(pub &'a Job);
impl<'a> Stream for BareText<'a> {
  type Output = Bare<'a>;
  fn stream(self) -> Bare<'a> { Bare { text: &self.0.text, at: self.0.start, _alone: Rc::new(Cell::new(0)) } }
}
impl<'a> Iterator for Bare<'a> {
  type Item = char;
  fn next(&mut self) -> Option<char> {
    let c = self.text[self.at..].chars().next();
    self.at += c.map_or(0, |c| c.len_utf8());
    c
  }
}
impl<'a> ConsumePrefix<&'static str> for Bare<'a> {
  fn consume_prefix(&mut self, p: &'static str) -> bool {
    let ok = self.text[self.at..].starts_with(p);
    if ok { self.at += p.len() }
    ok
  }
}
impl<'a> HasNext for Bare<'a> { fn has_next(&self) -> bool { self.at < self.text.len() } }
impl<'a> PartialEq for Bare<'a> { fn eq(&self, o: &Self) -> bool { self.at == o.at } }
impl<'a> Eq for Bare<'a> {}
impl<'a> PartialOrd for Bare<'a> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.at.partial_cmp(&o.at) } }
impl<'a> Ord for Bare<'a> { fn cmp(&self, o: &Self) -> Ordering { self.at.cmp(&o.at) } }
impl<'a> Pos for Bare<'a> { fn pos(&self) -> usize { self.at } }

// ---------------------------------------------------------------------------------------------------------------
// Running rules.

pub struct Job { pub text: String, pub start: usize, pub budget: u64 }

fn observe<S: Pos, T: Show>(state: &ParseState<S, T>) -> Obs {
  let mut o = Obs::default();
  o.status = if state.failed { "fail".into() } else { "ok".into() };
  o.end = state.current.pos();
  o.far = state.farthest_read.pos();
  o.exp = state.expected.iter().map(|s| s.to_string()).collect();
  o.exp.sort();
  o.exp.dedup();
  o.ty = T::ty();
  if let Some(d) = state.data.as_ref() { o.has_data = true; d.show(&mut o.data) }
  o
}

fn classify<S, T>(o: &mut Obs, state: ParseState<S, T>) where S: Ord + Clone + HasNext + Location + CodeSnippet {
  match state.into_result() {
    ParseResult::Success(_) => o.class = "full".into(),
    ParseResult::Partial(_, e) => { o.class = "partial".into(); o.render = format!("{:?}", e) }
    ParseResult::Failure(e) => { o.class = "failure".into(); o.render = format!("{:?}", e) }
  }
}

fn skip<S: Iterator<Item = char> + Pos>(mut s: S, start: usize) -> S {
  while s.pos() < start { if s.next().is_none() { break } }
  s
}

fn drive<S, T: Show>(start: S, f: impl FnOnce(ParseState<S, ()>) -> ParseState<S, T>) -> Obs
  where S: Pos + Ord + Clone + HasNext + Location + CodeSnippet
{
  LOG.with(|l| l.borrow_mut().clear());
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let state = f(ParseState::new(start));
    let mut o = observe(&state);
    o.calls = LOG.with(|l| l.borrow().clone());
    (o, state)
  }));
  match r {
    Ok((mut o, state)) => {
      let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut x = Obs::default(); classify(&mut x, state); x }));
      match c {
        Ok(x) => { o.class = x.class; o.render = x.render }
        Err(e) => o.class = format!("panic: {}", msg(&e)),
      }
      o
    }
    Err(e) => Obs { status: format!("panic: {}", msg(&e)), calls: LOG.with(|l| l.borrow().clone()), ..Obs::default() }
  }
}

pub fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
  else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
  else { "?".into() }
}


pub fn mon<'a>(job: &'a Job) -> Mon<'a> { Mon::new(&job.text, job.budget) }

/// The caller provides `mon` because the value of the rule may borrow from the stream.
pub fn run_m<'a, T: Show>(job: &Job, mon: &'a Mon<'a>, f: impl FnOnce(ParseState<MonStream<'a>, ()>) -> ParseState<MonStream<'a>, T>) -> Obs {
  set_span_base(0);
  let s = skip(MonStream::new(mon), job.start);
  mon.terms.set(0);
  mon.ops.set(0);
  mon.low.set(mon.base);
  let mut o = drive(s, f);
  o.terms = mon.terms.get();
  o.ops = mon.ops.get();
  o.stack = (mon.base - mon.low.get()) as u64;
  o.stream_errors = mon.errors.borrow().clone();
  o
}
pub fn run_s<'a, T: Show>(job: &Job, text: &'a str, f: impl FnOnce(ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, T>) -> Obs {
  set_span_base(0);
  drive(skip(text.stream(), job.start), f)
}
pub fn run_t<'a, T: Show>(job: &Job, text: &'a String, f: impl FnOnce(ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, T>) -> Obs {
  set_span_base(0);
  drive(skip(text.stream(), job.start), f)
}
pub fn run_f<'a, T: Show>(job: &Job, fm: &'a Rc<FileMap>, f: impl FnOnce(ParseState<FileMapStream<'a>, ()>) -> ParseState<FileMapStream<'a>, T>) -> Obs {
  set_span_base(fm.start_pos.0);
  let o = drive(skip(fm.stream(), job.start), f);
  set_span_base(0);
  o
}
pub fn run_c<T: Show>(job: &Job, f: impl FnOnce(ParseState<CharStream, ()>) -> ParseState<CharStream, T>) -> Obs {
  set_span_base(0);
  drive(skip(CharStream::new(&job.text), job.start), f)
}
pub fn run_g<'a, T: Show>(job: &Job, text: &'a str, f: impl FnOnce(ParseState<TagStream<'a, u8>, ()>) -> ParseState<TagStream<'a, u8>, T>) -> Obs {
  set_span_base(0);
  drive(skip(TagStream::new(text, 7u8), job.start), f)
}

/// The functions of oak_runtime are called by the caller: what they ask of the stream is found out where grammars are compiled.
pub fn run_b<'a, T: Show>(_job: &'a Job, state: impl FnOnce() -> ParseState<Bare<'a>, ()>, f: impl FnOnce(ParseState<Bare<'a>, ()>) -> ParseState<Bare<'a>, T>,
  result: impl FnOnce(ParseState<Bare<'a>, T>) -> ParseResult<Bare<'a>, T>) -> Obs
{
  set_span_base(0);
  LOG.with(|l| l.borrow_mut().clear());
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let state = f(state());
    let mut o = observe(&state);
    o.calls = LOG.with(|l| l.borrow().clone());
    o.class = match result(state) { ParseResult::Success(_) => "full", ParseResult::Partial(..) => "partial", ParseResult::Failure(_) => "failure" }.into();
    o.render = "@".into();
    o
  }));
  r.unwrap_or_else(|e| Obs { status: format!("panic: {}", msg(&e)), calls: LOG.with(|l| l.borrow().clone()), ..Obs::default() })
}

/// One parse continued by another from where it stopped.
pub fn then<S, A, B>(a: impl FnOnce(ParseState<S, ()>) -> ParseState<S, A>, b: impl FnOnce(ParseState<S, ()>) -> ParseState<S, B>)
  -> impl FnOnce(ParseState<S, ()>) -> ParseState<S, (A, B)> where S: Ord + Clone + HasNext
{
  move |s| {
    let s = a(s);
    if s.is_failed() { return s.failure() }
    let (s, x) = s.extract_data();
    let s = b(s);
    if s.is_failed() { return s.failure() }
    let (s, y) = s.extract_data();
    s.success((x, y))
  }
}

/// Runs both functions of a rule of type `char` on every Unicode scalar value alone; the data are the accepted ranges.
pub fn sweep(_job: &Job, rec: for<'a> fn(ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()>,
  par: for<'a> fn(ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, char>) -> Obs
{
  let r = std::panic::catch_unwind(|| {
    let mut o = Obs { status: "ok".into(), ..Obs::default() };
    let mut ranges: Vec<(u32, u32)> = vec![];
    let mut text = String::new();
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
      text.clear();
      text.push(c);
      let s = rec(ParseState::new(text.as_str().stream()));
      o.terms += 1;
      let ok = !s.failed;
      let end = s.current.pos();
      if ok {
        match ranges.last_mut() { Some(l) if l.1 + 1 == c as u32 => l.1 = c as u32, _ => ranges.push((c as u32, c as u32)) }
        if end != text.len() && o.stream_errors.len() < 5 { o.stream_errors.push(format!("{:?} matched up to {}", c, end)) }
      }
      // The parser: around the edges of what the recognizer accepts, and one character in 61.
      let edge = ranges.last().map_or(false, |l| l.1 + 2 >= c as u32 && (l.1 < c as u32 || c as u32 <= l.0 + 1));
      if edge || c as u32 % 61 == 0 {
        let p = par(ParseState::new(text.as_str().stream()));
        o.ops += 1;
        let got = if p.failed { None } else { p.data };
        if got != (if ok { Some(c) } else { None }) && o.stream_errors.len() < 5 { o.stream_errors.push(format!("{:?}: recognized: {}, parsed: {:?}", c, ok, got)) }
      }
    }
    o.data = ranges.iter().map(|(a, b)| format!("{:x}-{:x}", a, b)).collect::<Vec<_>>().join(",");
    o
  });
  r.unwrap_or_else(|e| Obs { status: format!("panic: {}", msg(&e)), ..Obs::default() })
}

pub fn file_map(text: &str, start: u32) -> Rc<FileMap> {
  Rc::new(FileMap {
    name: "input".to_string(), abs_path: None, src: Some(Rc::new(text.to_string())),
    start_pos: BytePos(start), end_pos: BytePos(start + text.len() as u32),
    lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]),
  })
}

pub struct Entry { pub gid: u32, pub rule: &'static str, pub mode: &'static str, pub f: fn(&Job) -> Obs }

/// `shard JOBS OUT SKIP`: runs every job of the file after the first SKIP ones, one line of observation per job.
pub fn shard_main(entries: Vec<Entry>) {
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().collect();
  let jobs = std::fs::read_to_string(&a[1]).expect("jobs");
  let skip: usize = a[3].parse().expect("skip");
  let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).expect("out");
  let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    let index: std::collections::HashMap<(u32, &str, &str), fn(&Job) -> Obs> =
      entries.iter().map(|e| ((e.gid, e.rule, e.mode), e.f)).collect();
    for line in jobs.lines().skip(skip) {
      let f: Vec<&str> = line.split('\t').collect();
      if f[2] == "again" {
        let all: Vec<&str> = jobs.lines().filter(|l| l.split('\t').nth(2) != Some("again")).collect();
        let mut l = again(&index, &all, f[3].parse().unwrap(), f[4].parse().unwrap()).encode();
        l.push('\n');
        out.write_all(l.as_bytes()).unwrap();
        continue
      }
      let job = Job { start: f[3].parse().unwrap(), budget: f[4].parse().unwrap(), text: unesc(f[5]) };
      let o = match index.get(&(f[0].parse().unwrap(), f[1], f[2])) {
        Some(g) => g(&job),
        None => Obs { status: "missing".into(), ..Obs::default() },
      };
      let mut l = o.encode();
      l.push('\n');
      out.write_all(l.as_bytes()).unwrap();
    }
  }).unwrap();
  h.join().unwrap();
}

// ---------------------------------------------------------------------------------------------------------------
// Rules written by hand, following the calling convention of the generated ones.

pub mod hand {
  use super::{ParseState, HasNext, N};

  fn number<S>(state: &mut ParseState<S, ()>) -> Option<String> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    let mut digits = String::new();
    loop {
      let mut ahead = state.current.clone();
      match ahead.next() {
        Some(c) if c.is_ascii_digit() => { digits.push(c); state.current = ahead }
        _ => break,
      }
    }
    if digits.is_empty() { state.error("number"); None } else { Some(digits) }
  }
  pub fn recognize_num<S>(mut state: ParseState<S, ()>) -> ParseState<S, ()> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    match number(&mut state) { Some(_) => state.success(()), None => state.failure() }
  }
  pub fn parse_num<S>(mut state: ParseState<S, ()>) -> ParseState<S, N<9>> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    match number(&mut state) { Some(d) => state.success(N(format!("num:{}", d))), None => state.failure() }
  }

  /// Zero or more digits: never fails, and may consume nothing.
  pub fn recognize_blank<S>(mut state: ParseState<S, ()>) -> ParseState<S, ()> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    blank(&mut state);
    state.success(())
  }
  pub fn parse_blank<S>(mut state: ParseState<S, ()>) -> ParseState<S, N<8>> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    let d = blank(&mut state);
    state.success(N(format!("blank:{}", d)))
  }
  fn blank<S>(state: &mut ParseState<S, ()>) -> String where S: Ord + Clone + HasNext + Iterator<Item = char> {
    let mut digits = String::new();
    loop {
      let mut ahead = state.current.clone();
      match ahead.next() {
        Some(c) if c.is_ascii_digit() => { digits.push(c); state.current = ahead }
        _ => return digits,
      }
    }
  }

  fn two<S>(state: &mut ParseState<S, ()>) -> Option<(char, char)> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    let mut ahead = state.current.clone();
    match (ahead.next(), ahead.next()) {
      (Some(a), Some(b)) if a == b => { state.current = ahead; Some((a, b)) }
      _ => { state.error("twin"); None }
    }
  }
  pub fn recognize_twin<S>(mut state: ParseState<S, ()>) -> ParseState<S, ()> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    match two(&mut state) { Some(_) => state.success(()), None => state.failure() }
  }
  pub fn parse_twin<S>(mut state: ParseState<S, ()>) -> ParseState<S, (char, char)> where S: Ord + Clone + HasNext + Iterator<Item = char> {
    match two(&mut state) { Some(p) => state.success(p), None => state.failure() }
  }
}
