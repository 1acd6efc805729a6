//! The runtime library under random histories, in process, against small executable models.
use super::*;
use crate::json;
use oakrt::{file_map, CharStream, FileMap, FileMapStream, Pos};
use oak_runtime::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use syntex_pos::BytePos;

const CHARS: &[char] = &['a', 'b', 'z', ' ', '\t', '0', '(', 'é', 'ß', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '漢', '\u{2028}', '\u{feff}', '\u{ffff}', '😀', '\u{10000}', '\u{10ffff}', '\u{301}', '\u{85}', '\0', '`'];

fn text(r: &mut Rng) -> String {
  let n = match r.below(10) { 0 => 0, 1 => 1, 2..=6 => r.range(2, 14), 7 | 8 => r.range(10, 40), _ => r.range(40, 200) };
  let ends = r.below(4);
  let wide = r.below(3);
  let mut s = String::new();
  for _ in 0..n {
    if r.pct(25) {
      match (ends, r.below(6)) { (0, _) => s.push('\n'), (1, _) => s.push_str("\r\n"), (_, 0) => s.push('\r'), (_, 1 | 2) => s.push_str("\r\n"), (_, 3) => s.push_str("\n\n"), _ => s.push('\n') }
    } else {
      s.push(match wide { 0 => *r.pick(&['a', 'b', ' ']), 1 => *r.pick(&['é', '漢', '😀', 'a']), _ => *r.pick(CHARS) })
    }
  }
  s
}

/// More than 65 536 bytes: one line, lines of ordinary length, or mostly line ends.
fn long_text(r: &mut Rng, lines: bool) -> String {
  let ends = *r.pick(&[0, 0, 3, 25, 97]);
  let wide = r.below(3);
  // Some have more than 65 536 lines.
  if lines {
    let n = 65_540 + r.below(1_500);
    return (0..n).map(|_| match r.below(40) { 0 => "a\n", 1 => "é\n", 2 => "\r\n", _ => "\n" }).collect()
  }
  let n = 65_500 + r.below(12_000);
  let mut s = String::with_capacity(n + 8);
  while s.len() < n {
    if r.pct(ends) { s.push_str(*r.pick(&["\n", "\n", "\r\n", "\r"])) }
    else { s.push(match wide { 0 => *r.pick(&['a', 'b', ' ']), 1 => *r.pick(&['é', '漢', '😀', 'a']), _ => *r.pick(CHARS) }) }
  }
  s
}

fn line_col(t: &str, p: usize) -> (usize, usize) {
  let before = &t.as_bytes()[..p];
  let line = before.iter().filter(|b| **b == b'\n').count() + 1;
  let start = before.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
  (line, p - start + 1)
}

/// Is `s` what may be shown of the text from `p`, when about `hint` bytes are asked for?
fn snippet_fault(t: &str, p: usize, hint: usize, s: &str) -> Option<String> {
  let rest = &t[p..];
  if rest.is_empty() { return if s == "<end-of-file>" { None } else { Some(format!("{:?} at the end of the text", s)) } }
  if !rest.starts_with(s) { return Some(format!("{:?} is not a prefix of {:?}", s, rest)) }
  if s.is_empty() && hint > 0 { return Some(format!("empty snippet of {:?}", rest)) }
  let mut lo = hint.min(rest.len());
  while !rest.is_char_boundary(lo) { lo -= 1 }
  let mut hi = hint.min(rest.len());
  while !rest.is_char_boundary(hi) { hi += 1 }
  if s.len() < lo || s.len() > hi { return Some(format!("{:?} ({} bytes) where {} were asked for", s, s.len(), hint)) }
  None
}

fn quiet() { std::panic::set_hook(Box::new(|_| {})) }

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| oakrt::msg(&e)) }

const ITEMS: &[&str] = &["x", "while", "[\"a-z\"]", "<character>", "é漢", "number", "\n", " ", "{}", "%s", "a b"];

/// What is wrong with the rendering of a result.
pub fn render_fault(t: &str, far: usize, exp: &BTreeSet<&str>, shown: &str, needs_report: bool) -> Option<String> {
  if !needs_report { return None }
  let (l, c) = line_col(t, far);
  let loc = format!("{}:{}", l, c);
  // Results have a line of their own before the report of the failure.
  let body = if shown.starts_with("Error:") || shown.starts_with("Partial match") { shown.splitn(2, "\n\t").nth(1).unwrap_or(shown) } else { shown };
  if !body.starts_with(&format!("{}:", loc)) { return Some(format!("rendering {:?} does not locate {}", shown, loc)) }
  let rest = &t[far..];
  // The snippet stands between the first pair of backquotes.
  let after = match body.find('`') { Some(i) => &body[i + 1..], None => return Some(format!("no snippet in {:?}", shown)) };
  let ok = if rest.is_empty() { after.starts_with("<end-of-file>`") } else {
    (1..=rest.len()).any(|n| rest.is_char_boundary(n) && after.starts_with(&rest[..n]) && after[n..].starts_with('`'))
  };
  if !ok { return Some(format!("no snippet of the remaining text in {:?}", shown)) }
  for e in exp { if !body.contains(&format!("`{}`", e)) { return Some(format!("expected item {:?} is not in {:?}", e, shown)) } }
  None
}

fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

pub fn rendering(cx: &mut Cx) {
  quiet();
  cx.rep.rule = "text and position (every position of every text), with at least one line end before it or a character of several bytes in the snippet; and failed or partial results of generated parsers on texts of several lines".into();
  let mut n = 0;
  let mut buffer = String::with_capacity(1 << 12);
  while cx.more(n) {
    let texts = 12000;
    for _ in 0..texts {
      let t = text(&mut cx.rng);
      reused(cx, &mut buffer, &t);
      let base = *cx.rng.pick(&[0u32, 1, 17, 1 << 20]);
      let fm = file_map(&t, base);
      let mut s = t.as_str().stream();
      let made = caught(|| fm.stream());
      let mut f = match made { Ok(f) => Some(f), Err(m) => { fault(cx, &t, 0, format!("streaming the file panicked: {}", m)); None } };
      let mut p = 0;
      loop {
        let want = line_col(&t, p);
        let hints = [1usize, 2, 3, 4, 7, 10, 11, 25, 1000, 0];
        cx.rep.evaluations += 1;
        cx.rep.count("positions", 1);
        if want.0 > 1 || t[p..].chars().take(12).any(|c| c.len_utf8() > 1) { cx.rep.nontrivial(&format!("{}\u{1}{}", t, p)) }
        cx.rep.sample(4, || json::obj(vec![("text", json::s(t.clone())), ("position", json::n(p as i64)), ("location", json::s(format!("{}:{}", want.0, want.1)))]));
        match caught(|| s.line_column()) { Ok(g) => if g != want { fault(cx, &t, p, format!("line and column {:?} instead of {:?}", g, want)) }, Err(m) => fault(cx, &t, p, format!("line_column panicked: {}", m)) }
        one(cx, &t, p, &s, &hints, "string");
        if let Some(f) = &f { one(cx, &t, p, f, &hints, "file") }
        // Results of parses that failed furthest here.
        if cx.rng.pct(35) {
          let exp: BTreeSet<&'static str> = (0..cx.rng.below(4)).map(|_| *cx.rng.pick(ITEMS)).collect();
          report(cx, &t, p, s.clone(), &exp);
          if let Some(f) = &f { report(cx, &t, p, f.clone(), &exp) }
        }
        if p >= t.len() { break }
        let c = t[p..].chars().next().unwrap();
        // Both ways of moving on.
        if cx.rng.pct(50) { let _ = s.next(); if let Some(f) = &mut f { let _ = f.next(); } }
        else { let w = leak(&c.to_string()); let _ = s.consume_prefix(w); if let Some(f) = &mut f { let _ = f.consume_prefix(w); } }
        p += c.len_utf8();
      }
      if cx.rep.total_violations > 20 { return }
    }
    long_texts(cx);
    parses(cx);
    n += 1;
  }
}

/// Positions beyond 65 536 bytes, lines and columns.
fn long_texts(cx: &mut Cx) {
  for i in 0..10 {
    let t = long_text(&mut cx.rng, i == 0);
    let fm = file_map(&t, *cx.rng.pick(&[0u32, 1, 1 << 20]));
    let mut s = t.as_str().stream();
    let mut f = match caught(|| fm.stream()) { Ok(f) => f, Err(m) => { fault_in_long(cx, &t, 0, format!("streaming the file panicked: {}", m)); return } };
    let mut stops: Vec<usize> = (0..25).map(|_| cx.rng.below(t.len())).collect();
    if t.matches('\n').count() > 65_000 { stops.extend((0..8).map(|i| t.len() - 1 - 9 * i)); cx.rep.count("texts_over_65000_lines", 1) }
    stops.extend([254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, t.len() - 1, t.len()].iter().filter(|p| **p <= t.len()));
    for p in &mut stops { while !t.is_char_boundary(*p) { *p -= 1 } }
    stops.sort();
    stops.dedup();
    let mut p = 0;
    for q in stops {
      if cx.rng.pct(50) { let w = leak(&t[p..q]); let _ = (s.consume_prefix(w), f.consume_prefix(w)); }
      else { for _ in t[p..q].chars() { let _ = (s.next(), f.next()); } }
      p = q;
      cx.rep.evaluations += 1;
      cx.rep.count("positions_in_long_texts", 1);
      let want = line_col(&t, p);
      let loc = format!("{}:{}", want.0, want.1);
      let exp: BTreeSet<&'static str> = (0..2).map(|_| *cx.rng.pick(ITEMS)).collect();
      let got = caught(|| {
        let mut m = vec![];
        if s.line_column() != want { m.push(format!("line and column {:?} instead of {:?}", s.line_column(), want)) }
        for l in [s.location(), f.location()] { if l != loc { m.push(format!("location {} instead of {}", l, loc)) } }
        for h in [1, 10, 300, 70_000] { for g in [s.code_snippet(h), f.code_snippet(h)] { if snippet_fault(&t, p, h, &g).is_some() { m.push(format!("wrong snippet of {} bytes", h)) } } }
        let mut st: ParseState<StrStream, ()> = ParseState::new(s.clone());
        for e in &exp { st.error(e) }
        let d = format!("{:?}", st.failure::<u32>().into_result());
        if let Some(x) = render_fault(&t, p, &exp, &d, true) { m.push(if x.len() < 600 { x } else { "wrong rendering".into() }) }
        m
      });
      match got { Ok(m) => for m in m { fault_in_long(cx, &t, p, m) }, Err(m) => fault_in_long(cx, &t, p, format!("panic: {}", m)) }
      if cx.rep.total_violations > 20 { return }
    }
  }
}

fn fault_in_long(cx: &mut Cx, t: &str, p: usize, m: String) {
  let around = |a: usize, b: usize| t.char_indices().skip_while(|x| x.0 < a).take_while(|x| x.0 < b).map(|x| x.1).collect::<String>();
  let d = format!("text of {} bytes, {} line ends; around the position {:?}\nposition {}\n{}\n\n{}", t.len(), t.matches('\n').count(), around(p.saturating_sub(20), p + 20), p, m, t);
  cx.rep.violation(&format!("{}@{}", hash(t), p), format!("text of {} bytes at {}: {}", t.len(), p, m), d);
}

/// Several texts of the same length, one after the other at the same place in memory.
fn reused(cx: &mut Cx, buffer: &mut String, t: &str) {
  if t.len() > 4000 { return }
  let mut seed = cx.rng.below(1 << 30) as u64;
  let d = oakrt::decoy(t, &mut seed);
  for t in [t, &d, t] {
    buffer.clear();
    buffer.push_str(t);
    let mut s = buffer.as_str().stream();
    let mut p = 0;
    for _ in 0..3 {
      let want = line_col(t, p);
      cx.rep.count("positions_on_a_used_buffer", 1);
      match caught(|| s.location()) {
        Ok(g) => if g != format!("{}:{}", want.0, want.1) { fault(cx, t, p, format!("location {} instead of {}:{}, where other texts were before", g, want.0, want.1)) },
        Err(m) => fault(cx, t, p, format!("location panicked: {}", m)),
      }
      for _ in 0..1 + cx.rng.below(t.len() + 1) { if let Some(c) = s.next() { p += c.len_utf8() } }
    }
  }
}

fn fault(cx: &mut Cx, t: &str, p: usize, m: String) {
  let d = format!("text {:?} (bytes {:?})\nposition {}\n{}", t, t.as_bytes(), p, m);
  cx.rep.violation(&format!("{:?}@{}", t, p), format!("{:?} at {}: {}", t, p, m), d);
}

fn one<S: Location + CodeSnippet>(cx: &mut Cx, t: &str, p: usize, s: &S, hints: &[usize], what: &str) {
  let want = line_col(t, p);
  match caught(|| s.location()) {
    Ok(g) => if g != format!("{}:{}", want.0, want.1) { fault(cx, t, p, format!("{} stream: location {} instead of {}:{}", what, g, want.0, want.1)) },
    Err(m) => fault(cx, t, p, format!("{} stream: location panicked: {}", what, m)),
  }
  for h in hints {
    cx.rep.count("snippets", 1);
    match caught(|| s.code_snippet(*h)) {
      Ok(g) => if let Some(m) = snippet_fault(t, p, *h, &g) { fault(cx, t, p, format!("{} stream: snippet {}", what, m)) },
      Err(m) => fault(cx, t, p, format!("{} stream: snippet of {} panicked: {}", what, h, m)),
    }
  }
}

fn report<S: Ord + Clone + HasNext + Location + CodeSnippet>(cx: &mut Cx, t: &str, p: usize, s: S, exp: &BTreeSet<&'static str>) {
  let r = caught(|| {
    let mut st: ParseState<S, ()> = ParseState::new(s.clone());
    for e in exp { st.error(e) }
    let f = format!("{:?}", st.failure::<u32>().into_result());
    let mut st: ParseState<S, ()> = ParseState::new(s.clone());
    for e in exp { st.error(e) }
    let st = st.success(41u32);
    let full = !s.has_next();
    let d = format!("{:?}", st.into_result());
    let e = ParseExpectation::new(s.clone(), exp.iter().cloned().collect());
    (f, full, d, format!("{:?}", e), e.expected_items())
  });
  cx.rep.count("renderings", 3);
  match r {
    Err(m) => fault(cx, t, p, format!("rendering a result expecting {:?} panicked: {}", exp, m)),
    Ok((f, full, d, e, items)) => {
      for (x, needs) in [(&f, true), (&d, !full), (&e, true)] { if let Some(m) = render_fault(t, p, exp, x, needs) { fault(cx, t, p, m) } }
      if !d.contains("41") { fault(cx, t, p, format!("the value is not in {:?}", d)) }
      for i in exp { if !items.contains(&format!("`{}`", i)) { fault(cx, t, p, format!("expected item {:?} is not in {:?}", i, items)) } }
    }
  }
}

/// The messages of real parses.
fn parses(cx: &mut Cx) {
  let c = Cfg { unicode: 60, class: 12, ..Cfg::base() };
  let mut s = Spec { inputs: 10, ..spec(vec![(1, c)], 60) };
  s.offset = 70;
  let mut gs = pipe::build(&mut cx.rng, &s, 0);
  for g in &mut gs {
    // Lines before the start of the parse, lines after it.
    for c in &mut g.cases {
      if cx.rng.pct(60) {
        let pre = text(&mut cx.rng);
        let pre: String = pre.chars().take(20).collect();
        let k = pre.len();
        c.text = format!("{}{}", pre, c.text);
        c.start += k;
        for o in [&mut c.rec, &mut c.par] { o.end += k; o.far += k }
      }
    }
  }
  let b = pipe::execute(&cx.env, &mut gs, &s, 8);
  pipe::compile_losses(&mut cx.rep, &gs, &b);
  for g in &gs {
    for c in &g.cases {
      for (o, want) in [(&c.obs_r, &c.rec), (&c.obs_p, &c.par)] {
        let o = match o { Some(o) => o, None => continue };
        cx.rep.evaluations += 1;
        if !ended(o) { continue }
        let full = o.status == "ok" && o.end == c.text.len();
        let exp: BTreeSet<&str> = o.exp.iter().map(|s| s.as_str()).collect();
        cx.rep.count("rendered_parses", 1);
        if o.far > c.text.len() || !c.text.is_char_boundary(o.far) { continue }
        if line_col(&c.text, o.far).0 > 1 { cx.rep.nontrivial(&format!("{}\u{1}{}\u{1}{}", g.gram().text(), c.text, c.start)) }
        let name = &g.gram().rules[c.rule].name;
        let m = if o.class.starts_with("panic") { Some(format!("into_result: {}", o.class)) } else { render_fault(&c.text, o.far, &exp, &o.render, !full) };
        let _ = want;
        if let Some(m) = m {
          cx.rep.violation(&format!("{}:{}:{}", hash(&g.gram().text()), name, c.text), format!("rule {} on {:?} from {}: {}\nin grammar:\n{}", name, c.text, c.start, m, g.gram().text()), describe(g, c, "both"));
        }
      }
    }
  }
}

// ---------------------------------------------------------------------------------------------------------------
// Streams.

trait Kind: Clone + Ord + Iterator<Item = char> + ConsumePrefix<&'static str> + HasNext + Location + CodeSnippet + Pos {
  fn span(a: &Self, b: &Self) -> (u32, u32);
  fn peek(&self) -> Option<Option<char>>;
}
impl<'a> Kind for StrStream<'a> {
  fn span(a: &Self, b: &Self) -> (u32, u32) { let s = std::ops::Range { start: a.clone(), end: b.clone() }.stream_span(); (s.lo.0, s.hi.0) }
  fn peek(&self) -> Option<Option<char>> { Some(self.current_char()) }
}
impl<'a> Kind for FileMapStream<'a> {
  fn span(a: &Self, b: &Self) -> (u32, u32) { let s = std::ops::Range { start: a.clone(), end: b.clone() }.stream_span(); (s.lo.0, s.hi.0) }
  fn peek(&self) -> Option<Option<char>> { None }
}

/// One history. Returns its log and the first difference from the cursors.
fn history<S: Kind>(r: &mut Rng, t: &str, first: S, base: u32, counts: &mut std::collections::BTreeMap<&'static str, u64>) -> (Vec<String>, Option<String>) {
  let mut pool: Vec<(S, usize)> = vec![(first, 0)];
  let mut log = vec![];
  let steps = r.range(5, 60);
  for _ in 0..steps {
    let i = r.below(pool.len());
    let at = pool[i].1;
    let rest = &t[at..];
    let bad = match r.below(12) {
      0 | 1 => {
        *counts.entry("next").or_insert(0) += 1;
        let want = rest.chars().next();
        log.push(format!("s{}.next()", i));
        let got = caught(|| pool[i].0.next());
        pool[i].1 += want.map_or(0, |c| c.len_utf8());
        if got != Ok(want) { Some(format!("{:?} instead of {:?}", got, want)) } else { None }
      }
      2 | 3 | 4 | 5 => {
        // Prefixes that match, nearly match, or are too long.
        let k = rest.chars().count();
        let k = if k > 1000 && r.pct(40) { r.below(k + 1) } else { r.below(k.min(9) + 1) };
        let mut p: String = rest.chars().take(k).collect();
        match r.below(7) {
          0 => { p.pop(); p.push(*r.pick(CHARS)) }
          1 => p.push(*r.pick(CHARS)),
          2 => { if let Some(c) = p.pop() { let c = char::from_u32(c as u32 ^ 1).unwrap_or('a'); p.push(c) } }
          3 => p = format!("{}{}", rest, r.pick(&["a", "é", ""])),
          4 => { let mut v: Vec<char> = p.chars().collect(); if !v.is_empty() { let j = r.below(v.len()); v[j] = if v[j].is_ascii_lowercase() { v[j].to_ascii_uppercase() } else { *r.pick(CHARS) } } p = v.into_iter().collect() }
          _ => {}
        }
        let want = rest.starts_with(p.as_str());
        *counts.entry(if want { "prefix_matched" } else { "prefix_refused" }).or_insert(0) += 1;
        log.push(format!("s{}.consume_prefix({:?})", i, p));
        let p = leak(&p);
        let got = caught(|| pool[i].0.consume_prefix(p));
        if want { pool[i].1 += p.len() }
        if got != Ok(want) { Some(format!("{:?} instead of {:?}", got, want)) } else { None }
      }
      6 => {
        *counts.entry("has_next").or_insert(0) += 1;
        log.push(format!("s{}.has_next()", i));
        let got = caught(|| pool[i].0.has_next());
        if got != Ok(!rest.is_empty()) { Some(format!("{:?} instead of {:?}", got, !rest.is_empty())) } else { None }
      }
      7 | 8 => {
        if pool.len() < 6 {
          *counts.entry("clone").or_insert(0) += 1;
          log.push(format!("s{} = s{}.clone()", pool.len(), i));
          let c = pool[i].clone();
          pool.push(c);
        }
        None
      }
      9 | 10 => {
        let j = r.below(pool.len());
        *counts.entry("compare").or_insert(0) += 1;
        log.push(format!("s{} <=> s{}", i, j));
        let (a, b) = (&pool[i], &pool[j]);
        let want = a.1.cmp(&b.1);
        let got = caught(|| (Ord::cmp(&a.0, &b.0), PartialOrd::partial_cmp(&a.0, &b.0), a.0 == b.0, a.0 != b.0, a.0 < b.0, a.0 > b.0, a.0 <= b.0, a.0 >= b.0));
        let w = (want, Some(want), a.1 == b.1, a.1 != b.1, a.1 < b.1, a.1 > b.1, a.1 <= b.1, a.1 >= b.1);
        if got != Ok(w) { Some(format!("{:?} instead of {:?}", got, w)) } else { None }
      }
      _ => {
        let j = r.below(pool.len());
        let (a, b) = if pool[i].1 <= pool[j].1 { (i, j) } else { (j, i) };
        *counts.entry("span").or_insert(0) += 1;
        log.push(format!("(s{}..s{}).stream_span()", a, b));
        let got = caught(|| S::span(&pool[a].0, &pool[b].0));
        let want = (base + pool[a].1 as u32, base + pool[b].1 as u32);
        if got != Ok(want) { Some(format!("{:?} instead of {:?}", got, want)) } else { None }
      }
    };
    if bad.is_some() { return (log, bad) }
    // Nothing else has moved.
    for (k, (s, p)) in pool.iter().enumerate() {
      match caught(|| (s.pos(), s.has_next(), s.peek())) {
        Ok((q, h, c)) => {
          let next = t[*p..].chars().next();
          if q != *p || h != next.is_some() || c.map_or(false, |c| c != next) { return (log, Some(format!("then s{} stands at {} (has_next {}, at {:?}) instead of {}", k, q, h, c, p))) }
        }
        Err(m) => return (log, Some(format!("then s{} panicked: {}", k, m))),
      }
    }
  }
  // Every cursor reads what is left of the text.
  for (k, (s, p)) in pool.into_iter().enumerate() {
    let got = caught(|| s.collect::<String>());
    if got.as_deref() != Ok(&t[p..]) { log.push(format!("s{}.collect()", k)); return (log, Some(format!("{:?} instead of {:?}", got, &t[p..]))) }
  }
  (log, None)
}

fn lines_of(fm: &Rc<FileMap>) -> Vec<u32> { fm.lines.borrow().iter().map(|b: &BytePos| b.0).collect() }

pub fn streams(cx: &mut Cx) {
  quiet();
  cx.rep.rule = "history of operations on clones of a stream over a text of at least two characters, one of them of several bytes or a line end; distinct by text and operations".into();
  let mut n = 0;
  let mut counts = std::collections::BTreeMap::new();
  while cx.more(n) {
    for k in 0..400000 {
      let t = if k % 4000 == 0 { long_text(&mut cx.rng, false) } else { text(&mut cx.rng) };
      if t.len() > 65_536 { cx.rep.count("texts_over_65536_bytes", 1) }
      let base = *cx.rng.pick(&[0u32, 1, 5, 1000, 1 << 24]);
      let kind = cx.rng.below(4);
      let (what, (log, bad)) = match kind {
        0 => ("&str", history(&mut cx.rng, &t, t.as_str().stream(), 0, &mut counts)),
        1 => {
          // A slice in the middle of something.
          let o = format!("é{}\n漢", t);
          let s = &o[2..2 + t.len()];
          ("&str slice", history(&mut cx.rng, s, s.stream(), 0, &mut counts))
        }
        2 => ("&String", history(&mut cx.rng, &t, (&t).stream(), 0, &mut counts)),
        _ => {
          let fm = file_map(&t, base);
          oakrt::set_span_base(base);
          let r = match caught(|| fm.stream()) {
            Ok(s) => {
              let h = history(&mut cx.rng, &t, s, base, &mut counts);
              // The lines known to the file are those of the text, however often it is streamed.
              let again = caught(|| { let _ = fm.stream(); });
              let mut want = vec![];
              let mut at = 0;
              for l in t.split_inclusive('\n') { want.push(base + at as u32); at += l.len() }
              let got = lines_of(&fm);
              if h.1.is_none() && (again.is_err() || got != want) { (vec!["stream of the file".into()], Some(format!("lines of the file start at {:?} instead of {:?}", got, want))) } else { h }
            }
            Err(m) => (vec!["stream of the file".into()], Some(format!("panic: {}", m))),
          };
          oakrt::set_span_base(0);
          ("file", r)
        }
      };
      cx.rep.evaluations += 1;
      cx.rep.count("operations", log.len() as u64);
      if t.chars().count() > 1 && t.chars().any(|c| c.len_utf8() > 1 || c == '\n') { cx.rep.nontrivial(&format!("{}\u{1}{}", t, log.join(";"))) }
      cx.rep.sample(3, || json::obj(vec![("text", json::s(t.clone())), ("stream", json::s(what.to_string())), ("history", json::s(log.join("; ")))]));
      if let Some(m) = bad {
        let key = format!("{}:{:?}:{}", what, t, log.join(";"));
        cx.rep.violation(&key, format!("{} stream of {:?} after {}: {}", what, t, log.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join("; "), m), format!("{}\nbytes {:?}\nbase {}\n{}\n{}", key, t.as_bytes(), base, log.join("\n"), m));
        if cx.rep.total_violations > 20 { return }
      }
    }
    n += 1;
  }
  for (k, v) in counts { cx.rep.count(k, v) }
}

// ---------------------------------------------------------------------------------------------------------------
// Parse states.

/// The model of a state.
#[derive(Clone, Debug, PartialEq)]
struct M { at: usize, failed: bool, data: Option<u32>, far: usize, exp: BTreeSet<&'static str> }

enum St<S> { U(ParseState<S, ()>), V(ParseState<S, u32>) }

fn dup<S: Clone, T: Clone>(s: &ParseState<S, T>) -> ParseState<S, T> {
  ParseState { farthest_read: s.farthest_read.clone(), expected: s.expected.clone(), failed: s.failed, current: s.current.clone(), data: s.data.clone() }
}

fn look<S: Pos + Ord + Clone + HasNext>(s: &St<S>) -> (M, bool, bool, usize) {
  match s {
    St::U(s) => (M { at: s.current.pos(), failed: s.failed, data: s.data.map(|_| 0), far: s.farthest_read.pos(), exp: s.expected.iter().cloned().collect() }, s.is_failed(), s.is_successful(), s.expected.len()),
    St::V(s) => (M { at: s.current.pos(), failed: s.failed, data: s.data, far: s.farthest_read.pos(), exp: s.expected.iter().cloned().collect() }, s.is_failed(), s.is_successful(), s.expected.len()),
  }
}

fn items(s: &str) -> BTreeSet<String> { if s.is_empty() { BTreeSet::new() } else { s.trim_matches('`').split("` or `").map(|x| x.to_string()).collect() } }

/// The result of a state against the model: full, partial or failed, and its report.
fn result_fault<S: Pos + Ord + Clone + HasNext + Location + CodeSnippet, T: Into<Option<u32>>>(st: ParseState<S, T>, m: &M, t: &str, loc: &str) -> Option<String> {
  let r = caught(|| match st.into_result() {
    ParseResult::Success(d) => ("full", d.into(), None),
    ParseResult::Partial(d, e) => ("partial", d.into(), Some((e.expected_items(), format!("{:?}", e)))),
    ParseResult::Failure(e) => ("failure", None, Some((e.expected_items(), format!("{:?}", e)))),
  });
  let want = match (m.data.is_some(), m.at < t.len(), m.failed) { (true, false, _) => Some("full"), (true, true, _) => Some("partial"), (false, _, true) => Some("failure"), _ => None };
  match (r, want) {
    (Err(_), None) => None,
    (Err(e), Some(w)) => Some(format!("into_result panicked ({}) instead of giving {}", e, w)),
    (Ok((k, ..)), None) => Some(format!("into_result gave {} for a state that neither failed nor holds a value", k)),
    (Ok((k, d, e)), Some(w)) => {
      if k != w { return Some(format!("into_result gave {} instead of {}", k, w)) }
      if let (Some(d), Some(x)) = (d, m.data) { if d != x { return Some(format!("value {} instead of {}", d, x)) } }
      if let Some((i, shown)) = e {
        let want: BTreeSet<String> = m.exp.iter().map(|s| s.to_string()).collect();
        if items(&i) != want { return Some(format!("the result expects {:?} instead of {:?}", i, want)) }
        if !shown.starts_with(loc) { return Some(format!("the result is located {:?} instead of {}", shown, loc)) }
      }
      None
    }
  }
}

fn wrap(_: ()) -> U0 { U0 }
struct U0;
impl From<U0> for Option<u32> { fn from(_: U0) -> Option<u32> { Some(0) } }

fn state_history<S: Pos + Ord + Clone + HasNext + Location + CodeSnippet + Iterator<Item = char> + ConsumePrefix<&'static str>>(r: &mut Rng, t: &str, first: S, counts: &mut std::collections::BTreeMap<String, u64>, loc: &dyn Fn(usize) -> String) -> (Vec<String>, Option<String>) {
  const WORDS: &[&str] = &["a", "b", "num", "x y", "é", "[\"a-z\"]", "<character>", "end"];
  let mut st: St<S> = St::U(ParseState::new(first));
  let mut m = M { at: 0, failed: false, data: None, far: 0, exp: BTreeSet::new() };
  let mut marks: Vec<(S, usize)> = vec![];
  let mut log: Vec<String> = vec![];
  let steps = r.range(4, 45);
  for step in 0..steps {
    let mut bad: Option<String> = None;
    let op = r.below(20);
    // Histories end sooner or later with a result, and look at results in between.
    if op == 0 || step + 1 == steps {
      log.push("into_result".into());
      *counts.entry("into_result".into()).or_insert(0) += 1;
      bad = match &st {
        St::U(s) => { let d = dup(s); let x = ParseState { farthest_read: d.farthest_read, expected: d.expected, failed: d.failed, current: d.current, data: d.data.map(wrap) }; result_fault(x, &m, t, &loc(m.far)) }
        St::V(s) => { let d = dup(s); result_fault(d, &m, t, &loc(m.far)) }
      };
      if let Some(b) = bad { return (log, Some(b)) }
      continue
    }
    match op {
      // Reading.
      1 | 2 | 3 => {
        let want = t[m.at..].chars().next();
        log.push("next".into());
        let got = match &mut st { St::U(s) => caught(|| s.next()), St::V(s) => caught(|| s.next()) };
        m.at += want.map_or(0, |c| c.len_utf8());
        if got != Ok(want) { bad = Some(format!("{:?} instead of {:?}", got, want)) }
      }
      4 | 5 => {
        let p: String = if r.pct(70) { let k = r.range(0, 3); t[m.at..].chars().take(k).collect() } else { r.pick(&["a", "b\n", "é", "漢漢"]).to_string() };
        let want = t[m.at..].starts_with(&p);
        log.push(format!("consume_prefix({:?})", p));
        let p = leak(&p);
        let got = match &mut st { St::U(s) => caught(|| s.consume_prefix(p)), St::V(s) => caught(|| s.consume_prefix(p)) };
        if want { m.at += p.len() }
        if got != Ok(want) { bad = Some(format!("{:?} instead of {:?}", got, want)) }
      }
      // Failing.
      6 | 7 | 8 => {
        if m.data.is_some() { continue }
        let w = *r.pick(WORDS);
        log.push(format!("error({:?})", w));
        *counts.entry(if m.at > m.far { "error_further" } else if m.at == m.far { "error_same" } else { "error_before" }.into()).or_insert(0) += 1;
        match &mut st { St::U(s) => s.error(w), St::V(s) => s.error(w) }
        m.failed = true;
        if m.at > m.far { m.far = m.at; m.exp.clear() }
        if m.at == m.far { m.exp.insert(w); }
      }
      9 => {
        log.push("failure".into());
        let unit = r.pct(70);
        st = match (st, unit) { (St::U(s), true) => St::U(s.failure()), (St::U(s), false) => St::V(s.failure()), (St::V(s), true) => St::U(s.failure()), (St::V(s), false) => St::V(s.failure()) };
        m.failed = true;
        m.data = None;
      }
      10 => {
        let v = r.below(1000) as u32;
        let unit = r.pct(40);
        log.push(format!("success({})", if unit { "()".into() } else { v.to_string() }));
        st = match (st, unit) { (St::U(s), true) => St::U(s.success(())), (St::U(s), false) => St::V(s.success(v)), (St::V(s), true) => St::U(s.success(())), (St::V(s), false) => St::V(s.success(v)) };
        m.failed = false;
        m.data = Some(if unit { 0 } else { v });
      }
      11 | 12 => {
        log.push("mark".into());
        let got = match &st { St::U(s) => caught(|| s.mark()), St::V(s) => caught(|| s.mark()) };
        *counts.entry(if m.failed { "mark_refused" } else { "mark" }.into()).or_insert(0) += 1;
        match (got, m.failed) {
          (Ok(x), false) => { if x.pos() != m.at { bad = Some(format!("the mark is at {} instead of {}", x.pos(), m.at)) } marks.push((x, m.at)) }
          (Err(_), true) => {}
          (Ok(_), true) => bad = Some("marking a failed state was accepted".into()),
          (Err(e), false) => bad = Some(format!("marking a state that did not fail panicked: {}", e)),
        }
      }
      13 | 14 | 15 | 16 => {
        if marks.is_empty() { continue }
        let k = r.below(marks.len());
        let (mark, p) = marks[k].clone();
        let hard = op >= 15;
        let refused = m.data.is_some() || (hard && !m.failed);
        log.push(format!("{}(mark at {})", if hard { "restore_from_failure" } else { "restore" }, p));
        *counts.entry(if refused { "restore_refused" } else { "restore" }.into()).or_insert(0) += 1;
        let got = match &st {
          St::U(s) => { let d = dup(s); caught(|| if hard { d.restore_from_failure(mark) } else { d.restore(mark) }) }
          St::V(s) => { let d = dup(s); caught(|| if hard { d.restore_from_failure(mark) } else { d.restore(mark) }) }
        };
        match (got, refused) {
          (Ok(s), false) => { st = St::U(s); m.at = p; m.failed = false; m.data = None }
          (Err(_), true) => {}
          (Ok(_), true) => bad = Some(if m.data.is_some() { "restoring over data was accepted".into() } else { "restoring from failure a state that did not fail was accepted".into() }),
          (Err(e), false) => bad = Some(format!("panicked: {}", e)),
        }
      }
      17 | 18 => {
        let refused = m.failed || m.data.is_none();
        log.push("extract_data".into());
        *counts.entry(if refused { "extract_refused" } else { "extract" }.into()).or_insert(0) += 1;
        let got = match &st {
          St::U(s) => { let d = dup(s); caught(|| { let (s, ()) = d.extract_data(); (s, 0) }) }
          St::V(s) => { let d = dup(s); caught(|| d.extract_data()) }
        };
        match (got, refused) {
          (Ok((s, v)), false) => { if Some(v) != m.data { bad = Some(format!("extracted {} instead of {:?}", v, m.data)) } st = St::U(s); m.data = None }
          (Err(_), true) => {}
          (Ok(_), true) => bad = Some("extracting data from a state without any was accepted".into()),
          (Err(e), false) => bad = Some(format!("panicked: {}", e)),
        }
      }
      _ => {
        if let St::U(s) = &mut st { log.push("discard_data".into()); s.discard_data(); m.data = None }
        else if let St::V(s) = &st {
          log.push("unwrap_data".into());
          let d = dup(s);
          let got = caught(|| d.unwrap_data());
          if got.as_ref().ok().cloned() != m.data { bad = Some(format!("{:?} instead of {:?}", got, m.data)) }
        }
      }
    }
    if let Some(b) = bad { return (log, Some(b)) }
    let (seen, f, s, _) = look(&st);
    if seen != m || f != m.failed || s == m.failed { return (log, Some(format!("the state is {:?} (is_failed {}, is_successful {}) instead of {:?}", seen, f, s, m))) }
  }
  (log, None)
}

pub fn states(cx: &mut Cx) {
  quiet();
  cx.rep.rule = "history of at least 8 operations on a parse state with a recorded failure and a restored mark; distinct by text and operations".into();
  let mut n = 0;
  let mut counts: std::collections::BTreeMap<String, u64> = Default::default();
  while cx.more(n) {
    for _ in 0..400000 {
      let mut t = text(&mut cx.rng);
      if t.len() > 40 { t = t.chars().take(12).collect() }
      let strs = |p: usize| { let (l, c) = line_col(&t, p); format!("{}:{}:", l, c) };
      let chars = |p: usize| format!("@{}:", t[..p].chars().count());
      let (what, (log, bad)) = match cx.rng.below(3) {
        0 => ("StrStream", state_history(&mut cx.rng, &t, t.as_str().stream(), &mut counts, &strs)),
        1 => {
          let fm = file_map(&t, 9);
          oakrt::set_span_base(9);
          let r = match caught(|| fm.stream()) { Ok(s) => state_history(&mut cx.rng, &t, s, &mut counts, &strs), Err(m) => (vec!["stream".to_string()], Some(m)) };
          oakrt::set_span_base(0);
          ("FileMapStream", r)
        }
        _ => ("CharStream", state_history(&mut cx.rng, &t, CharStream::new(&t), &mut counts, &chars)),
      };
      cx.rep.evaluations += 1;
      cx.rep.count("operations", log.len() as u64);
      let j = log.join("; ");
      if log.len() >= 8 && j.contains("error(") && j.contains("restore") { cx.rep.nontrivial(&format!("{}\u{1}{}", t, j)) }
      cx.rep.sample(3, || json::obj(vec![("text", json::s(t.clone())), ("stream", json::s(what.to_string())), ("history", json::s(j.clone()))]));
      if let Some(m) = bad {
        cx.rep.violation(&format!("{}:{:?}:{}", what, t, j), format!("{} over {:?}, after {}: {}", what, t, log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; "), m), format!("{}\n{}", j, m));
        if cx.rep.total_violations > 20 { return }
      }
    }
    n += 1;
  }
  for (k, v) in counts { cx.rep.count(&k, v) }
}

