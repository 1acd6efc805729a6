//! P14: literals and character classes.
use super::*;
use crate::exec::*;
use crate::gram::{*, Kd::*};
use crate::json;
use crate::model::{self, World};
use std::time::Duration;

const EDGES: &[u32] = &[0, 1, 9, 10, 13, 0x1f, 0x20, 0x22, 0x27, 0x2c, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xdf, 0xe9, 0xff,
  0x100, 0x130, 0x131, 0x17f, 0x300, 0x301, 0x390, 0x3a3, 0x3c2, 0x7ff, 0x800, 0xfff, 0x1000, 0x1e9e, 0x200d, 0x2028, 0x212a, 0x3000, 0x4e00, 0xd7ff, 0xe000, 0xfb01, 0xfdd0, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0x20000, 0xe0001, 0x100000, 0x10fffe, 0x10ffff];

fn any_char(r: &mut Rng) -> char {
  loop {
    let k = match r.below(4) {
      0 => r.range(0x21, 0x7e) as u32,
      1 => *r.pick(EDGES),
      2 => (*r.pick(EDGES)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
      _ => r.below(0x110000) as u32,
    };
    if let Some(c) = char::from_u32(k) { return c }
  }
}

fn item(r: &mut Rng) -> char { loop { let c = any_char(r); if c != '-' { return c } } }

fn class(r: &mut Rng) -> Vec<Cls> {
  let mut v = vec![];
  let hyphen = r.below(8);
  if hyphen == 0 || hyphen == 1 { v.push(Cls::One('-')) }
  // Items that touch, overlap and contain each other.
  if r.pct(30) {
    let from = item(r) as u32;
    let near = |r: &mut Rng| loop { if let Some(c) = char::from_u32(from + r.below(36) as u32) { if c != '-' { break c } } else if from >= 0xd7f0 { break 'q' } };
    for _ in 0..*r.pick(&[2, 3, 4, 6, 10, 20]) {
      let a = near(r);
      if r.pct(40) { v.push(Cls::One(a)) } else { let b = near(r); v.push(Cls::Rng(a.min(b), a.max(b))) }
    }
    if hyphen == 1 || hyphen == 2 { v.push(Cls::One('-')) }
    return v
  }
  for _ in 0..*r.pick(&[1, 1, 2, 3, 5, 9, 30, 70]) {
    let a = item(r);
    v.push(match r.below(5) {
      0 | 1 => Cls::One(a),
      2 => { let b = item(r); Cls::Rng(a.min(b), a.max(b)) }
      3 => Cls::Rng(a, loop { let k = a as u32 + r.below(30) as u32; match char::from_u32(k) { Some('-') | None => {} Some(c) => break c } if r.pct(5) { break a } }),
      // Equal bounds, and bounds the wrong way round: nothing lies between them.
      _ => if r.pct(70) { Cls::Rng(a, a) } else { let b = item(r); Cls::Rng(a.max(b), a.min(b)) },
    });
  }
  if r.pct(12) { v.push(Cls::Rng('\0', '\u{10ffff}')) }
  if r.pct(10) { let k = r.below(v.len()); let d = v[k].clone(); if d != Cls::One('-') { v.push(d) } }
  if hyphen == 1 || hyphen == 2 { v.push(Cls::One('-')) }
  v
}

fn ranges(p: &dyn Fn(char) -> bool) -> Vec<(u32, u32)> {
  let mut v: Vec<(u32, u32)> = vec![];
  for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
    if p(c) { match v.last_mut() { Some(l) if l.1 + 1 == c as u32 => l.1 = c as u32, _ => v.push((c as u32, c as u32)) } }
  }
  v
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "class applied to every Unicode scalar value (one evaluation per class), literal and text sharing a first character with it, malformed class".into();
  let mut n = 0;
  while cx.more(n) {
    sweeps(cx);
    literals(cx);
    malformed(cx);
    n += 1;
  }
}

fn sweeps(cx: &mut Cx) {
  let shards = if cx.rep.quick() { 120 } else { 240 };
  let mut units = vec![];
  let mut jobs = vec![];
  let mut meant: Vec<(u32, usize, Vec<Cls>, u8)> = vec![];
  for gid in 0..shards {
    let mut st = Style::wild(cx.rng.fork());
    if cx.rng.pct(40) { st = Style::plain() }
    let mut body = String::new();
    let mut entries = vec![];
    for k in 0..2 {
      let cl = class(&mut cx.rng);
      let text = rust_str(&class_text(&cl), &mut st);
      body.push_str(&format!("  c{} = [{}]\n  n{} = ![{}] .\n", k, text, k, text));
      for (x, neg) in [("c", 0u8), ("n", 1)] {
        // The complement only every other time: it costs as much.
        if neg == 1 && k == 1 { continue }
        entries.push(format!("Entry {{ gid: {}, rule: \"{}{}\", mode: \"S\", f: |job| sweep(job, recognize_{}{}, parse_{}{}) }}", gid, x, k, x, k, x, k));
        jobs.push(Job { gid, rule: format!("{}{}", x, k), mode: "S", start: 0, budget: 0, text: String::new() });
        meant.push((gid, jobs.len() - 1, cl.clone(), neg));
      }
    }
    units.push(Unit { gid, src: format!("use oak::oak;\nuse oakrt::*;\noak! {{\n{}}}", body), entries });
  }
  let b = exec::batch(&cx.env, &units, &jobs, 3);
  let want: Vec<Vec<(u32, u32)>> = {
    let out = std::sync::Mutex::new(vec![vec![]; meant.len()]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..8 { sc.spawn(|| loop {
      let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
      if i >= meant.len() { break }
      let (_, _, cl, neg) = &meant[i];
      let r = ranges(&|c| class_matches(cl, c) != (*neg == 1));
      out.lock().unwrap()[i] = r;
    }); });
    out.into_inner().unwrap()
  };
  for ((gid, j, cl, neg), want) in meant.iter().zip(&want) {
    let u = &units[*gid as usize];
    let label = format!("{}[{:?}]", if *neg == 1 { "!" } else { "" }, class_text(cl));
    cx.rep.evaluations += 1;
    match b.compiled.get(gid) {
      Some(c) if c.ok => {}
      Some(c) => { cx.rep.violation(&format!("class:{}", label), format!("a grammar with the class {} is refused: {}", label, c.summary()), u.src.clone()); continue }
      None => { cx.rep.inconclusive = Some("no result for a class".into()); continue }
    }
    let o = &b.obs[*j];
    if o.status != "ok" { cx.rep.violation(&format!("class:{}", label), format!("{}: {}", label, o.status), u.src.clone()); continue }
    cx.rep.count("characters_recognized", o.terms);
    cx.rep.count("characters_parsed", o.ops);
    cx.rep.nontrivial(&label);
    let got: Vec<(u32, u32)> = o.data.split(',').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once('-').unwrap(); (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap()) }).collect();
    cx.rep.sample(4, || json::s(format!("{} matches {}", label, if o.data.len() > 80 { format!("{} ranges", got.len()) } else { o.data.clone() })));
    if got != *want {
      let inside = |v: &Vec<(u32, u32)>, c: u32| v.iter().any(|r| r.0 <= c && c <= r.1);
      let c = (0..=0x10ffffu32).find(|c| inside(&got, *c) != inside(want, *c)).unwrap();
      cx.rep.violation(&format!("class:{}", label), format!("{} {} {:?} (U+{:04X})", label, if inside(&got, c) { "matches" } else { "does not match" }, char::from_u32(c), c), format!("{}\nmatches {:?}\ninstead of {:?}", u.src, got, want));
    }
    for e in &o.stream_errors { cx.rep.violation(&format!("class:{}", label), format!("{}: {}", label, e), u.src.clone()) }
  }
}

/// Texts close to a literal.
fn near(r: &mut Rng, w: &str) -> Vec<String> {
  let cs: Vec<char> = w.chars().collect();
  let mut v = vec![w.to_string(), format!("{}{}", w, any_char(r)), String::new(), w.to_uppercase(), w.to_lowercase(), format!("{}{}", w, w)];
  for k in 0..cs.len() {
    let mut put = |c: Option<char>| { let mut d = cs.clone(); match c { Some(c) => d[k] = c, None => { d.remove(k); } } v.push(d.into_iter().collect()) };
    put(None);
    for d in [-1i64, 1, 32, -32, 0x100, 0x10000] { if let Some(c) = char::from_u32((cs[k] as i64 + d) as u32) { put(Some(c)) } }
    put(Some(any_char(r)));
    let mut d = cs.clone();
    d.insert(k, any_char(r));
    v.push(d.into_iter().collect());
    v.push(cs[..k].iter().collect());
  }
  // Same bytes modulo one, where this is still a text.
  for _ in 0..4 {
    let mut b = w.as_bytes().to_vec();
    if b.is_empty() { break }
    let k = r.below(b.len());
    b[k] ^= 1 << r.below(8);
    if let Ok(s) = String::from_utf8(b) { v.push(s) }
  }
  v
}

fn literals(cx: &mut Cx) {
  let grams = if cx.rep.quick() { 40 } else { 120 };
  let s = Spec { offset: 0, ..spec(vec![(1, Cfg::base())], grams) };
  let mut gs = vec![];
  for gid in 0..grams as u32 {
    let mut g = Gram::default();
    for k in 0..6 {
      let len = *cx.rng.pick(&[1, 1, 2, 3, 4, 8, 30, 100, 400]);
      let w: String = (0..len).map(|_| any_char(&mut cx.rng)).collect();
      g.rules.push(Rule { name: format!("r{}", k), body: lit(&w), lhs: false });
    }
    // Literals sharing their beginnings, and one that is a prefix of another.
    let w: String = (0..3).map(|_| any_char(&mut cx.rng)).collect();
    let p: String = w.chars().take(2).collect();
    g.rules.push(Rule { name: "r6".into(), body: ex(Alt(vec![ex(Lit(w.clone())), ex(Lit(p.clone()))])), lhs: false });
    g.rules.push(Rule { name: "r7".into(), body: ex(Seq(vec![ex(Lit(p)), ex(Lit(w))])), lhs: false });
    g.number();
    let t = match model::infer(&g) { Ok(t) => t, Err(_) => continue };
    let strm = *cx.rng.pick(&[Strm::Mon, Strm::Str, Strm::File]);
    let mut st = if cx.rng.pct(60) { Style::wild(cx.rng.fork()) } else { Style::plain() };
    let unit = exec::unit(gid, &g, &t, strm, &mut st);
    let world = World::one(g, t);
    let mut cases = vec![];
    for rule in 0..world.grams[0].rules.len() {
      let mut w = String::new();
      world.grams[0].rules[rule].body.walk(&mut |e| if let Lit(s) = &e.k { if w.is_empty() || rule == 7 { w.push_str(s) } });
      let mut texts = near(&mut cx.rng, &w);
      cx.rng.shuffle(&mut texts);
      texts.truncate(30);
      for t in texts {
        let pre = if cx.rng.pct(30) { any_char(&mut cx.rng).to_string() } else { String::new() };
        let text = format!("{}{}", pre, t);
        let start = pre.len();
        let rec = model::run(&world, 0, rule, &text, start, false, 1000).unwrap();
        let par = model::run(&world, 0, rule, &text, start, true, 1000).unwrap();
        cases.push(C { rule, start, text, rec, par, obs_r: None, obs_p: None });
      }
    }
    gs.push(G { gid, world, strm, unit, cases });
  }
  let b = pipe::execute(&cx.env, &mut gs, &s, 5);
  lost(cx, &gs, &b, Losses::All);
  cx.rep.count("literal_texts", gs.iter().map(|g| g.cases.len() as u64).sum());
  pipe::judge(&mut cx.rep, &gs, OUTCOME | STREAM, &|g, c| {
    let mut first = None;
    g.gram().rules[c.rule].body.walk(&mut |e| if let Lit(s) = &e.k { if first.is_none() { first = s.chars().next() } });
    c.text[c.start..].chars().next() == first
  });
}

fn malformed(cx: &mut Cx) {
  let mut texts: Vec<String> = ["", "---", "----", "a--", "a--b", "--a", "--a-z", "a-b-c", "a-b-c-d", "-a-b-c", "a-z-0", "+--", "a-z-b-", "ab-c-d", "-- ", "---a", "a-b--", "é-ü-a"].iter().map(|s| s.to_string()).collect();
  for _ in 0..14 {
    // A hyphen after a range, and not last.
    let (a, b, c) = (item(&mut cx.rng), item(&mut cx.rng), item(&mut cx.rng));
    texts.push(match cx.rng.below(3) { 0 => format!("{}-{}-{}", a, b, c), 1 => format!("{}--{}", a, b), _ => format!("--{}", a) });
  }
  let mut units = vec![];
  for (i, t) in texts.iter().enumerate() {
    let mut st = if cx.rng.pct(30) { Style::wild(cx.rng.fork()) } else { Style::plain() };
    let s = rust_str(t, &mut st);
    let body = match cx.rng.below(4) { 0 => format!("r = [{}]", s), 1 => format!("r = \"x\" ([{}] / \"y\")*", s), 2 => format!("q = [\"a-z\"]\n  r = q ![{}] q", s), _ => format!("r = ([{}]+):() \"z\"", s) };
    units.push(Unit { gid: i as u32, src: format!("use oak::oak;\noak! {{\n  {}\n}}", body), entries: vec![] });
  }
  // Not a string, or more than one.
  for (k, s) in ["[]", "[a]", "['a']", "['a'-'z']", "[\"a\" \"b\"]", "[\"a\" b]", "[0-9]", "[b\"a\"]", "[\"a\",]"].iter().enumerate() {
    texts.push(s.to_string());
    units.push(Unit { gid: (units.len()) as u32, src: format!("use oak::oak;\noak! {{\n  r = \"{}\" {}\n}}", k, s), entries: vec![] });
  }
  let b = exec::batch_with(&cx.env, &units, &[], 8, true, Duration::from_secs(60));
  for (u, t) in units.iter().zip(&texts) {
    cx.rep.evaluations += 1;
    cx.rep.count("malformed_classes", 1);
    cx.rep.nontrivial(&format!("malformed {}", t));
    match b.compiled.get(&u.gid) {
      Some(c) if !c.ok && !c.hang && !c.crash => {}
      Some(c) => cx.rep.violation(&format!("malformed:{}", t), format!("the malformed class {:?} is {}", t, if c.ok { "accepted".to_string() } else { format!("not refused properly: {}", c.summary()) }), u.src.clone()),
      None => cx.rep.inconclusive = Some("no result for a malformed class".into()),
    }
  }
}
