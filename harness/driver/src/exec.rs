//! Building and running shards: the real macro and runtime, through the real compiler.
use crate::gram::*;
use crate::json::{self, J};
use crate::model::{Ty, Typing};
use oakrt::{esc, Obs};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
  pub externs: Vec<(String, String)>,
  pub deps: String,
  pub work: PathBuf,
  pub threads: usize,
  pub edition: &'static str,
  pub serial: AtomicUsize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Strm { Mon, Str, File, Chr, Tag, Bare }

/// One module of a shard: a grammar with its functions.
#[derive(Clone)]
pub struct Unit {
  pub gid: u32,
  pub src: String,
  /// Lines of the table of entry points: `entries_of`.
  pub entries: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Diag { pub level: String, pub msg: String, pub code: String, pub line: usize, pub col: usize, pub end: (usize, usize), pub notes: Vec<String>, pub file: bool }

#[derive(Clone, Debug, Default)]
pub struct Compiled { pub ok: bool, pub hang: bool, pub crash: bool, pub diags: Vec<Diag> }

impl Compiled {
  pub fn errors(&self) -> Vec<&Diag> { self.diags.iter().filter(|d| d.level.starts_with("error")).collect() }
  pub fn warnings(&self) -> Vec<&Diag> { self.diags.iter().filter(|d| d.level == "warning").collect() }
  /// Refused by rustc in code the macro let through.
  pub fn by_rustc(&self) -> bool { self.errors().iter().any(|d| !d.code.is_empty()) }
  pub fn summary(&self) -> String {
    if self.hang { return "the compiler did not end".into() }
    let e = self.errors();
    if e.is_empty() { return if self.crash { "the compiler crashed".into() } else { "no error".into() } }
    e.iter().take(3).map(|d| format!("{}{}: {}", d.level, if d.code.is_empty() { String::new() } else { format!("[{}]", d.code) }, d.msg.replace('\n', " "))).collect::<Vec<_>>().join("; ")
  }
}

#[derive(Clone)]
pub struct Job { pub gid: u32, pub rule: String, pub mode: &'static str, pub start: usize, pub budget: u64, pub text: String }

pub struct Batch { pub compiled: HashMap<u32, Compiled>, pub obs: Vec<Obs> }

pub fn env(verif: &Path, pid: &str) -> Env {
  let o = Command::new("cargo").args(["build", "--offline", "--quiet", "--message-format=json", "-p", "oakrt"])
    .current_dir(verif.join("harness")).stderr(Stdio::null()).output().expect("cargo");
  let mut externs = vec![];
  let mut deps = String::new();
  for l in String::from_utf8_lossy(&o.stdout).lines() {
    let j = match json::parse(l) { Some(j) => j, None => continue };
    if j.get("reason").str() != "compiler-artifact" { continue }
    let name = j.get("target").get("name").str().replace('-', "_");
    for f in j.get("filenames").arr() {
      let f = f.str();
      if (f.ends_with(".rlib") && ["oakrt", "oak_runtime"].contains(&name.as_str())) || (f.ends_with(".so") && name == "oak") {
        if name == "oakrt" { deps = Path::new(f).parent().unwrap().join("deps").to_string_lossy().into_owned() }
        externs.push((name.clone(), f.to_string()));
      }
    }
  }
  if externs.len() != 3 { eprintln!("cannot locate the build products of oakrt: {:?}", externs); std::process::exit(2) }
  let work = verif.join("work").join(format!("{}-{}", pid, std::process::id()));
  std::fs::create_dir_all(&work).expect("work directory");
  Env { externs, deps, work, threads: 8, edition: "2021", serial: AtomicUsize::new(0) }
}

// ---------------------------------------------------------------------------------------------------------------
// Source text.

fn arg_ty(t: &Ty) -> String {
  t.real().replace("Range", "Range<impl Pos>")
}

/// The functions called by the actions: those of the macro, those outside.
pub fn functions(g: &Gram, t: &Typing) -> (Vec<String>, Vec<String>) {
  let (mut inn, mut out) = (vec![], vec![]);
  for (child, a) in g.actions() {
    let comps = t.of(child).comps();
    let params = comps.iter().enumerate().map(|(i, t)| format!("a{}: {}", i, arg_ty(t))).collect::<Vec<_>>().join(", ");
    let args = (0..comps.len()).map(|i| format!("a{}.sh()", i)).collect::<Vec<_>>().join(", ");
    match &a.kind {
      AKind::In(k) => inn.push(format!("pub fn {}({}) -> N<{}> {{ act(\"{}\", vec![{}]) }}", a.name, params, k, a.name, args)),
      AKind::Out(k) => out.push(format!("pub fn {}({}) -> N<{}> {{ act(\"{}\", vec![{}]) }}", a.name, params, k, a.name, args)),
      AKind::OutTup(k) => out.push(format!("pub fn {}({}) -> (N<{}>, char) {{ (act(\"{}\", vec![{}]), 'z') }}", a.name, params, k, a.name, args)),
      AKind::InBox(k) => inn.push(format!("pub fn {}({}) -> Box<N<{}>> {{ Box::new(act(\"{}\", vec![{}])) }}", a.name, params, k, a.name, args)),
      AKind::OutBox(k) => out.push(format!("pub fn {}({}) -> Box<N<{}>> {{ Box::new(act(\"{}\", vec![{}])) }}", a.name, params, k, a.name, args)),
      AKind::InChr => inn.push(format!("pub fn {}({}) -> char {{ let _: N<0> = act(\"{}\", vec![{}]); 'w' }}", a.name, params, a.name, args)),
      AKind::OutChr => out.push(format!("pub fn {}({}) -> char {{ let _: N<0> = act(\"{}\", vec![{}]); 'w' }}", a.name, params, a.name, args)),
      AKind::Ctor(_) => {}
    }
  }
  (inn, out)
}

pub fn stream_line(s: Strm) -> &'static str {
  match s {
    Strm::Mon => "type Stream<'a> = MonStream<'a>;",
    Strm::Str => "",
    Strm::File => "type Stream<'a> = FileMapStream<'a>;",
    Strm::Chr => "type Stream = CharStream;",
    Strm::Bare => "type Stream<'a> = Bare<'a>;",
    Strm::Tag => "type Stream<'a, D> where D: Clone = TagStream<'a, D>;",
  }
}

pub fn call(s: Strm, f: &str) -> String {
  match s {
    Strm::Mon => format!("|job| {{ let m = mon(job); run_m(job, &m, {}) }}", f),
    Strm::Str => format!("|job| run_s(job, &job.text, {})", f),
    Strm::File => format!("|job| {{ let m = file_map(&job.text, 17); run_f(job, &m, {}) }}", f),
    Strm::Chr => format!("|job| run_c(job, {})", f),
    Strm::Bare => format!("|job| run_b(job, || BareText(job).into_state(), {}, |s| s.into_result())", f),
    Strm::Tag => format!("|job| run_g(job, &job.text, {})", f),
  }
}

pub fn entries_of(gid: u32, g: &Gram, s: Strm, module: &str) -> Vec<String> {
  let mut v = vec![];
  for r in &g.rules {
    v.push(format!("Entry {{ gid: {}, rule: \"{}\", mode: \"R\", f: {} }}", gid, r.name, call(s, &format!("{}recognize_{}", module, r.name.trim_start_matches("r#")))));
    v.push(format!("Entry {{ gid: {}, rule: \"{}\", mode: \"P\", f: {} }}", gid, r.name, call(s, &format!("{}parse_{}", module, r.name.trim_start_matches("r#")))));
  }
  v
}

/// Body of the macro: stream, functions and rules in the given style.
pub fn macro_body(g: &Gram, inn: &[String], s: Strm, st: &mut Style) -> String {
  let mut lines: Vec<String> = g.rules.iter().map(|r| g.render_rule(r, st)).collect();
  for f in inn {
    let at = match &mut st.rng { Some(r) => r.below(lines.len() + 1), None => lines.len() };
    lines.insert(at, f.clone());
  }
  let sl = stream_line(s);
  if !sl.is_empty() {
    let at = match &mut st.rng { Some(r) => r.below(lines.len() + 1), None => 0 };
    lines.insert(at, sl.to_string());
  }
  lines.join("\n")
}

pub fn unit(gid: u32, g: &Gram, t: &Typing, s: Strm, st: &mut Style) -> Unit {
  let (inn, out) = functions(g, t);
  let src = format!("use oak::oak;\nuse oakrt::*;\n{}\noak! {{\n{}\n}}", out.join("\n"), macro_body(g, &inn, s, st));
  Unit { gid, src, entries: entries_of(gid, g, s, "") }
}

pub fn shard_source(units: &[&Unit], main: bool) -> (String, Vec<(usize, usize)>) {
  let mut src = String::from("#![allow(warnings)] extern crate oak; extern crate oak_runtime; extern crate oakrt; extern crate self as oakroot;\n");
  let mut lines = 2;
  let mut ranges = vec![];
  for u in units {
    let mut m = format!("pub mod g{} {{\n{}\n", u.gid, u.src);
    m.push_str("pub fn table() -> Vec<::oakrt::Entry> { use ::oakrt::*; vec![\n");
    for e in &u.entries { m.push_str(e); m.push_str(",\n") }
    m.push_str("] }\n}\n");
    let k = m.matches('\n').count();
    ranges.push((lines, lines + k - 1));
    lines += k;
    src.push_str(&m);
  }
  src.push_str("fn main() {\n  let mut v = vec![];\n");
  if main { for u in units { src.push_str(&format!("  v.extend(g{}::table());\n", u.gid)) } }
  src.push_str("  oakrt::shard_main(v);\n}\n");
  (src, ranges)
}

// ---------------------------------------------------------------------------------------------------------------
// Compiling.

/// Runs a command with a time limit; `None` when it did not end.
pub fn timed(cmd: &mut Command, out: &Path, limit: Duration) -> Option<std::process::ExitStatus> {
  let f = std::fs::File::create(out).expect("output file");
  let mut c = cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(f).spawn().expect("spawn");
  let t0 = Instant::now();
  loop {
    if let Ok(Some(s)) = c.try_wait() { return Some(s) }
    if t0.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); return None }
    std::thread::sleep(Duration::from_millis(4));
  }
}

fn locate(sp: &J) -> Option<(usize, usize, usize, usize)> {
  if sp.get("file_name").str().ends_with("shard.rs") {
    return Some((sp.get("line_start").num() as usize, sp.get("column_start").num() as usize, sp.get("line_end").num() as usize, sp.get("column_end").num() as usize))
  }
  let e = sp.get("expansion");
  if *e != J::Null { locate(e.get("span")) } else { None }
}

pub fn parse_diags(text: &str) -> Vec<Diag> {
  let mut v = vec![];
  for l in text.lines() {
    if !l.starts_with('{') { continue }
    let j = match json::parse(l) { Some(j) => j, None => continue };
    let level = j.get("level").str().to_string();
    if level == "failure-note" { continue }
    let mut d = Diag { level, msg: j.get("message").str().to_string(), code: j.get("code").get("code").str().to_string(), line: 0, col: 0, end: (0, 0),
      notes: j.get("children").arr().iter().map(|c| c.get("message").str().to_string()).collect(), file: false };
    let spans = j.get("spans").arr();
    for sp in spans.iter().filter(|s| s.get("is_primary").is_true()).chain(spans.iter()) {
      if let Some((a, b, c, e)) = locate(sp) { d.line = a; d.col = b; d.end = (c, e); d.file = true; break }
    }
    v.push(d);
  }
  v
}

pub struct Rustc { pub ok: bool, pub hang: bool, pub diags: Vec<Diag>, pub raw: String, pub secs: f64, pub killed: bool }

pub fn rustc(env: &Env, dir: &Path, src: &str, meta: bool, limit: Duration) -> Rustc {
  std::fs::create_dir_all(dir).expect("shard directory");
  let file = dir.join("shard.rs");
  std::fs::write(&file, src).expect("shard source");
  let err = dir.join("rustc.err");
  let mut c = Command::new("rustc");
  c.current_dir(dir).args(["--edition", env.edition, "--crate-name", "shard", "--error-format=json", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on",
    "-L"]).arg(format!("dependency={}", env.deps));
  for (n, f) in &env.externs { c.arg("--extern").arg(format!("{}={}", n, f)); }
  if meta { c.args(["--emit=metadata", "-o", "shard.rmeta"]); } else { c.args(["-o", "shard", "-C", "strip=none"]); }
  c.arg("shard.rs");
  let t0 = Instant::now();
  let st = timed(&mut c, &err, limit);
  let raw = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
  let killed = st.map_or(false, |s| s.code().is_none() || s.code() == Some(101));
  Rustc { ok: st.map_or(false, |s| s.success()), hang: st.is_none(), diags: parse_diags(&raw), raw, secs: t0.elapsed().as_secs_f64(), killed }
}

/// Compiles the units, leaving out those that do not compile. Returns the units that are in the executable.
fn compile_shard(env: &Env, dir: &Path, units: &[&Unit], meta: bool, limit: Duration, res: &Mutex<HashMap<u32, Compiled>>) -> Vec<u32> {
  let mut live: Vec<&Unit> = units.to_vec();
  while !live.is_empty() {
    let (src, ranges) = shard_source(&live, !meta);
    let r = rustc(env, dir, &src, meta, limit);
    let unit_at = |line: usize| ranges.iter().position(|(a, b)| *a <= line && line <= *b);
    let mut bad = vec![false; live.len()];
    let mut lost = false;
    {
      let mut m = res.lock().unwrap();
      let mut mine: Vec<Vec<Diag>> = vec![vec![]; live.len()];
      for d in r.diags.iter() {
        let err = d.level.starts_with("error");
        match if d.file { unit_at(d.line) } else { None } {
          Some(u) => { if err { bad[u] = true } let mut d = d.clone(); d.line -= ranges[u].0; d.end.0 -= ranges[u].0.min(d.end.0); mine[u].push(d) }
          None => if err && !d.msg.starts_with("aborting due to") { lost = true },
        }
      }
      for (u, ds) in mine.into_iter().enumerate() {
        let ok = r.ok || !bad[u];
        m.insert(live[u].gid, Compiled { ok: ok && r.ok, hang: false, crash: false, diags: ds });
      }
    }
    if r.ok { return live.iter().map(|u| u.gid).collect() }
    if bad.iter().any(|b| *b) {
      let mut i = 0;
      live.retain(|_| { i += 1; !bad[i - 1] });
      continue
    }
    // Nothing to blame: look at each unit alone.
    let _ = lost;
    if live.len() == 1 {
      let mut m = res.lock().unwrap();
      let c = m.get_mut(&live[0].gid).unwrap();
      c.ok = false; c.hang = r.hang; c.crash = !r.hang;
      if !r.hang {
        let tail: String = r.raw.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
        c.diags.push(Diag { level: "error".into(), msg: format!("compiler stopped: {}", tail), code: String::new(), line: 0, col: 0, end: (0, 0), notes: vec![], file: false });
      }
      return vec![]
    }
    let mut good = vec![];
    for u in &live {
      let ok = compile_shard(env, &dir.join("one"), &[*u], true, limit.min(Duration::from_secs(20)), res);
      if !ok.is_empty() { good.push(*u) }
    }
    if good.len() == live.len() { return vec![] }
    live = good;
  }
  vec![]
}

// ---------------------------------------------------------------------------------------------------------------
// Running.

fn run_shard(dir: &Path, jobs: &[(usize, &Job)], limit: Duration) -> Vec<(usize, Obs)> {
  let jf = dir.join("jobs");
  let mut text = String::new();
  for (_, j) in jobs { text.push_str(&format!("{}\t{}\t{}\t{}\t{}\t{}\n", j.gid, j.rule, j.mode, j.start, j.budget, esc(&j.text))) }
  std::fs::write(&jf, text).expect("jobs");
  let of = dir.join("obs");
  let _ = std::fs::remove_file(&of);
  let mut res: Vec<Obs> = vec![];
  let mut hangs = 0;
  while res.len() < jobs.len() {
    let skip = res.len();
    let _ = std::fs::remove_file(&of);
    let mut c = Command::new("./shard").current_dir(dir).args(["jobs", "obs", &skip.to_string()])
      .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("shard");
    let mut last = (0u64, Instant::now());
    let mut hang = false;
    loop {
      if let Ok(Some(_)) = c.try_wait() { break }
      let len = std::fs::metadata(&of).map(|m| m.len()).unwrap_or(0);
      if len != last.0 { last = (len, Instant::now()) }
      if last.1.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); hang = true; break }
      std::thread::sleep(Duration::from_millis(3));
    }
    let text = std::fs::read_to_string(&of).unwrap_or_default();
    for l in text.split_inclusive('\n') {
      if !l.ends_with('\n') { break }
      res.push(Obs::decode(l.trim_end_matches('\n')).unwrap_or(Obs { status: "unreadable".into(), ..Obs::default() }));
    }
    if res.len() < jobs.len() {
      if hang { hangs += 1 }
      res.push(Obs { status: if hang { "hang".into() } else { "abort".into() }, ..Obs::default() });
      if hangs >= 3 { while res.len() < jobs.len() { res.push(Obs { status: "skipped".into(), ..Obs::default() }) } }
    }
  }
  jobs.iter().map(|(i, _)| *i).zip(res).collect()
}

/// Compiles all units and runs all jobs.
pub fn batch(env: &Env, units: &[Unit], jobs: &[Job], per_shard: usize) -> Batch {
  batch_with(env, units, jobs, per_shard, false, Duration::from_secs(90))
}

pub fn batch_with(env: &Env, units: &[Unit], jobs: &[Job], per_shard: usize, meta: bool, limit: Duration) -> Batch {
  let res: Mutex<HashMap<u32, Compiled>> = Mutex::new(HashMap::new());
  let obs: Mutex<Vec<Obs>> = Mutex::new(vec![Obs { status: "uncompiled".into(), ..Obs::default() }; jobs.len()]);
  let chunks: Vec<&[Unit]> = units.chunks(per_shard.max(1)).collect();
  let next = AtomicUsize::new(0);
  let mut by_gid: HashMap<u32, Vec<usize>> = HashMap::new();
  for (i, j) in jobs.iter().enumerate() { by_gid.entry(j.gid).or_default().push(i) }
  std::thread::scope(|sc| {
    for _ in 0..env.threads {
      sc.spawn(|| loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        if k >= chunks.len() { break }
        let dir = env.work.join(format!("s{}", env.serial.fetch_add(1, Ordering::SeqCst)));
        let us: Vec<&Unit> = chunks[k].iter().collect();
        let live = compile_shard(env, &dir, &us, meta, limit, &res);
        if !meta && !live.is_empty() {
          let mine: Vec<(usize, &Job)> = live.iter().flat_map(|g| by_gid.get(g).map(|v| v.as_slice()).unwrap_or(&[])).map(|i| (*i, &jobs[*i])).collect();
          let r = run_shard(&dir, &mine, Duration::from_secs(10));
          let mut o = obs.lock().unwrap();
          for (i, x) in r { o[i] = x }
        }
        let _ = std::fs::remove_dir_all(&dir);
      });
    }
  });
  Batch { compiled: res.into_inner().unwrap(), obs: obs.into_inner().unwrap() }
}
