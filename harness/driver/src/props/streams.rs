//! P20: the same parses over different streams, in other orders, concurrently and nested.
use super::*;
use crate::exec::*;
use crate::gram::Style;
use crate::json;

/// How a grammar and a text are put together.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way { Mon, Str, Text, File0, File17, FileFar, Chr, Tag, Bare }
use Way::*;

impl Way {
  fn strm(self) -> Strm { match self { Mon => Strm::Mon, Str | Text => Strm::Str, File0 | File17 | FileFar => Strm::File, Chr => Strm::Chr, Tag => Strm::Tag, Bare => Strm::Bare } }
  /// Where spans can be taken.
  fn spans(self) -> bool { matches!(self, Str | Text | File0 | File17 | FileFar) }
  fn entry(self, e: &str) -> String {
    match self {
      Text => e.replace("run_s(job, &job.text,", "run_t(job, &job.text,"),
      File0 => e.replace("&job.text, 17)", "&job.text, 0)"),
      FileFar => e.replace("&job.text, 17)", "&job.text, 3000000000)"),
      _ => e.to_string(),
    }
  }
}

fn compare(a: &oakrt::Obs, b: &oakrt::Obs) -> Vec<String> {
  let mut v = vec![];
  if a.status != b.status { v.push(format!("ended with {} and {}", a.status, b.status)); return v }
  if a.status == "ok" && a.end != b.end { v.push(format!("consumed up to {} and {}", a.end, b.end)) }
  if a.data != b.data { v.push(format!("delivered {} and {}", a.data, b.data)) }
  if a.ty != b.ty { v.push(format!("types {} and {}", a.ty, b.ty)) }
  if a.calls != b.calls { v.push(format!("called {:?} and {:?}", a.calls, b.calls)) }
  if a.far != b.far || a.exp != b.exp { v.push(format!("furthest failure {} {:?} and {} {:?}", a.far, a.exp, b.far, b.exp)) }
  if a.class != b.class { v.push(format!("classified {} and {}", a.class, b.class)) }
  v
}

pub fn run(cx: &mut Cx) {
  cx.rep.rule = "grammar, stream, rule and input run on at least two ways of carrying the text, with backtracking, repetition, captures or a value of several parts".into();
  let mut n = 0;
  while cx.more(n) {
    let v = Cfg { pred: 6, rep: 8, opt: 6, act: 10, asc: 4, seq: 16, alt: 14, unicode: 30, ..Cfg::base() };
    let c = vec![(5, v.clone()), (3, Cfg { span: 7, range: 5, ..v.clone() }), (2, Cfg { range: 7, ..v.clone() }), (2, Cfg { hand: 6, ..v.clone() }), (1, Cfg { depth: 9, size: 50, rules: (1, 3), ..v.clone() }), (1, Cfg { rules: (6, 9), depth: 4, size: 10, refs: 16, ..v })];
    let s = Spec { inputs: 8, wild: 10, ..spec(c, if cx.rep.quick() { 56 } else { 110 }) };
    let first = pipe::build(&mut cx.rng, &s, 0);
    let mut gs: Vec<G> = vec![];
    let mut ways: Vec<(usize, Way)> = vec![];
    for (i, g) in first.iter().enumerate() {
      let spans = pipe::needs_str(g.gram());
      for (k, w) in [Mon, Str, Text, File0, File17, FileFar, Chr, Tag, Bare].iter().enumerate() {
        if spans && !w.spans() { continue }
        let mut u = exec::unit((k * 1000 + i) as u32, g.gram(), g.typing(), w.strm(), &mut Style::plain());
        u.entries = u.entries.iter().map(|e| w.entry(e)).collect();
        let cases = g.cases.iter().map(|c| C { rule: c.rule, start: c.start, text: c.text.clone(), rec: c.rec.clone(), par: c.par.clone(), obs_r: None, obs_p: None }).collect();
        ways.push((i, *w));
        gs.push(G { gid: (k * 1000 + i) as u32, world: g.world.clone(), strm: w.strm(), unit: u, cases });
      }
    }
    let per_shard = 8;
    let units: Vec<Unit> = gs.iter().map(|g| g.unit.clone()).collect();
    let (mut jobs, mut back) = (vec![], vec![]);
    for (gi, g) in gs.iter().enumerate() {
      for (ci, c) in g.cases.iter().enumerate() {
        let rule = &g.gram().rules[c.rule].name;
        for (mode, o) in [("R", &c.rec), ("P", &c.par)] {
          jobs.push(Job { gid: g.gid, rule: rule.clone(), mode, start: c.start, budget: pipe::budget(o) + 2 * c.start as u64, text: c.text.clone() });
          back.push((gi, ci, mode == "R"));
        }
      }
    }
    let plain = jobs.len();
    for g in gs.chunks(per_shard) { jobs.push(Job { gid: g[0].gid, rule: "*".into(), mode: "again", start: cx.rng.below(1 << 30), budget: 1000, text: String::new() }) }
    let b = exec::batch(&cx.env, &units, &jobs, per_shard);
    for (k, (gi, ci, r)) in back.iter().enumerate() {
      let o = &b.obs[k];
      if o.status == "uncompiled" || o.status == "skipped" { continue }
      let c = &mut gs[*gi].cases[*ci];
      if *r { c.obs_r = Some(o.clone()) } else { c.obs_p = Some(o.clone()) }
    }
    for (o, j) in b.obs[plain..].iter().zip(&jobs[plain..]) {
      match o.status.as_str() {
        "uncompiled" | "skipped" => { cx.rep.count("histories_lost", 1); continue }
        "ok" => {}
        s => { cx.rep.violation(&format!("again:{}", s), format!("repeating the parses of a shard in another order, concurrently and nested ended with {}", s), format!("{:?}", j.gid)); continue }
      }
      cx.rep.evaluations += o.terms + o.ops + o.stack;
      cx.rep.count("parses_in_another_order", o.terms);
      cx.rep.count("parses_on_a_used_buffer", o.far as u64);
      cx.rep.evaluations += o.far as u64;
      cx.rep.count("parses_concurrent", o.ops);
      cx.rep.count("parses_inside_actions", o.stack);
      if !o.stream_errors.is_empty() {
        let at = gs.iter().position(|g| g.gid == j.gid).unwrap();
        let texts: Vec<String> = gs[at..gs.len().min(at + per_shard)].iter().map(|g| g.unit.src.clone()).collect();
        cx.rep.violation(&format!("history:{}", crate::rng::hash(&o.stream_errors[0])), format!("a parse changed with its history: {}", o.stream_errors.join("\n")), texts.join("\n\n"));
      }
    }
    lost(cx, &gs, &b, Losses::Rustc);
    // Ways against one another.
    let mut at = 0;
    while at < gs.len() {
      let i = ways[at].0;
      let end = (at..gs.len()).find(|k| ways[*k].0 != i).unwrap_or(gs.len());
      let live: Vec<usize> = (at..end).filter(|k| b.compiled.get(&gs[*k].gid).map_or(false, |c| c.ok)).collect();
      for k in at..end {
        cx.rep.count(&format!("grammars_over_{:?}", ways[k].1).to_lowercase(), 1);
        if !live.contains(&k) && !live.is_empty() {
          let m = b.compiled.get(&gs[k].gid).map(|c| c.summary()).unwrap_or_default();
          cx.rep.violation(&format!("refused:{}", crate::rng::hash(&gs[k].unit.src)), format!("compiles over {:?} but not over {:?}: {}\n{}", ways[live[0]].1, ways[k].1, m, gs[k].unit.src), format!("{:#?}", b.compiled.get(&gs[k].gid).map(|c| &c.diags)));
        }
      }
      if let Some(f) = live.first() {
        for k in &live[1..] {
          for (c, d) in gs[*f].cases.iter().zip(&gs[*k].cases) {
            for (x, y, m) in [(&c.obs_r, &d.obs_r, "recognize"), (&c.obs_p, &d.obs_p, "parse")] {
              let (x, y) = match (x, y) { (Some(x), Some(y)) => (x, y), _ => continue };
              cx.rep.evaluations += 1;
              cx.rep.count("pairs_compared", 1);
              let v = compare(x, y);
              let name = &gs[*f].gram().rules[c.rule].name;
              if c.rec.backtracks > 0 || c.rec.iters > 1 || c.par.data.contains(',') { cx.rep.nontrivial(&format!("{}\u{1}{}\u{1}{}\u{1}{:?}", gs[*f].gram().text(), name, c.text, ways[*k].1)) }
              cx.rep.sample(4, || json::obj(vec![("grammar", json::s(gs[*f].gram().text())), ("rule", json::s(name.clone())), ("input", json::s(c.text.clone())), ("streams", json::s(format!("{:?} {:?}", ways[*f].1, ways[*k].1))), ("outcome", json::s(format!("{} end={} value={} far={} {:?}", x.status, x.end, x.data, x.far, x.exp)))]));
              if !v.is_empty() {
                cx.rep.violation(&format!("{}:{}:{}:{:?}", crate::rng::hash(&gs[*f].gram().text()), name, c.text, ways[*k].1), format!("{}_{} on {:?} from {}: {} over {:?} and {:?}\nin grammar:\n{}", m, name, c.text, c.start, v.join("; "), ways[*f].1, ways[*k].1, gs[*f].gram().text()), format!("{}\n{:#?}\n{:#?}", describe(&gs[*k], c, m), x, y));
              }
            }
          }
        }
      }
      at = end;
    }
    pipe::judge(&mut cx.rep, &gs, OUTCOME | DATA | TYPE | FAIL | CALLS | STREAM | CLASS, &|_, _| false);
    n += 1;
  }
}
