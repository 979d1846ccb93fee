//! deps: bd-api bd-client-stats bd-client-stats-store bd-log-matcher bd-log-primitives bd-matcher bd-proto bd-runtime bd-stats-common bd-workflows protobuf time tokio anyhow serde sha2 itertools log
//! The real workflows engine on random graphs and logs: what fires at each log, against the rules written out by hand.
#[path = "../common/lm.rs"]
mod lm;
#[path = "../common/wf.rs"]
mod wf;
#[cfg(feature = "priv")]
mod config {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-workflows/src/config.rs"));
}
#[cfg(feature = "priv")]
mod workflow {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-workflows/src/workflow.rs"));
}
use bd_client_stats::DynamicStats;
use bd_client_stats_store::Collector;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use hx::{ck, eq, Hx, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use wf::*;

fn s(x: &str) -> String { x.into() }
const LETTERS: [&str; 4] = ["a", "b", "c", "d"];
fn metric(w: usize, state: usize, t: usize) -> String { format!("w{w}.s{state}.t{t}") }
fn graph(r: &mut Rng, w: usize, loops: bool) -> Wf {
  let n = 2 + r.us(5);
  let mut states: Vec<Vec<Tr>> = vec![];
  for i in 0 .. n {
    let k = if i + 1 == n { 0 } else if i == 0 { 1 + r.us(3) } else { r.us(4) };
    states.push((0 .. k).map(|t| {
      let mut on: Vec<String> = LETTERS.iter().filter(|_| r.chance(2, 5)).map(|x| s(x)).collect();
      if on.is_empty() && r.chance(9, 10) { on.push(s(LETTERS[r.us(4)])); }
      let to = if loops && r.chance(1, 5) { 1 + r.us(n - 1) } else { (i + 1 + r.us(n - i - 1)).min(n - 1) };
      let mut acts = vec![Act::Metric(metric(w, i, t))];
      if r.chance(1, 6) { acts.push(Act::Shot); }
      Tr { to, on, count: [1, 1, 1, 2, 2, 3, 5][r.us(7)], acts, exts: vec![] }
    }).collect());
  }
  Wf {
    id: format!("w{w}"), states, parallel: r.chance(1, 2),
    max_matched: r.chance(1, 3).then(|| 1 + r.us(8) as u32),
    max_ms: r.chance(1, 4).then(|| 1 + r.us(40) as u64),
  }
}
fn engine(w: &[Wf], limit: Option<u32>) -> (WorkflowsEngine, Arc<DynamicStats>) {
  let dir = hx::scratch();
  let scope = Collector::default().scope("");
  let rt = ConfigLoader::new(&dir);
  let mut values: std::collections::HashMap<String, Value> = Default::default();
  if let Some(n) = limit {
    values.insert(s("workflows.traversals_global_count_limit"), Value { type_: Some(value::Type::UintValue(n)), ..Default::default() });
  }
  rt.update_snapshot(&RuntimeUpdate { version_nonce: s("x"), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  let (tx, _rx) = tokio::sync::mpsc::channel(64);
  let d = Arc::new(DynamicStats::new(&scope, &rt));
  let (mut e, _) = WorkflowsEngine::new(&scope, &dir, &rt, tx, d.clone());
  e.start(WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&configuration(w)), BTreeSet::new(), BTreeSet::new()));
  (e, d)
}
fn counts(d: &DynamicStats, ids: &[String]) -> BTreeMap<String, u64> {
  ids.iter().map(|i| (i.clone(), d.collector_for_test().find_counter("workflows_dyn:action", BTreeMap::from([(s("_id"), i.clone())])).map_or(0, |c| c.get()))).collect()
}
// The inner machine, without the engine around it: every action it fires, its runs and walks.
#[cfg(feature = "priv")]
mod inner {
  use super::*;
  pub struct Inner { c: Vec<config::Config>, w: Vec<workflow::Workflow>, n: u32, limit: u32 }
  impl Inner {
    pub fn new(w: &[Wf], limit: u32) -> Result<Self, String> {
      Ok(Self {
        c: w.iter().map(|x| config::Config::new(&x.proto()).map_err(|e| e.to_string())).collect::<Result<_, _>>()?,
        w: w.iter().map(|x| workflow::Workflow::new(x.id.clone())).collect(), n: 0, limit,
      })
    }
    pub fn clear(&mut self) { for w in &mut self.w { w.remove_all_runs(); } self.n = 0; }
    pub fn log(&mut self, l: &Lg, fired: &[Fired], sim: &Sim) -> Result<(), String> {
      let mut got: Vec<Act> = vec![];
      for (c, w) in self.c.iter().zip(&mut self.w) {
        let (n, limit) = (&mut self.n, self.limit);
        l.with(|r| for a in w.process_log(c, r, n, limit).triggered_actions() {
          match a {
            workflow::TriggeredAction::EmitMetric(m) => got.push(Act::Metric(m.id.clone())),
            workflow::TriggeredAction::TakeScreenshot(_) => got.push(Act::Shot),
            _ => {},
          }
        });
      }
      let mut want: Vec<Act> = fired.iter().filter_map(|f| match f { Fired::Act(a) => Some(a.clone()), Fired::Path(..) => None }).collect();
      got.sort();
      want.sort();
      eq!(got, want, "actions fired, one by one, at {l:?}");
      let walks: Vec<Vec<u32>> = self.w.iter().map(|w| w.runs().iter().map(|r| r.traversals_count()).collect()).collect();
      let hand: Vec<Vec<u32>> = sim.runs.iter().map(|w| w.iter().map(|r| r.walks.len() as u32).collect()).collect();
      eq!(walks, hand, "traversals of each run of each workflow after {l:?}");
      eq!(self.n as usize, sim.walks(), "traversals accounted for after {l:?}");
      ck!(self.n <= self.limit, "{} traversals, {} allowed", self.n, self.limit);
      for (i, w) in self.w.iter().enumerate() { ck!(sim.wfs[i].parallel || w.runs().len() <= 2, "{} runs of an exclusive workflow", w.runs().len()); }
      Ok(())
    }
  }
}
fn history(r: &mut Rng, desc: &mut String) -> Result<(), String> {
  let loops = r.chance(1, 2);
  let wfs: Vec<Wf> = (0 .. 1 + r.us(3)).map(|w| graph(r, w, loops)).collect();
  let limit = r.chance(1, 2).then(|| 1 + r.us(9) as u32);
  *desc = format!("limit {limit:?} {wfs:?}: ");
  let ids: Vec<String> = wfs.iter().enumerate().flat_map(|(w, g)| g.states.iter().enumerate().flat_map(move |(i, t)| (0 .. t.len()).map(move |k| metric(w, i, k)))).collect();
  let (mut e, d) = engine(&wfs, limit);
  let mut sim = Sim::new(wfs.clone(), limit.unwrap_or(200) as usize);
  #[cfg(feature = "priv")]
  let mut inner = inner::Inner::new(&wfs, limit.unwrap_or(200))?;
  let (mut session, mut at) = (0, 0);
  let mut before = counts(&d, &ids);
  for _ in 0 .. 5 + r.us(40) {
    if r.chance(1, 40) {
      session += 1;
      sim.clear();
      #[cfg(feature = "priv")]
      inner.clear();
    }
    at += r.range(0, 8) - if r.chance(1, 10) { 12 } else { 0 };
    let l = Lg { msg: s(if r.chance(1, 12) { "other" } else { LETTERS[r.us(4)] }), fields: vec![], session: format!("s{session}"), at_ms: at };
    desc.push_str(&format!("{}@{at}/{session} ", l.msg));
    let fired = sim.log(&l);
    let empty = BTreeSet::new();
    let shot = l.with(|r| e.process_log(r, &empty).capture_screenshot);
    eq!(shot, fired.contains(&Fired::Act(Act::Shot)), "screenshot at {l:?}");
    let now = counts(&d, &ids);
    let got: BTreeSet<String> = ids.iter().filter(|i| now[*i] > before[*i]).cloned().collect();
    let want: BTreeSet<String> = fired.iter().filter_map(|f| match f { Fired::Act(Act::Metric(m)) => Some(m.clone()), _ => None }).collect();
    eq!(got, want, "transitions that fired at {l:?}");
    for i in &ids { ck!(now[i] <= before[i] + 1, "{i} counted more than once for one log"); }
    before = now;
    #[cfg(feature = "priv")]
    inner.log(&l, &fired, &sim)?;
  }
  Ok(())
}
fn main() {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let _g = rt.enter();
  let mut h = Hx::new("up to 3 workflows of 2 to 6 states with up to 3 transitions each (overlapping conditions, counts 1 to 5, loops not to the first state), both modes, limits on matches, time and traversals; up to 45 logs over 4 messages and several sessions; distinct (graphs, limits, logs) counted");
  for i in 0 .. h.n(6000, 120_000) {
    let seed = h.seed * 7919 + i;
    let desc = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", desc.borrow()), || history(&mut Rng::new(seed), &mut desc.borrow_mut()));
  }
  h.finish()
}
