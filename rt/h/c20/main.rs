//! deps: bd-api bd-client-stats bd-client-stats-store bd-log-matcher bd-log-primitives bd-matcher bd-proto bd-runtime bd-stats-common bd-workflows protobuf time tokio anyhow serde sha2 itertools log
//! The real workflows engine: paths as they arrive at the upload channel, and which paths are asked about again.
#[path = "../common/lm.rs"]
mod lm;
#[path = "../common/wf.rs"]
mod wf;
#[cfg(feature = "priv")]
mod config {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-workflows/src/config.rs"));
}
#[cfg(feature = "priv")]
mod workflow {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-workflows/src/workflow.rs"));
}
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::Collector;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use hx::{ck, eq, Hx, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use tokio::sync::mpsc::Receiver;
use wf::*;

fn s(x: &str) -> String { x.into() }
struct Eng { e: WorkflowsEngine, rx: Receiver<DataUpload> }
fn engine(w: &[Wf]) -> Eng {
  let dir = hx::scratch();
  let scope = Collector::default().scope("");
  let rt = ConfigLoader::new(&dir);
  let (tx, rx) = tokio::sync::mpsc::channel(64);
  let (mut e, _) = WorkflowsEngine::new(&scope, &dir, &rt, tx, Arc::new(DynamicStats::new(&scope, &rt)));
  e.start(WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&configuration(w)), BTreeSet::new(), BTreeSet::new()));
  Eng { e, rx }
}
impl Eng {
  fn log(&mut self, l: &Lg) { let b = BTreeSet::new(); l.with(|r| { self.e.process_log(r, &b); }); }
  async fn next(&mut self) -> Option<DataUpload> {
    for _ in 0 .. 50 {
      if let Ok(x) = self.rx.try_recv() { return Some(x); }
      tokio::task::yield_now().await;
    }
    None
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer { Drop, Lost, Upload, UploadLost }
// Serves what one path needs; what was asked (id, path) and uploaded.
async fn serve(e: &mut Eng, a: Answer) -> Result<Option<(String, String, Option<Vec<String>>)>, String> {
  let Some(x) = e.next().await else { return Ok(None) };
  let DataUpload::SankeyPathUploadIntentRequest(q) = x else { return Err("an upload nobody agreed to".into()) };
  let (id, path) = (q.payload.sankey_diagram_id.clone(), q.payload.path_id.clone());
  let d = match a {
    Answer::Lost => { drop(q); return Ok(Some((id, path, None))); },
    Answer::Drop => IntentDecision::Drop,
    _ => IntentDecision::UploadImmediately,
  };
  let _ = q.response_tx.send(IntentResponse { uuid: q.uuid, decision: d });
  if a == Answer::Drop { return Ok(Some((id, path, None))); }
  let Some(DataUpload::SankeyPathUpload(u)) = e.next().await else { return Err("no upload".into()) };
  eq!(u.payload.id, id, "uploaded diagram");
  eq!(u.payload.path_id, path, "uploaded path id");
  let nodes = u.payload.nodes.iter().map(|n| n.extracted_value.clone()).collect();
  if a == Answer::Upload { let _ = u.response_tx.send(UploadResponse { success: true, uuid: u.uuid }); } else { drop(u); }
  Ok(Some((id, path, Some(nodes))))
}
fn lg(msg: String, fields: Vec<(String, String)>) -> Lg { Lg { msg, fields, session: s("s"), at_ms: 0 } }
// A chain of states collecting values into one or two diagrams, the last transition emitting them.
fn chain(r: &mut Rng) -> (Wf, Vec<Lg>) {
  let n = 1 + r.us(12);
  let ids: Vec<String> = (0 .. 1 + r.us(2)).map(|i| format!("d{i}")).collect();
  let mut states = vec![];
  let mut logs = vec![];
  for i in 0 .. n {
    let last = i + 1 == n;
    let mut exts = vec![];
    for k in 0 .. r.us(4) {
      let value = if r.chance(1, 2) { Val::Fixed(format!("f{i:02}{k}")) } else { Val::Field(format!("k{}", r.us(3))) };
      exts.push(Ext { sankey: r.pick(&ids).clone(), value, counts: r.chance(3, 4) });
    }
    if last { for d in &ids { exts.push(Ext { sankey: d.clone(), value: Val::Fixed(s("last")), counts: r.chance(1, 2) }); } }
    let acts = if last { ids.iter().map(|d| Act::Sankey(d.clone(), r.us(7) as u32)).collect() } else { vec![] };
    states.push(vec![Tr { to: i + 1, on: vec![format!("m{i}")], count: 1, acts, exts }]);
    logs.push(lg(format!("m{i}"), (0 .. 3).filter(|_| r.chance(3, 4)).map(|k| (format!("k{k}"), format!("v{i:02}{k}"))).collect()));
  }
  states.push(vec![]);
  (Wf { id: s("w"), states, parallel: r.chance(1, 2), max_matched: None, max_ms: None }, logs)
}
#[cfg(feature = "priv")]
fn direct(wf: &Wf, logs: &[Lg], want: &[Vec<Fired>]) -> Result<(), String> {
  let c = config::Config::new(&wf.proto()).map_err(|e| e.to_string())?;
  let mut w = workflow::Workflow::new(s("w"));
  let mut n = 0;
  for (l, want) in logs.iter().zip(want) {
    let got: Vec<(String, Vec<String>, bool)> = l.with(|r| {
      w.process_log(&c, r, &mut n, 100).triggered_actions().into_iter().filter_map(|a| match a { workflow::TriggeredAction::SankeyDiagram(p) => Some((p.path.sankey_id.clone(), p.path.nodes.clone(), p.path.is_trimmed)), _ => None }).collect()
    });
    let want: Vec<_> = want.iter().filter_map(|f| match f { Fired::Path(i, p) => Some((i.clone(), p.values(), p.trimmed)), Fired::Act(_) => None }).collect();
    eq!(got, want, "paths (diagram, values, trimmed) after {l:?}");
  }
  Ok(())
}
fn main() {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let mut h = Hx::new("workflows that are chains of up to 12 states collecting fixed or extracted values into one or two diagrams with limits 0 to 6, run through the engine, each emitted path uploaded; and histories of up to 400 emissions of up to 130 paths of two diagrams, with intents dropped, accepted, lost and uploads lost; distinct histories counted");
  for i in 0 .. h.n(1500, 40_000) {
    let seed = h.seed * 7919 + i;
    let desc = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", desc.borrow()), || {
      let mut r = Rng::new(seed);
      let (w, logs) = chain(&mut r);
      *desc.borrow_mut() = format!("{w:?} {logs:?}");
      rt.block_on(async {
        let mut e = engine(std::slice::from_ref(&w));
        let mut sim = Sim::new(vec![w.clone()], 200);
        let mut all = vec![];
        for l in &logs {
          let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
          let f = sim.log(l);
          for x in &f { if let Fired::Path(id, p) = x { want.insert(id.clone(), p.values()); } }
          all.push(f);
          e.log(l);
          let mut got = BTreeMap::new();
          while let Some((id, _, nodes)) = serve(&mut e, Answer::Upload).await? { ck!(got.insert(id.clone(), nodes.unwrap_or_default()).is_none(), "diagram {id} twice"); }
          eq!(got, want, "uploaded paths after {l:?}");
        }
        #[cfg(feature = "priv")]
        direct(&w, &logs, &all)?;
        Ok(())
      })
    });
  }
  // The memory of handled paths.
  for i in 0 .. h.n(250, 4_000) {
    let seed = h.seed * 104_729 + i;
    let desc = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", desc.borrow()), || {
      let mut r = Rng::new(seed);
      let t = |d: usize| Tr { to: 1, on: vec![format!("m{d}")], count: 1, acts: vec![Act::Sankey(format!("d{d}"), 3)], exts: vec![Ext { sankey: format!("d{d}"), value: Val::Field(s("v")), counts: true }] };
      let w = Wf { id: s("w"), states: vec![vec![t(0), t(1)], vec![]], parallel: false, max_matched: None, max_ms: None };
      let pool = [60usize, 55, 52, 45, 12][r.us(5)];
      let sequential = r.chance(1, 2);
      let certain = r.chance(1, 2);
      rt.block_on(async {
        let mut e = engine(&[w]);
        let mut memory: Vec<(usize, usize)> = vec![];
        let mut paths: HashMap<usize, String> = HashMap::new();
        let mut cursor = 0;
        for n in 0 .. 130 + r.us(270) {
          cursor += 1;
          let k = if sequential && r.chance(9, 10) { (cursor % 2, cursor / 2 % pool) } else { (r.us(2), r.us(pool)) };
          let a = if certain || r.chance(4, 5) { [Answer::Drop, Answer::Upload][r.us(2)] } else { [Answer::Lost, Answer::UploadLost][r.us(2)] };
          if n < 300 { desc.borrow_mut().push_str(&format!("{}:{} {a:?}; ", k.0, k.1)); }
          let v = format!("v{:04}", k.1);
          e.log(&lg(format!("m{}", k.0), vec![(s("v"), v.clone())]));
          let known = memory.iter().position(|x| *x == k);
          let got = serve(&mut e, a).await?;
          match (&got, known) {
            (Some(_), Some(p)) => return Err(format!("step {n}: path {k:?}, the {}th most recently handled of {}, was asked about again", memory.len() - p, memory.len())),
            (None, None) => return Err(format!("step {n}: path {k:?} was taken for handled; the memory is {memory:?}")),
            (Some((id, path, nodes)), None) => {
              eq!(*id, format!("d{}", k.0), "diagram");
              eq!(paths.entry(k.1).or_insert_with(|| path.clone()), path, "path id of {v}");
              if let Some(x) = nodes { eq!(*x, vec![v.clone()], "values"); }
            },
            (None, Some(_)) => {},
          }
          ck!(e.next().await.is_none(), "step {n}: more than one request");
          if known.is_some() || matches!(a, Answer::Drop | Answer::Upload) {
            memory.retain(|x| *x != k);
            memory.push(k);
            if memory.len() > 100 { memory.remove(0); }
          }
        }
        let d: BTreeSet<_> = paths.values().collect();
        eq!(d.len(), paths.len(), "distinct path ids");
        Ok(())
      })
    });
  }
  h.finish()
}
