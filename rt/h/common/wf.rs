// Workflow graphs: their configuration, and what they do, written out by hand.
#![allow(dead_code)]
use crate::lm;
use bd_log_primitives::{FieldsRef, LogFields, LogLevel, LogMessage, LogRef};
use bd_proto::protos::workflow::workflow::workflow as w;
use bd_proto::protos::workflow::workflow::workflow::action::{action_emit_metric as em, Action_type, ActionEmitMetric, ActionEmitSankeyDiagram, ActionFlushBuffers, ActionTakeScreenshot};
use bd_proto::protos::workflow::workflow::workflow::transition_extension::{sankey_diagram_value_extraction::Value_type, Extension_type, SankeyDiagramValueExtraction};
use bd_proto::protos::workflow::workflow::{Workflow, WorkflowsConfiguration};
use protobuf::MessageField;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Val { Fixed(String), Field(String) }
#[derive(Clone, Debug)]
pub struct Ext { pub sankey: String, pub value: Val, pub counts: bool }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act { Metric(String), Flush(String), Shot, Sankey(String, u32), Send(Send) }
// A flush of some buffers (none named: of all), and for how long and where their logs then go directly.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Send { pub id: String, pub bufs: Vec<String>, pub stream: Option<(Vec<String>, Vec<u64>)> }
// What makes it match: the message is one of these.
#[derive(Clone, Debug)]
pub struct Tr { pub to: usize, pub on: Vec<String>, pub count: u32, pub acts: Vec<Act>, pub exts: Vec<Ext> }
#[derive(Clone, Debug)]
pub struct Wf { pub id: String, pub states: Vec<Vec<Tr>>, pub parallel: bool, pub max_matched: Option<u32>, pub max_ms: Option<u64> }
#[derive(Clone, Debug)]
pub struct Lg { pub msg: String, pub fields: Vec<(String, String)>, pub session: String, pub at_ms: i64 }

fn act(a: &Act) -> w::Action {
  let t = match a {
    Act::Metric(id) => Action_type::ActionEmitMetric(ActionEmitMetric {
      id: id.clone(), metric_type: Some(em::Metric_type::Counter(em::Counter::default())), value_extractor_type: Some(em::Value_extractor_type::Fixed(1)), ..Default::default()
    }),
    Act::Flush(id) => Action_type::ActionFlushBuffers(ActionFlushBuffers { id: id.clone(), ..Default::default() }),
    Act::Send(f) => {
      use w::action::action_flush_buffers::{streaming::{termination_criterion, TerminationCriterion}, Streaming};
      Action_type::ActionFlushBuffers(ActionFlushBuffers {
        id: f.id.clone(), buffer_ids: f.bufs.clone(),
        streaming: f.stream.as_ref().map(|(dst, max)| Streaming {
          destination_streaming_buffer_ids: dst.clone(),
          termination_criteria: max.iter().map(|n| TerminationCriterion {
            type_: Some(termination_criterion::Type::LogsCount(termination_criterion::LogsCount { max_logs_count: *n, ..Default::default() })), ..Default::default()
          }).collect(),
          ..Default::default()
        }).into(),
        ..Default::default()
      })
    },
    Act::Shot => Action_type::ActionTakeScreenshot(ActionTakeScreenshot { id: "shot".into(), ..Default::default() }),
    Act::Sankey(id, limit) => Action_type::ActionEmitSankeyDiagram(ActionEmitSankeyDiagram { id: id.clone(), limit: *limit, ..Default::default() }),
  };
  w::Action { action_type: Some(t), ..Default::default() }
}
fn ext(e: &Ext) -> w::TransitionExtension {
  let v = match &e.value {
    Val::Fixed(s) => Value_type::Fixed(s.clone()),
    Val::Field(k) => Value_type::FieldExtracted(w::FieldExtracted { field_name: k.clone(), ..Default::default() }),
  };
  let x = SankeyDiagramValueExtraction { sankey_diagram_id: e.sankey.clone(), counts_toward_sankey_extraction_limit: e.counts, value_type: Some(v), ..Default::default() };
  w::TransitionExtension { extension_type: Some(Extension_type::SankeyDiagramValueExtraction(x)), ..Default::default() }
}
fn tr(t: &Tr) -> w::Transition {
  let rule = w::RuleLogMatch { log_matcher: MessageField::some(lm::or(t.on.iter().map(|m| lm::message(lm::Op::OPERATOR_EQUALS, m)).collect())), count: t.count, ..Default::default() };
  w::Transition {
    target_state_id: format!("s{}", t.to),
    rule: MessageField::some(w::Rule { rule_type: Some(w::rule::Rule_type::RuleLogMatch(rule)), ..Default::default() }),
    actions: t.acts.iter().map(act).collect(),
    extensions: t.exts.iter().map(ext).collect(),
    ..Default::default()
  }
}
impl Wf {
  pub fn proto(&self) -> Workflow {
    let e = if self.parallel { w::execution::Execution_type::ExecutionParallel(w::execution::ExecutionParallel::default()) } else { w::execution::Execution_type::ExecutionExclusive(w::execution::ExecutionExclusive::default()) };
    Workflow {
      id: self.id.clone(),
      states: self.states.iter().enumerate().map(|(i, t)| w::State { id: format!("s{i}"), transitions: t.iter().map(tr).collect(), ..Default::default() }).collect(),
      execution: MessageField::some(w::Execution { execution_type: Some(e), ..Default::default() }),
      limit_matched_logs_count: self.max_matched.map(|count| w::LimitMatchedLogsCount { count, ..Default::default() }).into(),
      limit_duration: self.max_ms.map(|duration_ms| w::LimitDuration { duration_ms, ..Default::default() }).into(),
      ..Default::default()
    }
  }
  // The number of values a diagram keeps: the last one declared for its identifier.
  pub fn keep(&self, sankey: &str) -> usize {
    self.states.iter().flatten().flat_map(|t| &t.acts).filter_map(|a| match a { Act::Sankey(i, n) if i == sankey => Some(*n as usize), _ => None }).last().unwrap_or(0)
  }
}
pub fn configuration(w: &[Wf]) -> WorkflowsConfiguration { WorkflowsConfiguration { workflows: w.iter().map(Wf::proto).collect(), ..Default::default() } }
impl Lg {
  pub fn with<R>(&self, f: impl FnOnce(&LogRef<'_>) -> R) -> R {
    let message: LogMessage = self.msg.as_str().into();
    let fields: LogFields = self.fields.iter().map(|(k, v)| lm::field(k, v)).collect();
    let none = lm::none();
    let fr = FieldsRef::new(&fields, &none);
    f(&LogRef {
      log_type: bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType(0),
      log_level: 1 as LogLevel,
      message: &message, fields: &fr, session_id: &self.session,
      occurred_at: time::OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap() + time::Duration::milliseconds(self.at_ms),
    })
  }
}
// ---- What they do.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Path { pub nodes: Vec<(String, bool)>, pub trimmed: bool }
impl Path {
  pub fn add(&mut self, v: &str, counts: bool, keep: usize) {
    self.nodes.push((v.into(), counts));
    if counts && self.nodes.iter().map(|n| usize::from(n.1)).sum::<usize>() > keep {
      let i = (0 .. self.nodes.len()).find(|&i| self.nodes[i].1).unwrap();
      self.nodes = [&self.nodes[.. i], &self.nodes[i + 1 ..]].concat();
      self.trimmed = true;
    }
  }
  pub fn values(&self) -> Vec<String> { self.nodes.iter().map(|n| n.0.clone()).collect() }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fired { Act(Act), Path(String, Path) }
#[derive(Clone, Debug)]
pub struct Walk { pub state: usize, pub seen: Vec<u32>, pub paths: BTreeMap<String, Path> }
#[derive(Clone, Debug)]
pub struct Run { pub walks: Vec<Walk>, pub matched: u32, pub since: Option<i64> }
pub struct Sim { pub wfs: Vec<Wf>, pub runs: Vec<Vec<Run>>, pub limit: usize }
fn walk(wf: &Wf, state: usize, paths: BTreeMap<String, Path>) -> Option<Walk> {
  let n = wf.states[state].len();
  (n > 0).then(|| Walk { state, seen: vec![0; n], paths })
}
// One walk sees a log: how many transitions matched it, the walks that follow (None: it stays), what fired.
pub fn step(wf: &Wf, k: &mut Walk, log: &Lg) -> (u32, Option<Vec<Walk>>, Vec<Fired>) {
  let (mut matched, mut left, mut next, mut fired) = (0, false, vec![], vec![]);
  for (i, t) in wf.states[k.state].iter().enumerate() {
    if !t.on.contains(&log.msg) { continue; }
    matched += 1;
    k.seen[i] += 1;
    if k.seen[i] != t.count { continue; }
    left = true;
    let mut paths = k.paths.clone();
    for e in &t.exts {
      let v = match &e.value { Val::Fixed(s) => Some(s.clone()), Val::Field(f) => log.fields.iter().find(|x| x.0 == *f).map(|x| x.1.clone()) };
      if let Some(v) = v { paths.entry(e.sankey.clone()).or_default().add(&v, e.counts, wf.keep(&e.sankey)); }
    }
    for a in &t.acts {
      match a {
        Act::Sankey(id, _) => if let Some(p) = paths.remove(id) { fired.push(Fired::Path(id.clone(), p)); },
        _ => fired.push(Fired::Act(a.clone())),
      }
    }
    next.extend(walk(wf, t.to, paths));
  }
  (matched, left.then_some(next), fired)
}
impl Sim {
  pub fn new(wfs: Vec<Wf>, limit: usize) -> Self { let n = wfs.len(); Self { wfs, runs: vec![vec![]; n], limit } }
  pub fn walks(&self) -> usize { self.runs.iter().flatten().map(|r| r.walks.len()).sum() }
  pub fn clear(&mut self) { for r in &mut self.runs { r.clear(); } }
  pub fn log(&mut self, log: &Lg) -> Vec<Fired> { (0 .. self.wfs.len()).flat_map(|i| self.one(i, log)).collect() }
  pub fn one(&mut self, i: usize, log: &Lg) -> Vec<Fired> {
    let wf = self.wfs[i].clone();
    let fresh = |r: &Run| r.walks.iter().all(|k| k.state == 0 && k.seen.iter().all(|&n| n == 0));
    let mut fired = vec![];
    // There is always a run waiting at the start, room permitting.
    if !self.runs[i].iter().any(fresh) {
      let r = Run { walks: walk(&wf, 0, BTreeMap::new()).into_iter().collect(), matched: 0, since: None };
      if self.walks() + r.walks.len() <= self.limit {
        if wf.parallel { self.runs[i].push(r); } else { self.runs[i].insert(0, r); }
      }
    }
    let mut progress = false;
    let mut j = self.runs[i].len();
    while j > 0 {
      j -= 1;
      let mut run = self.runs[i][j].clone();
      let before = run.walks.len();
      let (mut matched, mut stopped, mut acts) = (0, false, vec![]);
      for k in (0 .. before).rev() {
        let (m, next, f) = step(&wf, &mut run.walks[k], log);
        matched += m;
        acts.extend(f);
        run.matched += m;
        if wf.max_matched.is_some_and(|x| run.matched > x) { stopped = true; break; }
        if let (Some(max), Some(at)) = (wf.max_ms, run.since) {
          if log.at_ms - at > max as i64 { stopped = true; break; }
        }
        if m > 0 && run.since.is_none() { run.since = Some(log.at_ms); }
        if let Some(n) = next { run.walks.splice(k ..= k, n); }
      }
      if stopped { self.runs[i].remove(j); }
      else {
        fired.extend(acts);
        let others = self.walks() - before;
        if others + run.walks.len() > self.limit { self.runs[i].remove(j); }
        else if run.walks.is_empty() { progress = true; self.runs[i].remove(j); }
        else { progress |= matched > 0; self.runs[i][j] = run; }
      }
      if !wf.parallel && self.runs[i].len() > 1 && progress {
        // The waiting run got going: it replaces the one before. Otherwise the active one took the log.
        if j == 0 { self.runs[i].remove(1); } else { break; }
      }
    }
    fired
  }
}
