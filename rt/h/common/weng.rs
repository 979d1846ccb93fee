// The whole workflows engine over a scratch directory, a server that decides and buffers that get flushed, and what it
// should do, written out by hand: workflows (wf.rs), flush actions, redirected logs, what survives a restart.
use crate::lm;
use crate::wf::*;
use bd_api::upload::{IntentDecision, IntentResponse, LogUploadIntentRequest, Tracked};
use bd_api::DataUpload;
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::Collector;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use hx::{ck, eq, Rng};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path as FsPath, PathBuf};
use std::sync::Arc;
use tokio::sync::mpsc::Receiver;
use tokio::time::Instant;

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}
pub fn quiet() { UnexpectedErrorHandler::set_reporter(Arc::new(Quiet)); let _ = lm::none; }
fn s(x: &str) -> String { x.into() }
fn s_(x: &str) -> String { x.into() }
type Ids = BTreeSet<String>;
fn cows(x: &Ids) -> BTreeSet<Cow<'static, str>> { x.iter().map(|i| Cow::Owned(i.clone())).collect() }
fn ids<'a>(x: &BTreeSet<Cow<'a, str>>) -> Ids { x.iter().map(|i| i.to_string()).collect() }
const LETTERS: [&str; 4] = ["a", "b", "c", "d"];
const TRIG: [&str; 5] = ["t0", "t1", "t2", "t", "t10"];
const CONT: [&str; 3] = ["c0", "c1", "c2"];
const FLUSH: [&str; 4] = ["f1", "f0", "f1a", "f"];

#[derive(Clone, Copy)]
pub struct Profile { pub sends: u64, pub restarts: u64, pub steps: usize }

#[derive(Clone, Debug, PartialEq)]
struct Pend { id: String, bufs: Ids, session: String, stream: Option<(Ids, Option<u64>)> }
#[derive(Clone, Debug, PartialEq)]
struct Strm { id: String, session: String, src: Ids, dst: Ids, max: Option<u64>, n: u64 }
#[derive(Clone, Debug)]
struct Saved { session: String, runs: BTreeMap<String, Vec<Run>>, pend: BTreeMap<String, Pend>, strm: Vec<Strm> }
fn same(a: &Saved, b: &Saved) -> bool { format!("{:?}", (&a.runs, &a.pend, &a.strm)) == format!("{:?}", (&b.runs, &b.pend, &b.strm)) }

// What the server and the host app configured.
#[derive(Clone, Debug)]
struct Conf { wfs: Vec<Wf>, trig: Ids, cont: Ids }
impl Conf {
  fn short(&self) -> String {
    let w: Vec<String> = self.wfs.iter().map(|w| format!("{}{}{:?}{:?} {}", w.id, if w.parallel { "||" } else { "" }, w.max_matched, w.max_ms, w.states.iter().map(|s| s.iter().map(|t| format!("{}x{}->{}{}", t.on.concat(), t.count, t.to, t.acts.iter().map(|a| match a { Act::Send(f) => format!("!{}", f.id), Act::Metric(m) => format!(" {m}"), _ => s_("*") }).collect::<String>())).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" | "))).collect();
    format!("{w:?} {:?} {:?}", self.trig, self.cont)
  }
  fn build(&self) -> WorkflowsEngineConfig { WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&configuration(&self.wfs)), cows(&self.trig), cows(&self.cont)) }
}
fn some(r: &mut Rng, of: &[&str], num: u64, den: u64) -> Ids { of.iter().filter(|_| r.chance(num, den)).map(|x| s(x)).collect() }
fn graph(r: &mut Rng, id: &str, version: usize, sends: &[Send], p: Profile) -> Wf {
  let n = 2 + r.us(4);
  let mut states: Vec<Vec<Tr>> = vec![];
  for i in 0 .. n {
    let k = if i + 1 == n { 0 } else if i == 0 { 1 + r.us(3) } else { r.us(4) };
    states.push((0 .. k).map(|t| {
      let mut on: Vec<String> = LETTERS.iter().filter(|_| r.chance(2, 5)).map(|x| s(x)).collect();
      if on.is_empty() { on.push(s(LETTERS[r.us(4)])); }
      let to = (i + 1 + r.us(n - i - 1)).min(n - 1);
      let mut acts = vec![Act::Metric(format!("{id}.v{version}.s{i}.t{t}"))];
      if r.chance(1, 8) { acts.push(Act::Shot); }
      if r.chance(p.sends, 8) { acts.push(Act::Send(r.pick(sends).clone())); }
      Tr { to, on, count: [1, 1, 1, 2, 2, 3, 5][r.us(7)], acts, exts: vec![] }
    }).collect());
  }
  Wf { id: s(id), states, parallel: r.chance(1, 2), max_matched: r.chance(1, 4).then(|| 1 + r.us(8) as u32), max_ms: r.chance(1, 4).then(|| 1 + r.us(40) as u64) }
}
fn at_start(r: &Run) -> bool { r.walks.iter().all(|k| k.state == 0 && k.seen.iter().all(|&n| n == 0)) }
// A run at the start is never saved.
fn fits(wf: &Wf, runs: &[Run]) -> bool { !runs.iter().any(at_start) && (wf.parallel || runs.len() <= 1) && runs.iter().flat_map(|r| &r.walks).all(|k| k.state < wf.states.len() && wf.states[k.state].len() == k.seen.len()) }

pub struct World {
  dir: PathBuf, sends: Vec<Send>, conf: Conf, versions: usize, gone: Vec<Wf>,
  // On disk, and whether that is known for sure.
  disk: Option<Saved>, unsure: bool,
  // The process.
  e: Option<WorkflowsEngine>, d: Option<Arc<DynamicStats>>, up: Option<Receiver<DataUpload>>, fl: Option<Receiver<BuffersToFlush>>,
  sim: Sim, session: String, pend: BTreeMap<String, Pend>, strm: Vec<Strm>,
  queue: VecDeque<Pend>, asked: Option<(Pend, Tracked<LogUploadIntentRequest, IntentResponse>)>, refused: Ids, outs: VecDeque<(bool, Pend)>,
  flushes: HashMap<String, Option<tokio::sync::oneshot::Sender<()>>>,
  must: bool, last: Option<Instant>, last_maybe: Option<Instant>,
  pub log: std::rc::Rc<std::cell::RefCell<String>>,
  used: Ids,
}
async fn yields() { for _ in 0 .. 40 { tokio::task::yield_now().await; } }
impl World {
  pub fn new(r: &mut Rng, dir: &FsPath, p: Profile) -> Self {
    let sends = (0 .. 4).map(|i| Send {
      id: s(FLUSH[i]), bufs: if r.chance(1, 3) { vec![] } else { some(r, &TRIG, 1, 2).into_iter().collect() },
      stream: r.chance(2, 3).then(|| (if r.chance(1, 3) { vec![] } else { some(r, &CONT, 1, 2).into_iter().collect() }, (0 .. r.us(3)).map(|_| 1 + r.us(6) as u64).collect())),
    }).collect::<Vec<_>>();
    let wfs = (0 .. 1 + r.us(4)).map(|i| graph(r, &format!("w{i}"), 0, &sends, p)).collect();
    let conf = Conf { wfs, trig: some(r, &TRIG, 3, 4), cont: some(r, &CONT, 2, 3) };
    Self {
      dir: dir.into(), sends, conf, versions: 0, gone: vec![], disk: None, unsure: false, e: None, d: None, up: None, fl: None, sim: Sim::new(vec![], 0), session: s(""), pend: BTreeMap::new(), strm: vec![],
      queue: VecDeque::new(), asked: None, refused: Ids::new(), outs: VecDeque::new(), flushes: HashMap::new(), must: false, last: None, last_maybe: None, log: Default::default(), used: Ids::new(),
    }
  }
  fn note(&mut self, x: &str) { let mut l = self.log.borrow_mut(); l.push_str(x); l.push(' '); }
  fn live(&self) -> Saved {
    let fresh = |r: &Run| r.walks.iter().all(|k| k.state == 0 && k.seen.iter().all(|&n| n == 0));
    let runs = self.sim.wfs.iter().zip(&self.sim.runs).map(|(w, r)| (w.id.clone(), r.iter().filter(|r| !fresh(r)).cloned().collect::<Vec<_>>())).filter(|x| !x.1.is_empty()).collect();
    Saved { session: self.session.clone(), runs, pend: self.pend.clone(), strm: self.strm.clone() }
  }
  // Buffers that are gone take no part.
  fn standardize(&mut self) {
    let c = &self.conf;
    for p in self.pend.values_mut() { p.bufs = p.bufs.intersection(&c.trig).cloned().collect(); }
    self.pend.retain(|_, p| !p.bufs.is_empty());
    for p in &mut self.strm { p.src = p.src.intersection(&c.trig).cloned().collect(); p.dst = p.dst.intersection(&c.cont).cloned().collect(); }
    self.strm.retain(|p| !p.src.is_empty() && !p.dst.is_empty());
  }
  fn change(&mut self, r: &mut Rng, p: Profile) {
    if r.chance(2, 3) {
      let mut w = vec![];
      for x in std::mem::take(&mut self.conf.wfs) {
        match r.us(5) {
          0 => self.gone.push(x),
          1 => { self.gone.push(x.clone()); self.versions += 1; w.push(graph(r, &x.id, self.versions, &self.sends, p)); },
          _ => w.push(x),
        }
      }
      while w.is_empty() || w.len() < 5 && r.chance(1, 4) {
        // One that was there before, or a new one.
        if !self.gone.is_empty() && r.chance(1, 2) {
          let i = r.us(self.gone.len());
          let g = self.gone.swap_remove(i);
          if w.iter().all(|x: &Wf| x.id != g.id) { let at = r.us(w.len() + 1); w.insert(at, g); continue; }
        }
        let Some(id) = (0 .. 6).map(|i| format!("w{i}")).find(|i| w.iter().all(|x| x.id != *i)) else { break };
        self.versions += 1;
        let g = graph(r, &id, self.versions, &self.sends, p);
        let at = r.us(w.len() + 1);
        w.insert(at, g);
      }
      self.conf.wfs = w;
    }
    if r.chance(1, 2) { self.conf.trig = some(r, &TRIG, 3, 4); self.conf.cont = some(r, &CONT, 2, 3); }
  }
  pub fn start(&mut self, limit: Option<u32>) {
    let scope = Collector::default().scope("");
    let rt = ConfigLoader::new(&self.dir);
    let mut values: HashMap<String, Value> = Default::default();
    if let Some(n) = limit { values.insert(s("workflows.traversals_global_count_limit"), Value { type_: Some(value::Type::UintValue(n)), ..Default::default() }); }
    rt.update_snapshot(&RuntimeUpdate { version_nonce: s("x"), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
    let (tx, up) = tokio::sync::mpsc::channel(64);
    let d = Arc::new(DynamicStats::new(&scope, &rt));
    let (mut e, fl) = WorkflowsEngine::new(&scope, &self.dir, &rt, tx, d.clone());
    e.start(self.conf.build());
    (self.e, self.d, self.up, self.fl) = (Some(e), Some(d), Some(up), Some(fl));
    // By hand.
    let saved = self.disk.clone();
    self.sim = Sim::new(vec![], limit.unwrap_or(200) as usize);
    (self.session, self.pend, self.strm) = match &saved { Some(x) => (x.session.clone(), x.pend.clone(), x.strm.clone()), None => (s(""), BTreeMap::new(), vec![]) };
    self.standardize();
    for w in self.conf.wfs.clone() {
      let runs = saved.as_ref().and_then(|x| x.runs.get(&w.id)).filter(|x| fits(&w, x)).cloned().unwrap_or_default();
      self.add(w, runs);
    }
    self.queue = self.pend.values().cloned().collect();
    self.asked = None;
    self.refused.clear();
    self.outs.clear();
    self.flushes.clear();
    self.must = false;
    self.last = None;
    self.last_maybe = None;
    self.used.clear();
    // What is kept may be less than what is on disk, without any need to write that.
    let l = self.live();
    if saved.is_some_and(|x| !same(&x, &l)) { self.unsure = true; }
  }
  fn add(&mut self, w: Wf, mut runs: Vec<Run>) {
    let n = |r: &[Run]| r.iter().map(|r| r.walks.len()).sum::<usize>();
    while n(&runs) + self.sim.walks() > self.sim.limit && !runs.is_empty() { runs.pop(); }
    self.sim.wfs.push(w);
    self.sim.runs.push(runs);
  }
  pub fn update(&mut self, r: &mut Rng, p: Profile) {
    self.change(r, p);
    let conf = self.conf.short(); self.note(&format!("\n[update {conf}]"));
    self.e.as_mut().unwrap().update(self.conf.build());
    for i in (0 .. self.sim.wfs.len()).rev() {
      let w = &self.sim.wfs[i];
      if !self.conf.wfs.iter().any(|x| format!("{x:?}") == format!("{w:?}")) {
        let before = self.live();
        self.sim.wfs.remove(i);
        self.sim.runs.remove(i);
        if !same(&before, &self.live()) { self.must = true; }
      }
    }
    for w in self.conf.wfs.clone() { if !self.sim.wfs.iter().any(|x| x.id == w.id) { self.add(w, vec![]); } }
    self.standardize();
  }
  pub fn one_log(&mut self, r: &mut Rng, l: &Lg) -> Result<(), String> {
    let dest = { let mut d = some(r, &TRIG, 1, 3); d.extend(some(r, &CONT, 1, 4)); if r.chance(1, 8) { d.insert(s("gone")); } d };
    self.note(&format!("{}@{}/{}>{dest:?}", l.msg, l.at_ms, l.session));
    let d = self.d.clone().unwrap();
    let mids: Vec<String> = self.sim.wfs.iter().flat_map(|w| w.states.iter().flatten()).flat_map(|t| t.acts.iter()).filter_map(|a| match a { Act::Metric(m) => Some(m.clone()), _ => None }).collect();
    let count = |i: &String| d.collector_for_test().find_counter("workflows_dyn:action", BTreeMap::from([(s("_id"), i.clone())])).map_or(0, |c| c.get());
    let before: Vec<u64> = mids.iter().map(count).collect();
    let (shot, got_dest, got_trig, got_bufs) = {
      let dc = cows(&dest);
      let e = self.e.as_mut().unwrap();
      l.with(|x| {
        let y = e.process_log(x, &dc);
        (y.capture_screenshot, ids(&y.log_destination_buffer_ids), y.triggered_flush_buffers_action_ids.iter().map(|x| s(x)).collect::<Ids>(), ids(&y.triggered_flushes_buffer_ids))
      })
    };
    // Workflows.
    let was = self.live();
    if self.session != l.session { if !self.session.is_empty() { self.sim.clear(); } self.session = l.session.clone(); }
    let fired = self.sim.log(l);
    let got: BTreeSet<&String> = mids.iter().zip(&before).filter(|(i, b)| count(i) > **b).map(|x| x.0).collect();
    let want: BTreeSet<&String> = fired.iter().filter_map(|f| match f { Fired::Act(Act::Metric(m)) => Some(m), _ => None }).collect();
    eq!(got, want, "transitions that fired at {}", l.msg);
    eq!(shot, fired.contains(&Fired::Act(Act::Shot)), "screenshot");
    // Logs of buffers being streamed.
    let mut left = vec![];
    for p in std::mem::take(&mut self.strm) {
      let over = p.max.is_some_and(|m| p.n >= m) || p.session != l.session;
      let flushed = !matches!(self.flushes.get(&p.id), Some(Some(_)));
      if !(over && flushed) { left.push(p); }
    }
    let (trig, cont) = (self.conf.trig.clone(), self.conf.cont.clone());
    let mut kept: Ids = dest.iter().filter(|i| trig.contains(*i) || cont.contains(*i)).cloned().collect();
    let mut to = Ids::new();
    for p in &mut left {
      let hit: Ids = p.src.intersection(&dest).cloned().collect();
      if hit.is_empty() { continue; }
      p.n += 1;
      kept.retain(|i| !hit.contains(i));
      to.extend(p.dst.iter().cloned());
    }
    self.strm = left;
    to.extend(kept);
    let known = |x: &Ids| -> Ids { x.iter().filter(|i| trig.contains(*i) || cont.contains(*i)).cloned().collect() };
    eq!(known(&got_dest), known(&to), "buffers the log goes to (streaming {:?})", self.strm);
    ck!(got_dest.is_subset(&to), "the log goes to {got_dest:?}, only {to:?} asked for");
    // Flushes asked for by this log.
    let want: BTreeMap<String, Send> = fired.iter().filter_map(|f| match f { Fired::Act(Act::Send(x)) => Some((x.id.clone(), x.clone())), _ => None }).collect();
    eq!(got_trig, want.keys().cloned().collect::<Ids>(), "flush actions that fired");
    let mut bufs = Ids::new();
    for f in want.values() {
      let b: Ids = if f.bufs.is_empty() { trig.clone() } else { f.bufs.iter().filter(|i| trig.contains(*i)).cloned().collect() };
      if b.is_empty() { continue; }
      bufs.extend(b.iter().cloned());
      if self.pend.contains_key(&f.id) || self.strm.iter().any(|p| p.id == f.id) { continue; }
      let stream = f.stream.as_ref().and_then(|(dst, max)| {
        let d: Ids = if dst.is_empty() { cont.iter().take(1).cloned().collect() } else { dst.iter().filter(|i| cont.contains(*i)).cloned().collect() };
        (!d.is_empty()).then(|| (d, max.iter().copied().min()))
      });
      let p = Pend { id: f.id.clone(), bufs: b, session: l.session.clone(), stream };
      self.pend.insert(f.id.clone(), p.clone());
      self.queue.push_back(p);
    }
    eq!(got_bufs, bufs, "buffers flushed because of this log");
    if !same(&was, &self.live()) || was.session != self.session && !was.runs.is_empty() { self.must = true; }
    Ok(())
  }
  // What went to the server.
  async fn server(&mut self) -> Result<(), String> {
    yields().await;
    loop {
      let m = self.up.as_mut().unwrap().try_recv().ok();
      while self.asked.is_none() && self.queue.front().is_some_and(|p| self.refused.contains(&p.id)) { let p = self.queue.pop_front().unwrap(); self.outs.push_back((false, p)); }
      if self.asked.is_some() { ck!(m.is_none(), "asked again while undecided: {m:?}"); return Ok(()); }
      let Some(p) = self.queue.pop_front() else { ck!(m.is_none(), "the server is asked {m:?}, nothing was triggered"); return Ok(()) };
      let Some(DataUpload::LogsUploadIntentRequest(t)) = m else { return Err(format!("the server is asked {m:?}, should be asked about {p:?}")) };
      self.about(&p, &t)?;
      ck!(self.used.insert(t.uuid.clone()), "the identifier of an earlier request");
      self.asked = Some((p, t));
      yields().await;
    }
  }
  fn about(&self, p: &Pend, t: &Tracked<LogUploadIntentRequest, IntentResponse>) -> Result<(), String> {
    let q = &t.payload;
    eq!(&q.intent_uuid, &t.uuid, "identifier tracked and sent");
    let Some(bd_api::upload::Intent_type::WorkflowActionUpload(a)) = &q.intent_type else { return Err(format!("intent {q:?}")) };
    eq!(&a.workflow_action_ids, &vec![p.id.clone()], "action asked about");
    ck!(p.bufs.contains(&q.buffer_id), "buffer asked about: {}", q.buffer_id);
    Ok(())
  }
  async fn answer(&mut self, r: &mut Rng) -> Result<(), String> {
    let Some((p, t)) = self.asked.take() else { return Ok(()) };
    let what = r.us(6);
    self.note(&format!("[{} {}]", p.id, ["approved", "approved", "approved", "refused", "lost", "lost"][what]));
    match what {
      0 | 1 | 2 => { let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision: IntentDecision::UploadImmediately }); self.outs.push_back((true, p)); },
      3 => { let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision: IntentDecision::Drop }); self.refused.insert(p.id.clone()); self.outs.push_back((false, p)); },
      _ => {
        // The stream ends: asked again, as the same request.
        let (uuid, q) = (t.uuid.clone(), t.payload.clone());
        drop(t);
        yields().await;
        match self.up.as_mut().unwrap().try_recv().ok() {
          Some(DataUpload::LogsUploadIntentRequest(t)) => { eq!(&t.uuid, &uuid, "identifier of a repeated request"); eq!(&t.payload, &q, "a repeated request"); self.asked = Some((p, t)); },
          m => return Err(format!("a request lost with its stream is followed by {m:?}")),
        }
      },
    }
    self.server().await
  }
  // The engine's own loop hears of decisions.
  pub async fn hear(&mut self) -> Result<(), String> {
    let e = self.e.as_mut().unwrap();
    tokio::select! { biased; () = e.run() => {}, () = yields() => {} }
    let mut got = VecDeque::new();
    while let Ok(b) = self.fl.as_mut().unwrap().try_recv() { got.push_back(b); }
    while let Some((yes, p)) = self.outs.pop_front() {
      self.note(&format!("[{} {}]", p.id, if yes { "go" } else { "no" }));
      self.pend.remove(&p.id);
      self.must = true;
      if !yes { continue; }
      if !matches!(self.flushes.get(&p.id), Some(Some(_))) {
        // Buffers that are gone may or may not be named.
        let known = |x: &Ids| -> Ids { x.intersection(&self.conf.trig).cloned().collect() };
        match got.front() {
          Some(b) if ids(&b.buffer_ids).is_subset(&p.bufs) && known(&ids(&b.buffer_ids)) == known(&p.bufs) => { let b = got.pop_front().unwrap(); self.flushes.insert(p.id.clone(), Some(b.response_tx)); },
          b => ck!(known(&p.bufs).is_empty(), "flushed {:?}, approved {p:?}", b.map(|b| &b.buffer_ids)),
        }
      }
      if let Some((dst, max)) = p.stream {
        if !dst.is_disjoint(&self.conf.cont) { self.strm.push(Strm { id: p.id, session: p.session, src: p.bufs, dst, max, n: 0 }); }
      }
    }
    ck!(got.is_empty(), "flushed without approval: {:?}", got.iter().map(|b| &b.buffer_ids).collect::<Vec<_>>());
    Ok(())
  }
  fn flushed(&mut self, r: &mut Rng) {
    let mut open: Vec<String> = self.flushes.iter().filter(|x| x.1.is_some()).map(|x| x.0.clone()).collect();
    open.sort();
    if open.is_empty() { return; }
    let i = r.pick(&open).clone();
    self.note(&format!("[flushed {i}]"));
    let tx = self.flushes.insert(i, None).unwrap().unwrap();
    if r.chance(4, 5) { let _ = tx.send(()); }
  }
  pub async fn save(&mut self, force: bool) {
    let now = Instant::now();
    let far = |x: Option<Instant>| x.is_none_or_(|x| now.duration_since(x) >= std::time::Duration::from_secs(1));
    if !force && self.must && !(far(self.last_maybe)) && far(self.last) { return; }
    self.note(if force { "[save]" } else { "[save?]" });
    self.e.as_mut().unwrap().maybe_persist(force).await;
    if !self.must { self.last_maybe = Some(now); let l = self.live(); if self.disk.as_ref().is_some_and(|d| !same(d, &l) || d.session != l.session && !d.runs.is_empty()) { self.unsure = true; } return; }
    if force || far(self.last) { self.disk = Some(self.live()); self.unsure = false; self.must = false; self.last = Some(now); self.last_maybe = Some(now); }
  }
  // A process ends, files are damaged, another starts. False: nothing is known any more.
  async fn restart(&mut self, r: &mut Rng, p: Profile) -> bool {
    if r.chance(1, 2) { self.save(true).await; }
    drop(self.e.take());
    (self.d, self.up, self.fl) = (None, None, None);
    self.asked = None;
    self.flushes.clear();
    yields().await;
    if self.unsure { return false; }
    let mut wild = false;
    let f: Option<PathBuf> = std::fs::read_dir(&self.dir).unwrap().filter_map(|x| x.ok()).map(|x| x.path()).find(|x| x.is_file() && x.extension().is_some_and(|x| x == "bin"));
    if let (Some(f), true) = (f, r.chance(1, 5)) {
      let mut b = std::fs::read(&f).unwrap();
      let what = r.us(5);
      self.note(&format!("[damage {what}]"));
      match what {
        0 => { let _ = std::fs::remove_file(&f); self.disk = None; },
        1 => if !b.is_empty() { b.truncate(r.us(b.len())); std::fs::write(&f, &b).unwrap(); self.disk = None; },
        2 => if b.len() >= 8 { b[7] = [0x80, 0xff, 0x40, 0x7f][r.us(4)]; std::fs::write(&f, &b).unwrap(); self.disk = None; },
        3 => { std::fs::remove_file(&f).unwrap(); std::fs::write(&f, r.bytes(40)).unwrap(); wild = true; },
        _ => if !b.is_empty() { for _ in 0 .. 1 + r.us(3) { let i = r.us(b.len()); b[i] ^= 1 << r.us(8); } std::fs::write(&f, &b).unwrap(); wild = true; },
      }
    }
    if r.chance(1, 4) { self.change(r, p); }
    let limit = r.chance(1, 3).then(|| 1 + r.us(9) as u32);
    let conf = self.conf.short(); self.note(&format!("\n[start {limit:?} {conf}]"));
    self.start(limit);
    if wild {
      // Anything goes but not being able to go on.
      let e = self.e.as_mut().unwrap();
      let none = BTreeSet::new();
      for i in 0 .. 12 { Lg { msg: s(LETTERS[r.us(4)]), fields: vec![], session: self.session.clone(), at_ms: i }.with(|x| { e.process_log(x, &none); }); }
      e.maybe_persist(true).await;
    }
    !wild && !self.unsure
  }
}
trait NoneOr<T> { fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool; }
impl<T> NoneOr<T> for Option<T> { fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool { match self { None => true, Some(x) => f(x) } } }

pub async fn history(r: &mut Rng, w: &mut World, p: Profile) -> Result<(), String> {
  let limit = r.chance(1, 3).then(|| 1 + r.us(9) as u32);
  w.note(&format!("sends {:?}\n[start {limit:?} {}]", w.sends, w.conf.short()));
  w.start(limit);
  let (mut session, mut at) = (0, 0);
  for _ in 0 .. 10 + r.us(p.steps) {
    match r.us(22) {
      0 if r.chance(p.restarts, 4) => { if !w.restart(r, p).await { return Ok(()) } if r.chance(1, 4) { session = r.us(session + 1); } },
      1 => w.update(r, p),
      2 => { w.note("[hear]"); w.hear().await?; },
      3 => w.flushed(r),
      4 | 5 | 6 => { w.server().await?; w.answer(r).await?; if r.chance(2, 3) { w.hear().await?; } },
      7 => w.save(r.chance(1, 2)).await,
      21 if r.chance(p.restarts, 8) => {
        // Saves too close to one another, then the process ends.
        for _ in 0 .. 3 {
          w.save(r.chance(1, 3)).await;
          if r.chance(1, 2) { at += 1; let l = Lg { msg: s(LETTERS[r.us(4)]), fields: vec![], session: format!("s{session}"), at_ms: at }; w.one_log(r, &l)?; w.server().await?; }
          if r.chance(1, 6) { session = r.us(session + 2); at += 1; let l = Lg { msg: s("other"), fields: vec![], session: format!("s{session}"), at_ms: at }; w.one_log(r, &l)?; w.server().await?; }
        }
        if r.chance(2, 3) { w.save(true).await; }
        if r.chance(1, 2) { if !w.restart(r, p).await { return Ok(()) } if r.chance(1, 3) { session = r.us(session + 1); } }
      },
      20 if r.chance(p.restarts, 8) => {
        // What is gone when a process ends is back when the next one starts, or the other way round.
        w.save(true).await;
        let (trig, cont) = (w.conf.trig.clone(), w.conf.cont.clone());
        let back = r.chance(1, 2);
        if back {
          w.update(r, p);
          w.server().await?;
          w.save(true).await;
          for g in std::mem::take(&mut w.gone) { if w.conf.wfs.iter().all(|x| x.id != g.id) { w.conf.wfs.push(g) } else { w.gone.push(g) } }
        } else if r.chance(1, 2) { w.conf.trig = Ids::new(); } else { w.conf.cont = Ids::new(); }
        if !w.restart(r, p).await { return Ok(()) }
        if !back {
          (w.conf.trig, w.conf.cont) = (trig, cont);
          w.server().await?;
          if r.chance(1, 2) { w.hear().await?; }
          w.update(r, p);
        }
      },
      8 => tokio::time::advance(std::time::Duration::from_millis(*r.pick(&[1, 400, 999, 1000, 2500]))).await,
      9 if r.chance(1, 2) => { session += 1; if r.chance(1, 3) { session = 0; } },
      10 if r.chance(1, 4) => {
        // Left alone for a while, the engine saves by itself.
        w.server().await?;
        w.hear().await?;
        if w.must {
          w.note("[wait]");
          let e = w.e.as_mut().unwrap();
          let at = Instant::now() + std::time::Duration::from_secs(5);
          tokio::select! { () = e.run() => {}, () = tokio::time::sleep(std::time::Duration::from_millis(7300)) => {} }
          w.disk = Some(w.live()); w.unsure = false; w.must = false; w.last = Some(at); w.last_maybe = Some(at);
        }
      },
      _ => {
        at += r.range(0, 8) - if r.chance(1, 10) { 12 } else { 0 };
        let l = Lg { msg: s(if r.chance(1, 12) { "other" } else { LETTERS[r.us(4)] }), fields: vec![], session: format!("s{session}"), at_ms: at };
        w.one_log(r, &l)?;
      },
    }
    w.server().await?;
    if w.outs.len() > 8 { w.hear().await?; }
  }
  Ok(())
}
pub fn run_all(h: &mut hx::Hx, n: u64, p: Profile) {
  quiet();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let base = hx::scratch();
  for i in 0 .. n {
    let seed = h.seed * 7919 + i;
    let desc = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
    let dir = base.join(format!("d{i}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    h.case(true, || format!("seed {seed} {}", desc.borrow()), || {
      let mut r = Rng::new(seed);
      let mut w = World::new(&mut r, &dir, p);
      w.log = desc.clone();
      rt.block_on(async { let x = history(&mut r, &mut w, p).await; drop(w.e.take()); x })
    });
    let _ = std::fs::remove_dir_all(&dir);
  }
}

// State files written by hand: every list of up to three runs, those that can have been saved and those that cannot.
fn bytes_of(session: &str, id: &str, runs: &[Run]) -> Vec<u8> {
  let mut b = vec![];
  let n = |b: &mut Vec<u8>, x: u64| b.extend(x.to_le_bytes());
  let t = |b: &mut Vec<u8>, x: &str| { b.extend((x.len() as u64).to_le_bytes()); b.extend(x.as_bytes()); };
  t(&mut b, session);
  n(&mut b, 1);
  t(&mut b, id);
  n(&mut b, runs.len() as u64);
  for r in runs {
    n(&mut b, r.walks.len() as u64);
    for w in &r.walks { n(&mut b, w.state as u64); n(&mut b, w.seen.len() as u64); for x in &w.seen { b.extend(x.to_le_bytes()); } b.push(0); }
    b.extend((r.matched).to_le_bytes());
    match r.since { Some(ms) => { b.push(1); n(&mut b, 1_700_000_000 + ms as u64 / 1000); b.extend((ms as u32 % 1000 * 1_000_000).to_le_bytes()); }, None => b.push(0) }
  }
  n(&mut b, 0);
  n(&mut b, 0);
  b
}
fn state_file(dir: &FsPath) -> Option<PathBuf> { std::fs::read_dir(dir).ok()?.filter_map(|x| x.ok()).map(|x| x.path()).find(|x| x.is_file() && x.extension().is_some_and(|x| x == "bin")) }
pub fn run_crafted(h: &mut hx::Hx) {
  quiet();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let dir = hx::scratch().join("crafted");
  let p = Profile { sends: 0, restarts: 4, steps: 20 };
  let tr = |to: usize, on: &str, count: u32, m: &str| Tr { to, on: vec![s(on)], count, acts: vec![Act::Metric(s(m))], exts: vec![] };
  let wf = |parallel: bool| Wf { id: s("w0"), states: vec![vec![tr(1, LETTERS[0], 1, "m0")], vec![tr(2, LETTERS[1], 2, "m1")], vec![tr(3, LETTERS[2], 1, "m2")], vec![]], parallel, max_matched: None, max_ms: None };
  let run = |state: usize, seen: &[u32], matched: u32| Run { walks: vec![Walk { state, seen: seen.to_vec(), paths: Default::default() }], matched, since: (matched > 0).then_some(0) };
  let kinds = [run(0, &[0], 0), run(1, &[0], 1), run(1, &[1], 2), run(2, &[0], 3), run(7, &[0], 1), run(1, &[0, 0], 1)];
  let mut lists: Vec<Vec<usize>> = vec![vec![]];
  let mut i = 0;
  while i < lists.len() { if lists[i].len() < 3 { for k in 0 .. kinds.len() { let mut x = lists[i].clone(); x.push(k); lists.push(x); } } i += 1; }
  let world = |parallel: bool, r: &mut Rng| {
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut w = World::new(r, &dir, p);
    w.conf = Conf { wfs: vec![wf(parallel)], trig: Ids::new(), cont: Ids::new() };
    w
  };
  // The file as it is written today; should it come to look different there is nothing to write by hand.
  let mut name: Option<std::ffi::OsString> = None;
  for parallel in [false, true] {
    let mut r = Rng::new(1);
    let mut w = world(parallel, &mut r);
    let known = rt.block_on(async {
      w.start(None);
      let l = Lg { msg: s(LETTERS[0]), fields: vec![], session: s("s0"), at_ms: 0 };
      w.e.as_mut().unwrap().maybe_persist(true).await;
      { let e = w.e.as_mut().unwrap(); let none = BTreeSet::new(); l.with(|x| { e.process_log(x, &none); }); }
      w.e.as_mut().unwrap().maybe_persist(true).await;
      drop(w.e.take());
      state_file(&dir).filter(|f| std::fs::read(f).is_ok_and(|b| b == bytes_of("s0", "w0", &[kinds[1].clone()])))
    });
    match known { Some(f) => name = f.file_name().map(|x| x.to_owned()), None => return }
  }
  let Some(name) = name else { return };
  for parallel in [false, true] {
    for (at, list, limit) in lists.iter().enumerate().flat_map(|(i, l)| (0 .. if l.iter().all(|k| (1 ..= 3).contains(k)) { 4 } else { 1 }).map(move |n| (i, l, (n > 0).then_some(n as u32)))) {
      let runs: Vec<Run> = list.iter().map(|k| kinds[*k].clone()).collect();
      let desc = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
      h.case(!runs.is_empty(), || format!("state file of a workflow (parallel {parallel}: {0} -> {1} x2 -> {2} ->) with the runs {runs:?}, limit {limit:?}; {3}", LETTERS[0], LETTERS[1], LETTERS[2], desc.borrow()), || {
        let mut r = Rng::new(at as u64 + 1);
        let mut w = world(parallel, &mut r);
        w.log = desc.clone();
        std::fs::write(dir.join(&name), bytes_of("s0", "w0", &runs)).unwrap();
        w.disk = Some(Saved { session: s("s0"), runs: BTreeMap::from([(s("w0"), runs.clone())]), pend: BTreeMap::new(), strm: vec![] });
        // Runs at the start in a place where they could be: nothing is asked but to go on.
        let inits = runs.iter().filter(|x| at_start(x)).count();
        let lenient = inits == 1 && fits(&wf(parallel), &runs.iter().filter(|x| !at_start(x)).cloned().collect::<Vec<_>>()) && (parallel || at_start(&runs[0]));
        rt.block_on(async {
          w.start(limit);
          let mut x = Ok(());
          for i in 0 .. 14 {
            let l = Lg { msg: s(LETTERS[r.us(3)]), fields: vec![], session: s("s0"), at_ms: 1 + i };
            if lenient { let e = w.e.as_mut().unwrap(); let none = BTreeSet::new(); l.with(|x| { e.process_log(x, &none); }); } else { x = w.one_log(&mut r, &l); }
            if x.is_err() { break; }
            if i == 7 { if lenient { w.e.as_mut().unwrap().maybe_persist(true).await } else { w.save(true).await } }
          }
          drop(w.e.take());
          x
        })
      });
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
}
