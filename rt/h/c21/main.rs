//! deps: bd-api bd-client-common bd-client-stats bd-client-stats-store bd-completion bd-proto bd-runtime bd-shutdown bd-stats-common bd-time sketches-rust protobuf time tokio anyhow log async-trait
//! The real metric store and flusher: what was recorded against what the snapshots, the files and
//! the uploads carry. Oracle: running totals kept by hand.
use bd_api::upload::UploadResponse;
use bd_api::DataUpload;
use bd_client_stats::{DynamicStats, FlushTrigger};
use bd_client_stats_store::{BoundedCollector, BoundedScope, Collector, Counter, Error, Histogram, MetricData, Scope};
use bd_proto::protos::client::api::stats_upload_request::snapshot::Snapshot_type;
use bd_proto::protos::client::api::{RuntimeUpdate, StatsUploadRequest};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use hx::{ck, eq, Hx, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

// The flusher's own way of taking a snapshot, without the files.
#[cfg(feature = "priv")]
mod file_manager {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-client-stats/src/file_manager.rs"));
}
#[cfg(feature = "priv")]
mod stats {
  #![allow(dead_code)]
  include!(concat!(env!("VX_REPO"), "/bd-client-stats/src/stats.rs"));
  pub fn snap(c: &BoundedCollector) -> Vec<(Id, MetricData)> {
    let mut s = SnapshotHelper::new(None);
    Flusher::snap_collector_to_snapshot(c, &mut s);
    s.metrics.into_iter().collect()
  }
}
#[cfg(feature = "priv")]
type FlushTriggerCompletionSender = Option<bd_completion::Sender<()>>;
#[cfg(feature = "priv")]
struct Dyn { dynamic_collector: BoundedCollector }
#[cfg(feature = "priv")]
struct Stats { collector: Collector, dynamic_stats: Arc<Dyn> }

type Labels = BTreeMap<String, String>;
type Key = (String, Labels);
#[derive(Clone, Debug, PartialEq)]
enum Val { C(u64), H(Vec<f64>) }
fn sorted(v: &[f64]) -> Vec<u64> { let mut v: Vec<u64> = v.iter().map(|x| x.to_bits()).collect(); v.sort_unstable(); v }
fn same(a: &Val, b: &Val) -> bool {
  match (a, b) { (Val::C(x), Val::C(y)) => x == y, (Val::H(x), Val::H(y)) => sorted(x) == sorted(y), _ => false }
}
fn join(a: &mut Val, b: &Val) -> Result<(), String> {
  match (a, b) { (Val::C(x), Val::C(y)) => *x = x.wrapping_add(*y), (Val::H(x), Val::H(y)) => x.extend(y), (a, b) => return Err(format!("type changed: {a:?} {b:?}")) }
  Ok(())
}
const SMALL: usize = 5;
// The content of an encoded metric. Small samples come as they are, bigger ones as a sketch.
fn read(d: &Data) -> Result<Val, String> {
  Ok(match d {
    Data::Counter(c) => Val::C(c.value + u64::from(c.value_deprecated)),
    Data::InlineHistogramValues(v) => { ck!(v.values.len() <= SMALL, "{} values not in a sketch", v.values.len()); Val::H(v.values.clone()) },
    Data::DdsketchHistogram(h) => {
      let mut s = bd_client_stats_store::make_sketch();
      s.decode_and_merge_with(&h.serialized).map_err(|e| e.to_string())?;
      Val::H(s.values().to_vec())
    },
    _ => return Err("unknown encoding".into()),
  })
}
fn name(r: &mut Rng) -> String { ["a", "b", "c", "d:e", ""][r.us(5)].into() }
fn labels(r: &mut Rng) -> Labels { (0 .. r.us(3)).map(|_| (["k", "l"][r.us(2)].to_string(), ["", "x", "y"][r.us(3)].to_string())).collect() }
fn amount(r: &mut Rng) -> u64 { [0, 1, 1, 2, 7, 100, u32::MAX as u64, 1 << 40][r.us(8)] }
fn sample(r: &mut Rng) -> f64 { [0.0, 0.5, 1.0, 1.0, 3.25, 1e9, 0.001][r.us(7)] + r.us(3) as f64 }

// One collector with random scopes, handles and snapshots against a table of what each holds.
struct Store {
  c: BoundedCollector,
  limit: Option<tokio::sync::watch::Sender<u32>>,
  scopes: Vec<(BoundedScope, String)>,
  // name -> content since the last snapshot, number of live handles
  t: BTreeMap<Key, (Val, usize)>,
  ch: Vec<(Counter, Key, bool)>,
  hh: Vec<(Histogram, Key, bool)>,
}
impl Store {
  fn new(r: &mut Rng) -> Self {
    let limit = r.chance(2, 3).then(|| tokio::sync::watch::channel(r.below(6) as u32));
    let c = BoundedCollector::new(limit.as_ref().map(|x| x.1.clone()));
    let mut scopes = vec![(c.scope(""), String::new()), (c.scope("p"), "p".to_string())];
    for _ in 0 .. 2 {
      let (s, n) = scopes[r.us(scopes.len())].clone();
      let m = ["q", "a"][r.us(2)];
      scopes.push((s.scope(m), if n.is_empty() { m.into() } else { format!("{n}:{m}") }));
    }
    Self { c, limit: limit.map(|x| x.0), scopes, t: BTreeMap::new(), ch: vec![], hh: vec![] }
  }
  fn step(&mut self, r: &mut Rng, log: &mut Vec<String>) -> Result<(), String> {
    match r.us(14) {
      0 ..= 4 => {
        let (sc, p) = self.scopes[r.us(self.scopes.len())].clone();
        let (n, l, hist) = (name(r), if r.chance(1, 3) { labels(r) } else { Labels::new() }, r.chance(1, 3));
        let key: Key = (if p.is_empty() { n.clone() } else { format!("{p}:{n}") }, l.clone());
        log.push(format!("get {key:?} {hist}"));
        let full = self.limit.as_ref().is_some_and(|x| self.t.len() >= *x.borrow() as usize);
        let want = match self.t.get(&key) {
          None if full => Some("Overflow"),
          None => None,
          Some((Val::C(_), _)) if hist => Some("ChangedType"),
          Some((Val::H(_), _)) if !hist => Some("ChangedType"),
          Some(_) => None,
        };
        let fail = |e: &Error| match e { Error::Overflow => "Overflow", Error::ChangedType => "ChangedType" };
        if hist {
          match if l.is_empty() && r.chance(1, 2) { sc.histogram(&n) } else { sc.histogram_with_labels(&n, l) } {
            Ok(h) => { eq!(want, None, "registration of {key:?} must fail"); self.t.entry(key.clone()).or_insert((Val::H(vec![]), 0)).1 += 1; self.hh.push((h, key, true)); },
            Err(e) => eq!(want, Some(fail(&e)), "registration of {key:?}"),
          }
        } else {
          match if l.is_empty() && r.chance(1, 2) { sc.counter(&n) } else { sc.counter_with_labels(&n, l) } {
            Ok(c) => { eq!(want, None, "registration of {key:?} must fail"); self.t.entry(key.clone()).or_insert((Val::C(0), 0)).1 += 1; self.ch.push((c, key, true)); },
            Err(e) => eq!(want, Some(fail(&e)), "registration of {key:?}"),
          }
        }
      },
      5 ..= 7 if !self.ch.is_empty() => {
        let i = r.us(self.ch.len());
        let a = amount(r);
        log.push(format!("add {:?} {a}", self.ch[i].1));
        if a == 1 { self.ch[i].0.inc() } else { self.ch[i].0.inc_by(a) }
        join(&mut self.t.get_mut(&self.ch[i].1).unwrap().0, &Val::C(a))?;
      },
      8 ..= 9 if !self.hh.is_empty() => {
        let i = r.us(self.hh.len());
        for _ in 0 .. [1, 1, 2, SMALL, SMALL + 2][r.us(5)] {
          let a = sample(r);
          log.push(format!("observe {:?} {a}", self.hh[i].1));
          self.hh[i].0.observe(a);
          join(&mut self.t.get_mut(&self.hh[i].1).unwrap().0, &Val::H(vec![a]))?;
        }
      },
      10 if !self.ch.is_empty() => { let (_, k, _) = self.ch.swap_remove(r.us(self.ch.len())); log.push(format!("drop {k:?}")); self.t.get_mut(&k).unwrap().1 -= 1; },
      10 if !self.hh.is_empty() => { let (_, k, _) = self.hh.swap_remove(r.us(self.hh.len())); log.push(format!("drop {k:?}")); self.t.get_mut(&k).unwrap().1 -= 1; },
      11 => {
        // The way the flusher takes a snapshot.
        log.push("snapshot".into());
        let mut took: BTreeMap<Key, Val> = BTreeMap::new();
        let mut err = None;
        self.c.retain(|id, m| {
          let refs = m.multiple_references();
          match m.snap() {
            Some(x) => {
              let p = x.to_proto();
              let back = MetricData::from_proto(p.clone()).map(|b| b.to_proto());
              match (read(&p), back.ok_or("no way back".to_string()).and_then(|b| read(&b))) {
                (Ok(v), Ok(w)) if same(&v, &w) => { took.insert((id.name.clone(), id.labels.clone()), v); },
                (v, w) => err = Some(format!("{id:?}: {v:?} read back as {w:?}")),
              }
              if m.snap().is_some() { err = Some(format!("{id:?}: something left after a snapshot")); }
              true
            },
            None => refs,
          }
        });
        if let Some(e) = err { return Err(e); }
        let mut want: BTreeMap<Key, Val> = BTreeMap::new();
        self.t.retain(|k, (v, n)| {
          match v {
            Val::C(0) => *n > 0,
            Val::C(x) => { want.insert(k.clone(), Val::C(std::mem::take(x))); true },
            Val::H(x) if x.is_empty() => *n > 0,
            Val::H(x) => { want.insert(k.clone(), Val::H(std::mem::take(x))); true },
          }
        });
        eq!(took.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "metrics in the snapshot");
        for (k, v) in &took { ck!(same(v, &want[k]), "snapshot of {k:?}: {v:?}, recorded {:?}", want[k]); }
        // A histogram keeps the small samples in the order they came.
        for (k, v) in &took { if let (Val::H(a), Val::H(b)) = (v, &want[k]) { if b.len() <= SMALL { eq!(a, b, "small sample of {k:?}"); } } }
      },
      12 if self.hh.len() > 1 => {
        let (i, j) = (r.us(self.hh.len()), r.us(self.hh.len()));
        if self.hh[i].1 != self.hh[j].1 {
          log.push(format!("merge {:?} from {:?}", self.hh[i].1, self.hh[j].1));
          self.hh[i].0.merge_from(&self.hh[j].0);
          let v = self.t[&self.hh[j].1].0.clone();
          join(&mut self.t.get_mut(&self.hh[i].1).unwrap().0, &v)?;
        }
      },
      13 => if let Some(l) = &self.limit { let n = r.below(8) as u32; log.push(format!("limit {n}")); let _ = l.send(n); l.send_replace(n); },
      _ => {},
    }
    // Counters show what they hold; nothing else is registered.
    for (c, k, _) in &self.ch { ck!(same(&Val::C(c.get()), &self.t[k].0), "{k:?} holds {}, recorded {:?}", c.get(), self.t[k].0); }
    for (k, (v, _)) in &self.t {
      let (c, h) = (self.c.find_counter(&k.0, k.1.clone()), self.c.find_histogram(&k.0, k.1.clone()));
      match v {
        Val::C(x) => { eq!(c.map(|c| c.get()), Some(*x), "{k:?} as found"); ck!(h.is_none(), "{k:?} is a counter"); },
        Val::H(_) => { ck!(c.is_none() && h.is_some(), "{k:?} is a histogram"); },
      }
    }
    let mut n = 0;
    self.c.retain(|_, _| { n += 1; true });
    eq!(n, self.t.len(), "number of metrics kept");
    Ok(())
  }
}

// Threads take handles, add and let go of them while the real flusher writes one snapshot after the other.
fn threads(seed: u64) -> Result<(), String> {
  const N: usize = 64;
  let pace = [20, 200, 1000, 3000][seed as usize % 4];
  let dir = fresh(seed);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
  let _g = rt.enter();
  let p = start(&dir, 1000, 300_000, 1000, 60);
  let total: Arc<Vec<AtomicU64>> = Arc::new((0 .. N).map(|_| AtomicU64::new(0)).collect());
  let obs = Arc::new(AtomicU64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let js: Vec<_> = (0 .. 4u64).map(|t| {
    let (sc, dy, total, obs, stop) = (p.scope.clone(), p.dynamic.clone(), total.clone(), obs.clone(), stop.clone());
    std::thread::spawn(move || {
      let mut r = Rng::new(seed * 7 + t);
      let mut h: Option<(Counter, usize)> = None;
      while !stop.load(Ordering::Relaxed) {
        if h.is_none() { let i = r.us(N); h = Some((sc.counter(&format!("c{i}")), i)); }
        // Wait a moment, so that snapshots find handles without content.
        for _ in 0 .. r.us(pace) { std::hint::spin_loop(); }
        let (k, i) = h.take().unwrap();
        let a = 1 + r.below(5);
        if a == 1 { k.inc() } else { k.inc_by(a) }
        if r.chance(1, 8) { h = Some((k, i)) } else { drop(k) }
        total[i].fetch_add(a, Ordering::SeqCst);
        match r.us(100) {
          0 => { let g = sc.histogram("h"); let n = 1 + r.below(4); for _ in 0 .. n { g.observe(1.0); } obs.fetch_add(n, Ordering::SeqCst); },
          1 ..= 4 => { let i = r.us(N); dy.record_dynamic_counter(&format!("f:c{i}"), Labels::from([("d".into(), "y".into())]), 1); total[i].fetch_add(1, Ordering::SeqCst); },
          _ => {},
        }
      }
    })
  }).collect();
  let mut sent = Sent::new();
  rt.block_on(async {
    let t = std::time::Instant::now();
    while t.elapsed() < Duration::from_millis(250) { flush(&p).await?; }
    Ok::<_, String>(())
  })?;
  stop.store(true, Ordering::SeqCst);
  for j in js { j.join().map_err(|_| "a thread panicked")?; }
  rt.block_on(async move {
    flush(&p).await?;
    p.shutdown.shutdown().await;
    p.task.await.map_err(|e| format!("flusher: {e}"))
  })?;
  drop(_g);
  drop(rt);
  // What the files hold is what the next process uploads.
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  rt.block_on(async {
    let mut p = start(&dir, 1000, 300_000, 1000, 60);
    for _ in 0 .. 5 {
      tokio::time::sleep(Duration::from_secs(61)).await;
      quiet().await;
      take(&mut p, &mut sent)?;
      if let Some((u, tx)) = p.flight.take() { let _ = tx.send(UploadResponse { success: true, uuid: u }); quiet().await; }
    }
    p.shutdown.shutdown().await;
    Ok::<_, String>(())
  })?;
  let mut seen = vec![0; N];
  let mut hist = 0;
  for m in sent.values() { for (k, v) in m { match (k.0.strip_prefix("f:c"), v) {
    (Some(i), Val::C(n)) => seen[i.parse::<usize>().unwrap()] += n,
    (None, Val::H(n)) if k.0 == "f:h" => hist += n.len() as u64,
    _ => {},
  } } }
  for i in 0 .. N { eq!(seen[i], total[i].load(Ordering::SeqCst), "counter {i}: sum of all snapshots"); }
  eq!(hist, obs.load(Ordering::SeqCst), "values in the snapshots of the histogram");
  std::fs::remove_dir_all(&dir).ok();
  Ok(())
}

// The same, with nothing but the snapshots in between.
#[cfg(feature = "priv")]
fn tight(seed: u64) -> Result<(), String> {
  let c = BoundedCollector::new(None);
  let total: Arc<[AtomicU64; 4]> = Arc::default();
  let obs = Arc::new(AtomicU64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let js: Vec<_> = (0 .. 4u64).map(|t| {
    let (c, total, obs) = (c.clone(), total.clone(), obs.clone());
    std::thread::spawn(move || {
      let mut r = Rng::new(seed * 7 + t);
      let sc = c.scope("s");
      let mut h: Option<(Counter, usize)> = None;
      for _ in 0 .. 400 {
        if h.is_none() || r.chance(1, 3) { let i = r.us(4); drop(h.take()); h = Some((sc.counter(&format!("c{i}")).unwrap(), i)); }
        let (k, i) = h.as_ref().unwrap();
        let a = 1 + r.below(5);
        if a == 1 { k.inc() } else { k.inc_by(a) }
        total[*i].fetch_add(a, Ordering::SeqCst);
        if r.chance(1, 3) { let g = sc.histogram("h").unwrap(); let n = 1 + r.below(4); for _ in 0 .. n { g.observe(1.0); } obs.fetch_add(n, Ordering::SeqCst); }
      }
    })
  }).collect();
  let snap = {
    let (c, stop) = (c.clone(), stop.clone());
    std::thread::spawn(move || -> Result<([u64; 4], u64), String> {
      let (mut seen, mut hist) = ([0; 4], 0);
      loop {
        let last = stop.load(Ordering::SeqCst);
        for (id, x) in stats::snap(&c) {
          match (id.name.strip_prefix("s:c"), read(&x.to_proto())?) {
            (Some(i), Val::C(v)) => seen[i.parse::<usize>().unwrap()] += v,
            (None, Val::H(v)) => hist += v.len() as u64,
            x => return Err(format!("{id:?}: {x:?}")),
          }
        }
        if last { return Ok((seen, hist)); }
      }
    })
  };
  for j in js { j.join().map_err(|_| "a thread panicked")?; }
  stop.store(true, Ordering::SeqCst);
  let (seen, hist) = snap.join().map_err(|_| "snapshots panicked")??;
  for i in 0 .. 4 { eq!(seen[i], total[i].load(Ordering::SeqCst), "sum of the snapshots of counter {i}"); }
  eq!(hist, obs.load(Ordering::SeqCst), "values in the snapshots of the histogram");
  Ok(())
}

// The whole way: handles, flushes to disk, restarts, uploads.
struct Proc {
  scope: Scope,
  dynamic: Arc<DynamicStats>,
  trigger: FlushTrigger,
  shutdown: ComponentShutdownTrigger,
  _runtime: Arc<ConfigLoader>,
  task: tokio::task::JoinHandle<()>,
  rx: tokio::sync::mpsc::Receiver<DataUpload>,
  flight: Option<(String, tokio::sync::oneshot::Sender<UploadResponse>)>,
}
fn start(dir: &std::path::Path, files: u32, window_ms: u32, dynamic: u32, disk_s: u32) -> Proc {
  let rt = ConfigLoader::new(dir);
  let v = |n: u32| Value { type_: Some(value::Type::UintValue(n)), ..Default::default() };
  let values = [("stats.max_aggregated_files", files), ("stats.max_aggregation_window_per_file_ms", window_ms), ("stats.max_dynamic_stats", dynamic),
    ("stats.disk_flush_interval_ms", disk_s * 1000), ("stats.upload_flush_interval_ms", 60_000)].into_iter().map(|(k, n)| (k.to_string(), v(n))).collect();
  rt.update_snapshot(&RuntimeUpdate { version_nonce: "x".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  let collector = Collector::default();
  let scope = collector.scope("f");
  let d = Arc::new(DynamicStats::new(&collector.scope(""), &rt));
  let stats = bd_client_stats::Stats::new(collector, d.clone());
  let shutdown = ComponentShutdownTrigger::default();
  let (tx, rx) = tokio::sync::mpsc::channel(1);
  let fh = stats.flush_handle(&rt, shutdown.make_shutdown(), dir, tx).unwrap();
  Proc { scope, dynamic: d, trigger: fh.flush_trigger, shutdown, _runtime: rt, task: tokio::spawn(fh.flusher.periodic_flush()), rx, flight: None }
}
fn fresh(n: u64) -> std::path::PathBuf { let d = hx::scratch().join(format!("c21-{n:x}")); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); d }
async fn quiet() { for _ in 0 .. 3 { tokio::time::sleep(Duration::from_millis(1)).await; } }
async fn flush(p: &Proc) -> Result<(), String> {
  let (tx, rx) = bd_completion::Sender::new();
  p.trigger.flush(Some(tx)).await.map_err(|e| e.to_string())?;
  tokio::time::timeout(Duration::from_secs(600), rx.recv()).await.map_err(|_| "flush does not end")?.map_err(|e| e.to_string())?;
  Ok(())
}
type Sent = BTreeMap<String, BTreeMap<Key, Val>>;
// Reads a request; the same upload tried again is the same upload.
fn note(q: &StatsUploadRequest, sent: &mut Sent) -> Result<(), String> {
  let mut m: BTreeMap<Key, Val> = BTreeMap::new();
  for s in &q.snapshot {
    ck!(s.occurred_at.is_some(), "no time window in {}", q.upload_uuid);
    let Some(Snapshot_type::Metrics(l)) = &s.snapshot_type else { return Err("no metrics in an upload".into()) };
    for x in &l.metric {
      let k: Key = (x.name.clone(), x.tags.clone().into_iter().collect());
      let v = read(x.data.as_ref().ok_or("no data")?)?;
      if let Some(o) = m.insert(k.clone(), v) { return Err(format!("{k:?} twice in one upload, {o:?}")); }
    }
  }
  ck!(!m.is_empty(), "empty upload");
  if let Some(o) = sent.get(&q.upload_uuid) {
    ck!(o.len() == m.len() && o.iter().all(|(k, v)| m.get(k).is_some_and(|w| same(v, w))), "upload {} changed from {o:?} to {m:?}", q.upload_uuid);
  }
  sent.insert(q.upload_uuid.clone(), m);
  Ok(())
}
fn take(p: &mut Proc, sent: &mut Sent) -> Result<bool, String> {
  let mut any = false;
  while let Ok(u) = p.rx.try_recv() {
    let DataUpload::StatsUploadRequest(t) = u else { return Err("unknown upload".into()) };
    if p.flight.as_ref().is_some_and(|f| !f.1.is_closed()) { return Err("a second upload while one is in flight".into()); }
    eq!(t.uuid, t.payload.upload_uuid, "identifier");
    note(&t.payload, sent)?;
    p.flight = Some((t.uuid, t.response_tx));
    any = true;
  }
  Ok(any)
}
fn files(dir: &std::path::Path) -> usize {
  std::fs::read_dir(dir.join("stats_uploads")).map_or(0, |d| d.filter(|e| !e.as_ref().unwrap().file_name().to_string_lossy().contains("index")).count())
}
async fn whole(r: &mut Rng, log: &mut Vec<String>) -> Result<(), String> {
  let dir = fresh(r.next());
  let window = [0, 300_000][r.us(2)];
  let few = r.chance(1, 4);
  let max_files = if few { 2 + r.below(3) as u32 } else { 1000 };
  let limit = if r.chance(1, 3) { 1 + r.below(4) as u32 } else { 100 };
  let disk_s = [60, 100_000][r.us(2)];
  log.push(format!("window {window} files {max_files} dynamic {limit} disk flush every {disk_s} s"));
  let mut p = start(&dir, max_files, window, limit, disk_s);
  let mut want: BTreeMap<Key, Val> = BTreeMap::new();
  let (mut sent, mut acked): (Sent, BTreeSet<String>) = (Sent::new(), BTreeSet::new());
  let mut c: Vec<Counter> = vec![];
  let mut add = |want: &mut BTreeMap<Key, Val>, k: Key, v: Val| match want.get_mut(&k) { Some(o) => join(o, &v), None => { want.insert(k, v); Ok(()) } };
  for _ in 0 .. 8 + r.us(25) {
    match r.us(14) {
      0 ..= 2 => {
        let (n, a) = (["x", "y", "z"][r.us(3)], amount(r));
        log.push(format!("add {n} {a}"));
        let k = p.scope.counter(n);
        k.inc_by(a);
        if a > 0 { add(&mut want, (format!("f:{n}"), Labels::new()), Val::C(a))?; }
        if r.chance(1, 2) { c.push(k); }
        if r.chance(1, 3) { c.clear(); }
      },
      3 ..= 4 => {
        let n = ["h", "i"][r.us(2)];
        for _ in 0 .. [1, 2, 4, SMALL + 1][r.us(4)] {
          let v = sample(r);
          log.push(format!("observe {n} {v}"));
          p.scope.histogram(n).observe(v);
          add(&mut want, (format!("f:{n}"), Labels::new()), Val::H(vec![v]))?;
        }
      },
      5 ..= 6 => {
        // Dynamic metrics: what does not fit is counted as overflow.
        let (n, l, a) = (["dyn", "dyn2"][r.us(2)], labels(r), amount(r));
        log.push(format!("dynamic {n} {l:?} {a}"));
        let has = p.dynamic.collector_for_test().find_counter(n, l.clone()).is_some();
        let mut kept = 0;
        p.dynamic.collector_for_test().retain(|_, _| { kept += 1; true });
        p.dynamic.record_dynamic_counter(n, l.clone(), a);
        if has || kept < limit { if a > 0 { add(&mut want, (n.into(), l), Val::C(a))?; } } else { add(&mut want, ("stats:dynamic_stats_overflow".into(), Labels::new()), Val::C(1))?; }
      },
      7 => {
        let v = sample(r);
        log.push(format!("dynamic histogram {v}"));
        let has = p.dynamic.collector_for_test().find_histogram("dynh", Labels::new()).is_some();
        let mut kept = 0;
        p.dynamic.collector_for_test().retain(|_, _| { kept += 1; true });
        p.dynamic.record_dynamic_histogram("dynh", Labels::new(), v);
        if has || kept < limit { add(&mut want, ("dynh".into(), Labels::new()), Val::H(vec![v]))?; } else { add(&mut want, ("stats:dynamic_stats_overflow".into(), Labels::new()), Val::C(1))?; }
      },
      9 if r.chance(1, 2) => { log.push("wait".into()); tokio::time::sleep(Duration::from_secs(30 + r.below(100))).await; quiet().await; },
      8 | 9 => { log.push("flush".into()); flush(&p).await?; },
      10 | 11 => if let Some((u, tx)) = p.flight.take() {
        let ok = r.chance(2, 3);
        log.push(format!("answer {ok}"));
        if ok { acked.insert(u.clone()); }
        if !ok && r.chance(1, 3) { drop(tx); } else { let _ = tx.send(UploadResponse { success: ok, uuid: u }); }
        quiet().await;
      },
      12 | 13 if r.chance(1, 3) => {
        // The process is killed with everything on disk and perhaps an upload under way.
        log.push("killed".into());
        flush(&p).await?;
        tokio::time::sleep(Duration::from_secs(r.below(400))).await;
        quiet().await;
        take(&mut p, &mut sent)?;
        if let Some((u, _tx)) = p.flight.take() { if r.chance(1, 2) { log.push("upload arrived".into()); acked.insert(u); } }
        p.task.abort();
        let _ = (&mut p.task).await;
        c.clear();
        p = start(&dir, max_files, window, limit, disk_s);
      },
      12 if r.chance(1, 12) => {
        log.push("700 counters".into());
        for i in 0 .. 700 { p.scope.counter(&format!("many{i}")).inc(); add(&mut want, (format!("f:many{i}"), Labels::new()), Val::C(1))?; }
      },
      _ => {
        // What is in memory is lost with the process, so flush first. An upload in flight may have arrived.
        log.push("restart".into());
        flush(&p).await?;
        take(&mut p, &mut sent)?;
        if let Some((u, tx)) = p.flight.take() { if r.chance(1, 2) { log.push("upload arrived".into()); acked.insert(u); } drop(tx); }
        quiet().await;
        p.shutdown.shutdown().await;
        p.task.await.map_err(|e| format!("flusher: {e}"))?;
        c.clear();
        p = start(&dir, max_files, window, limit, disk_s);
      },
    }
    take(&mut p, &mut sent)?;
    ck!(files(&dir) <= max_files as usize, "{} files kept, at most {max_files} allowed", files(&dir));
    ck!(!p.task.is_finished(), "the flusher ended");
  }
  // Upload everything that is left.
  flush(&p).await?;
  for _ in 0 .. 2 * files(&dir) + 3 {
    tokio::time::sleep(Duration::from_secs(61)).await;
    quiet().await;
    take(&mut p, &mut sent)?;
    while let Some((u, tx)) = p.flight.take() {
      acked.insert(u.clone());
      let _ = tx.send(UploadResponse { success: true, uuid: u });
      quiet().await;
      take(&mut p, &mut sent)?;
    }
  }
  // A window of zero length makes a new file for each flush of the flusher's own timer, so the
  // files left at the end may hold nothing but the time of that flush.
  let mut got: BTreeMap<Key, Val> = BTreeMap::new();
  for u in &acked {
    for (k, v) in sent.get(u).ok_or("unknown upload")? {
      if k.0 != "stats:flush_time" { add(&mut got, k.clone(), v.clone())?; }
    }
  }
  if few {
    // Files were given up at the limit: then less may arrive, never more.
    for (k, v) in &got {
      let w = want.get(k).ok_or(format!("{k:?} was never recorded"))?;
      match (v, w) { (Val::C(a), Val::C(b)) => ck!(a <= b, "{k:?}: {a} uploaded, {b} recorded"), (Val::H(a), Val::H(b)) => ck!(a.len() <= b.len(), "{k:?}: {} values uploaded, {} recorded", a.len(), b.len()), x => return Err(format!("{k:?}: {x:?}")) }
    }
  } else {
    eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "metrics uploaded");
    for (k, v) in &got { ck!(same(v, &want[k]), "{k:?}: uploaded {v:?}, recorded {:?}", want[k]); }
  }
  p.shutdown.shutdown().await;
  p.task.await.map_err(|e| format!("flusher: {e}"))?;
  std::fs::remove_dir_all(&dir).ok();
  Ok(())
}

fn main() {
  let mut h = Hx::new("random sequences of registrations, increments, observations, merges, snapshots and limit changes on one collector; four threads adding while a fifth takes snapshots; random sequences of recording, flushing, uploading, answering and restarting on the real flusher and files. Nontrivial: a distinct sequence with at least one snapshot or upload.");
  for i in 0 .. h.n(3000, 30000) {
    let mut r = Rng::new(h.rng.next() ^ i);
    let log = std::cell::RefCell::new(vec![]);
    h.case(true, || format!("store: {}", log.borrow().join("; ")), || {
      let mut s = Store::new(&mut r);
      for _ in 0 .. 10 + r.us(60) { s.step(&mut r, &mut log.borrow_mut())?; }
      Ok(())
    });
  }
  #[cfg(feature = "priv")]
  for i in 0 .. h.n(600, 6000) { let seed = h.rng.next() >> 8; h.case(true, || format!("snapshots and threads {i} seed {seed}"), || tight(seed)); }
  for (new, old) in [(0u64, 0u32), (5, 0), (0, 5), (3, 4), (1 << 40, u32::MAX), (0, u32::MAX)] {
    h.case(true, || format!("a counter of {new} and, from an older release, {old}"), || {
      let c = bd_proto::protos::client::metric::Counter { value: new, value_deprecated: old, ..Default::default() };
      let m = MetricData::from_proto(Data::Counter(c)).ok_or("refused")?;
      ck!(same(&read(&m.to_proto())?, &Val::C(new + u64::from(old))), "holds {:?}", read(&m.to_proto()));
      Ok(())
    });
  }
  for i in 0 .. h.n(24, 240) { let seed = h.rng.next() >> 8; h.case(true, || format!("threads {i} seed {seed}"), || threads(seed)); }
  for i in 0 .. h.n(500, 5000) {
    let mut r = Rng::new(h.rng.next() ^ i);
    let log = std::cell::RefCell::new(vec![]);
    h.case(true, || format!("flusher: {}", log.borrow().join("; ")), || {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
      let mut l = vec![];
      let x = rt.block_on(whole(&mut r, &mut l));
      *log.borrow_mut() = l;
      x
    });
  }
  h.finish();
}
