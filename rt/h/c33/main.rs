//! deps: bd-api bd-buffer bd-client-common bd-client-stats-store bd-internal-logging bd-log-primitives bd-proto bd-runtime bd-shutdown bd-stats-common bd-time anyhow tokio tower backoff futures-util tracing unwrap-infallible time log flatbuffers
//! The real upload manager and upload service (included from the tree) over real ring buffers, on
//! tokio's paused clock; the harness is the API side. Oracle: a model of what is in the buffer, in
//! the batch being collected and in flight.
#[allow(dead_code, unused_imports)]
mod service {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/service.rs"));
}
#[allow(dead_code, unused_imports)]
mod consumer {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/consumer.rs"));
}
use bd_api::upload::{TrackedLogBatch, UploadResponse};
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::{Buffer, BufferEvent, BufferEventWithResponse, RingBuffer as _, RingBufferStats};
use bd_client_stats_store::{Collector, Counter};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::log_upload as fl;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag};
use bd_shutdown::ComponentShutdownTrigger;
use hx::{ck, eq, scratch, Hx, Rng};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{channel, Receiver, Sender};

type R<T = ()> = Result<T, String>;
fn se<E: std::fmt::Debug>(e: E) -> String { format!("{e:?}") }

#[derive(Clone, Debug)]
struct Fl { logs: u32, bytes: u32, deadline: u32, retries: u32, init: u32, max: u32, window: u32 }
impl Fl {
  fn random(r: &mut Rng) -> Self {
    let init = *r.pick(&[10u32, 100, 1000]);
    Self {
      logs: *r.pick(&[1, 2, 3, 4, 7, 20, 40, 1000]),
      bytes: *r.pick(&[50, 150, 400, 1_000_000]),
      deadline: *r.pick(&[20, 500, 30_000]),
      retries: *r.pick(&[0, 1, 2, 4]),
      init,
      max: init * *r.pick(&[1, 2, 3]),
      window: 0,
    }
  }
  fn set(&self, l: &ConfigLoader) {
    let v = |n: u32| Value { type_: Some(value::Type::UintValue(n)), ..Default::default() };
    let values = [
      (fl::BatchSizeFlag::path(), self.logs),
      (fl::BatchSizeBytesFlag::path(), self.bytes),
      (fl::BatchDeadlineFlag::path(), self.deadline),
      (fl::RetryCountFlag::path(), self.retries),
      (fl::RetryBackoffInitialFlag::path(), self.init),
      (fl::RetryBackoffMaxFlag::path(), self.max),
      (fl::FlushBufferLookbackWindow::path(), self.window),
      (fl::RatelimitByteCountPerPeriodFlag::path(), u32::MAX),
      (fl::RatelimitPeriodFlag::path(), 1),
    ]
    .into_iter()
    .map(|(p, n)| (p.to_string(), v(n)))
    .collect();
    l.update_snapshot(&RuntimeUpdate { version_nonce: "x".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
  }
}

/// The manager under test with its surroundings.
struct Env {
  loader: Arc<ConfigLoader>,
  shutdown: ComponentShutdownTrigger,
  events: Sender<BufferEventWithResponse>,
  triggers: Sender<TriggerUpload>,
  uploads: Receiver<DataUpload>,
}
async fn settle() {
  for _ in 0 .. 120 {
    tokio::task::yield_now().await;
  }
}
impl Env {
  async fn new(dir: &Path, f: &Fl) -> R<Self> {
    let loader = ConfigLoader::new(dir);
    f.set(&loader);
    let shutdown = ComponentShutdownTrigger::default();
    let (events, event_rx) = channel(4);
    let (triggers, trigger_rx) = channel(4);
    let (tx, uploads) = channel(16);
    let m = consumer::BufferUploadManager::new(tx, &loader, shutdown.make_shutdown(), event_rx, trigger_rx, &Collector::default().scope(""), bd_internal_logging::NoopLogger::new()).map_err(se)?;
    tokio::spawn(async move { let _ = m.run().await; });
    Ok(Self { loader, shutdown, events, triggers, uploads })
  }
  async fn event(&self, e: BufferEvent) -> R {
    let (e, mut rx) = BufferEventWithResponse::new(e);
    self.events.send(e).await.map_err(|_| "the upload manager is gone".to_string())?;
    settle().await;
    ck!(rx.try_recv().is_ok(), "buffer event not acknowledged");
    Ok(())
  }
  fn next(&mut self) -> R<Option<TrackedLogBatch>> {
    match self.uploads.try_recv() {
      Ok(DataUpload::LogsUploadRequest(u)) => Ok(Some(u)),
      Ok(_) => Err("something else than logs uploaded".into()),
      Err(_) => Ok(None),
    }
  }
}
fn buffer(p: &Path, trigger: bool) -> R<Arc<Buffer>> {
  let c = Counter::default;
  Ok(Buffer::new("b", 20_000, p.to_path_buf(), 100_000, trigger, c(), c(), c(), c(), c(), None).map_err(se)?.0)
}

struct Flight { logs: Vec<Vec<u8>>, uuid: String, tries: u32, cur: f64, max: f64, tx: Option<TrackedLogBatch>, pause: Option<(u64, u64)> }
/// One source of batches: what it takes to follow the batch in flight.
struct Line { id: String, flight: Option<Flight>, used: HashSet<String> }
impl Line {
  fn start(&mut self, logs: Vec<Vec<u8>>) {
    self.flight = Some(Flight { logs, uuid: String::new(), tries: 0, cur: 0.0, max: 0.0, tx: None, pause: None });
  }
  /// An attempt arrived.
  fn arrived(&mut self, u: TrackedLogBatch, now: u64) -> R {
    let Some(f) = &mut self.flight else { return Err(format!("batch of {} logs uploaded that is not due: {:?}", u.payload.logs.len(), u.payload.logs.iter().map(|l| l.first().copied()).collect::<Vec<_>>())) };
    ck!(f.tx.is_none(), "an attempt before the previous one was answered");
    if let Some((lo, hi)) = f.pause.take() {
      ck!(now >= lo, "attempt {} at {} ms, pause until at least {}", f.tries, now, lo);
      ck!(now <= hi + 2, "attempt {} at {} ms, pause until at most {}", f.tries, now, hi);
    }
    eq!(u.uuid, u.payload.upload_uuid, "identifiers");
    eq!(u.payload.buffer_uuid, self.id, "buffer of the batch");
    eq!(u.payload.logs, f.logs, "logs of the batch (attempt {})", f.tries);
    if f.tries == 0 {
      ck!(self.used.insert(u.uuid.clone()), "identifier used by an earlier batch");
      f.uuid = u.uuid.clone();
    } else {
      eq!(u.uuid, f.uuid, "identifier of a repeated batch");
    }
    f.tx = Some(u);
    Ok(())
  }
  fn due(&self) -> bool { self.flight.as_ref().is_some_and(|f| f.tx.is_none() && f.pause.is_none()) }
  /// Answers the attempt in flight: 0 success, 1 failure, 2 the stream went away. True when the batch is done.
  fn answer(&mut self, how: u64, now: u64, fl: &Fl) -> bool {
    let f = self.flight.as_mut().unwrap();
    let u = f.tx.take().unwrap();
    match how {
      2 => drop(u.response_tx),
      _ => { let _ = u.response_tx.send(UploadResponse { success: how == 0, uuid: u.uuid.clone() }); },
    }
    if how == 0 || f.tries >= fl.retries {
      return true;
    }
    if f.tries == 0 {
      f.cur = f64::from(fl.init);
      f.max = f64::from(fl.max);
    }
    f.pause = Some((now + (f.cur * 0.5) as u64, now + (f.cur * 1.5).ceil() as u64));
    f.cur = (f.cur * 1.5).min(f.max);
    f.tries += 1;
    false
  }
}
fn full(b: &[Vec<u8>], f: &Fl) -> bool { !b.is_empty() && (b.len() >= f.logs as usize || b.iter().map(Vec::len).sum::<usize>() >= f.bytes as usize) }

struct Clock(u64);
impl Clock {
  async fn advance(&mut self, ms: u64) {
    if ms > 0 { tokio::time::advance(Duration::from_millis(ms)).await; self.0 += ms; }
    settle().await;
  }
}
fn log_of(r: &mut Rng, n: &mut u64) -> Vec<u8> {
  *n += 1;
  let mut l = n.to_le_bytes().to_vec();
  let extra = if r.chance(1, 4) { r.us(250) } else { r.us(30) };
  l.extend(r.bytes(extra));
  l
}

// ---- continuous ----
struct Cont { buf: VecDeque<Vec<u8>>, batch: Vec<Vec<u8>>, deadline: Option<u64>, line: Line }
impl Cont {
  fn pump(&mut self, now: u64, f: &Fl) {
    while self.line.flight.is_none() {
      if full(&self.batch, f) || self.deadline.is_some_and(|d| d <= now) {
        self.deadline = None;
        self.line.start(std::mem::take(&mut self.batch));
      } else if let Some(l) = self.buf.pop_front() {
        self.batch.push(l);
        if !full(&self.batch, f) && self.deadline.is_none() { self.deadline = Some(now + u64::from(f.deadline)); }
      } else {
        break;
      }
    }
  }
  /// Everything not acknowledged is in the buffer again. Gives the attempt in flight, which nobody answers.
  fn unacked(&mut self) -> Option<TrackedLogBatch> {
    let (mut all, tx) = self.line.flight.take().map(|f| (f.logs, f.tx)).unwrap_or_default();
    all.append(&mut self.batch);
    for l in all.into_iter().rev() { self.buf.push_front(l); }
    self.deadline = None;
    tx
  }
}
async fn check(env: &mut Env, c: &mut Cont, now: u64) -> R {
  while let Some(u) = env.next()? { c.line.arrived(u, now)?; }
  ck!(!c.line.due(), "batch of {} logs due but not uploaded at {now} ms", c.line.flight.as_ref().unwrap().logs.len());
  Ok(())
}
async fn cont(dir: &Path, r: &mut Rng, log: &std::cell::RefCell<String>) -> R {
  let say = |s: String| { log.borrow_mut().push_str(&s); log.borrow_mut().push(' '); };
  let mut f = Fl::random(r);
  say(format!("{f:?}"));
  let mut file = dir.join("buf");
  let mut dead = vec![];
  let mut clock = Clock(0);
  let mut env = Env::new(dir, &f).await?;
  // A trigger buffer nobody asks for makes no difference.
  let other = if r.chance(1, 2) { say("idle-trigger".into()); Some(buffer(&dir.join("other"), true)?) } else { None };
  if let Some(o) = &other { env.event(BufferEvent::TriggerBufferCreated("o".into(), o.clone())).await?; }
  let mut b = buffer(&file, false)?;
  let mut p = b.new_thread_local_producer().map_err(se)?;
  let mut n = 0;
  let mut c = Cont { buf: VecDeque::new(), batch: vec![], deadline: None, line: Line { id: "c".into(), flight: None, used: HashSet::new() } };
  env.event(BufferEvent::ContinuousBufferCreated("c".into(), b.clone())).await?;
  for _ in 0 .. 8 + r.us(22) {
    match r.below(14) {
      0 ..= 4 => {
        let most = if r.chance(1, 8) { 45 } else if r.chance(1, 3) { 9 } else { 3 };
        let k = 1 + r.us(most);
        say(format!("w{k}"));
        for _ in 0 .. k {
          let l = log_of(r, &mut n);
          p.write(&l).map_err(se)?;
          c.buf.push_back(l);
        }
        b.flush();
        settle().await;
      },
      5 ..= 8 => {
        if let Some(fl) = &c.line.flight {
          if let Some((lo, hi)) = fl.pause {
            // A retry is due somewhere in the window.
            say("pause".into());
            if clock.0 + 2 < lo { let d = lo - clock.0 - 2; clock.advance(d).await; }
            check(&mut env, &mut c, clock.0).await?;
            while c.line.flight.as_ref().unwrap().tx.is_none() {
              ck!(clock.0 <= hi + 2, "no further attempt within {hi} ms");
              clock.advance(1 + (hi - lo) / 20).await;
              while let Some(u) = env.next()? { c.line.arrived(u, clock.0.min(hi))?; }
            }
          } else {
            let how = *r.pick(&[0, 0, 1, 2]);
            say(format!("a{how}"));
            if c.line.answer(how, clock.0, &f) { c.line.flight = None; }
            settle().await;
          }
        }
      },
      9 | 10 => {
        let d = match c.deadline { Some(d) if d > clock.0 && r.chance(2, 3) => if r.chance(1, 2) { d - clock.0 } else { d - clock.0 - 1 }, _ => r.below(400) };
        // An answer may take as long as it likes.
        let d = if c.line.flight.as_ref().is_some_and(|f| f.tx.is_some()) && r.chance(1, 3) { r.range(30_000, 900_000) as u64 } else { d };
        // Past the end of a pause attempts come at a time not known.
        let d = match c.line.flight.as_ref().and_then(|f| f.pause) { Some((lo, _)) if clock.0 + d + 2 >= lo => 0, _ => d };
        say(format!("t{d}"));
        clock.advance(d).await;
      },
      11 => {
        let g = Fl { init: f.init, max: f.max, ..Fl::random(r) };
        say(format!("{g:?}"));
        // Retries are counted against the number configured then; a lowered number is left for later batches.
        f = if c.line.flight.is_some() && g.retries < f.retries { Fl { retries: f.retries, ..g } } else { g };
        f.set(&env.loader);
        settle().await;
      },
      k => {
        if r.chance(1, 2) { continue; }
        let open = c.unacked();
        let k = if k == 12 { 0 } else { 1 + r.below(2) };
        say(format!("reopen{k}"));
        drop(p);
        match k {
          0 => {
            env.event(BufferEvent::BufferRemoved("c".into())).await?;
            while env.next()?.is_some() {}
            drop(b);
          },
          _ => {
            let fresh = Env::new(dir, &f).await?;
            let old = std::mem::replace(&mut env, fresh);
            if k == 1 {
              let done = tokio::spawn(old.shutdown.shutdown());
              settle().await;
              ck!(done.is_finished(), "shutdown does not finish");
              drop((old.uploads, old.events, old.triggers, b));
              settle().await;
            } else {
              // What is in the file now is what the next process finds.
              let copy = dir.join(format!("buf{}", dead.len()));
              std::fs::copy(&file, &copy).map_err(se)?;
              file = copy;
              dead.push((old, b));
            }
          },
        }
        drop(open);
        if let (1 | 2, Some(o)) = (k, &other) { env.event(BufferEvent::TriggerBufferCreated("o".into(), o.clone())).await?; }
        b = buffer(&file, false)?;
        p = b.new_thread_local_producer().map_err(se)?;
        env.event(BufferEvent::ContinuousBufferCreated("c".into(), b.clone())).await?;
      },
    }
    c.pump(clock.0, &f);
    check(&mut env, &mut c, clock.0).await?;
  }
  // Everything still goes out.
  for _ in 0 .. 400 {
    if let Some(fl) = &c.line.flight {
      if let Some((_, hi)) = fl.pause {
        let d = hi + 1 - clock.0.min(hi);
        clock.advance(d).await;
        while let Some(u) = env.next()? { c.line.arrived(u, clock.0)?; }
        continue;
      }
      ck!(fl.tx.is_some(), "no attempt");
      c.line.answer(0, clock.0, &f);
      c.line.flight = None;
      settle().await;
    } else if let Some(d) = c.deadline {
      let d = d - clock.0;
      clock.advance(d).await;
    } else {
      break;
    }
    c.pump(clock.0, &f);
    check(&mut env, &mut c, clock.0).await?;
  }
  ck!(c.buf.is_empty() && c.batch.is_empty() && c.line.flight.is_none(), "logs left");
  clock.advance(100_000).await;
  check(&mut env, &mut c, clock.0).await
}

// ---- triggered ----
struct Trig { buf: Arc<Buffer>, producer: Box<dyn bd_buffer::buffer::RingBufferProducer>, content: VecDeque<(Vec<u8>, Option<Ts>)>, active: bool, cut: Option<(Ts, Ts)>, line: Line }
type Ts = ::time::OffsetDateTime;
impl Trig {
  /// False when it cannot be said whether a log is older than the window.
  fn pump(&mut self, f: &Fl) -> bool {
    if !self.active || self.line.flight.is_some() { return true; }
    let mut batch = vec![];
    while !full(&batch, f) {
      match self.content.pop_front() {
        Some((l, ts)) => match (ts, self.cut) {
          (Some(ts), Some((lo, _))) if ts < lo => {},
          (Some(ts), Some((_, hi))) if ts < hi => return false,
          _ => batch.push(l),
        },
        None => break,
      }
    }
    if batch.is_empty() { self.active = false; } else { self.line.start(batch); }
    true
  }
}
fn stamped(ts: Ts, r: &mut Rng, n: &mut u64) -> Vec<u8> {
  *n += 1;
  let mut fbb = flatbuffers::FlatBufferBuilder::new();
  let mut out = vec![];
  let m = format!("{n} {}", "x".repeat(r.us(40)));
  bd_client_common::fb::make_log(&mut fbb, 1, bd_log_primitives::LogType::Normal, &m.as_str().into(), &vec![], "s", ts, std::iter::empty(), std::iter::empty(), |l| { out = l.to_vec(); Ok(()) }).unwrap();
  out
}
async fn trig(dir: &Path, r: &mut Rng, log: &std::cell::RefCell<String>) -> R {
  let say = |s: String| { log.borrow_mut().push_str(&s); log.borrow_mut().push(' '); };
  let mut f = Fl::random(r);
  let win = |r: &mut Rng| if r.chance(1, 3) { 0 } else { *r.pick(&[1_200, 2_500, 60_000, 600_000, 86_400_000]) };
  f.window = win(r);
  say(format!("{f:?}"));
  let mut clock = Clock(0);
  let mut env = Env::new(dir, &f).await?;
  let mut n = 0;
  let mut ts: BTreeMap<String, Trig> = BTreeMap::new();
  for i in 0 .. 1 + r.us(3) {
    let id = format!("t{i}");
    let buf = buffer(&dir.join(&id), true)?;
    let producer = buf.new_thread_local_producer().map_err(se)?;
    env.event(BufferEvent::TriggerBufferCreated(id.clone(), buf.clone())).await?;
    ts.insert(id.clone(), Trig { buf, producer, content: VecDeque::new(), active: false, cut: None, line: Line { id, flight: None, used: HashSet::new() } });
  }
  let ids: Vec<String> = ts.keys().cloned().collect();
  let mut waiting: Vec<(HashSet<String>, tokio::sync::oneshot::Receiver<()>)> = vec![];
  let mut removed: HashSet<String> = HashSet::new();
  let steps = 10 + r.us(25);
  for step in 0 .. steps + 200 {
    let last = step >= steps;
    if last && ts.values().all(|t| !t.active) { break; }
    match if last { 6 } else { r.below(13) } {
      0 ..= 3 => {
        let id = r.pick(&ids).clone();
        let k = 1 + r.us(6);
        say(format!("w{k}:{id}"));
        let t = ts.get_mut(&id).unwrap();
        for _ in 0 .. k {
          // Ages around the window, to the nanosecond.
          let w = i64::from(if f.window == 0 { 600_000 } else { f.window }) * 1_000_000;
          let age = match r.below(7) {
            0 | 1 => None,
            2 => Some(r.range(0, w / 4)),
            3 => Some(w - w.min(r.range(300_000_000, 1_000_000_000))),
            4 => Some(w + r.range(0, 900_000_000)),
            5 => Some(w + r.range(0, 8 * w)),
            _ => Some(-r.range(0, w)),
          };
          let (l, ts) = match age {
            None => (log_of(r, &mut n), None),
            Some(a) => {
              let ts = Ts::now_utc() - ::time::Duration::nanoseconds(a);
              (stamped(ts, r, &mut n), Some(ts))
            },
          };
          if t.producer.write(&l).is_ok() { t.content.push_back((l, ts)); } else { ck!(t.active, "log refused by an idle buffer"); }
        }
        if !t.active { t.buf.flush(); }
      },
      4 | 5 => {
        let mut which: Vec<String> = ids.iter().filter(|_| r.chance(1, 2)).cloned().collect();
        if r.chance(1, 4) { which.push("nobody".into()); }
        say(format!("trigger{which:?}"));
        let (tx, rx) = tokio::sync::oneshot::channel();
        let mut wait = HashSet::new();
        let (before, window) = (Ts::now_utc(), ::time::Duration::milliseconds(f.window.into()));
        env.triggers.send(TriggerUpload::new(which.clone(), tx)).await.map_err(|_| "the upload manager is gone".to_string())?;
        settle().await;
        let after = Ts::now_utc();
        for id in &which {
          if removed.contains(id) { continue; }
          if let Some(t) = ts.get_mut(id) {
            if !t.active {
              t.active = true;
              t.cut = if f.window == 0 { None } else { Some((before - window, after - window)) };
              wait.insert(id.clone());
            }
          }
        }
        waiting.push((wait, rx));
      },
      6 ..= 10 => {
        let id = if last { ts.values().find(|t| t.active).unwrap().line.id.clone() } else { r.pick(&ids).clone() };
        let t = ts.get_mut(&id).unwrap();
        if let Some(fl) = &t.line.flight {
          if let Some((_, hi)) = fl.pause {
            let d = hi + 1 - clock.0.min(hi);
            say(format!("t{d}"));
            clock.advance(d).await;
          } else {
            if r.chance(1, 6) {
              let d = r.range(30_000, 900_000) as u64;
              say(format!("t{d}"));
              clock.advance(d).await;
            }
            let how = if last { 0 } else { *r.pick(&[0, 0, 1, 2]) };
            say(format!("a{how}:{id}"));
            if t.line.answer(how, clock.0, &f) { t.line.flight = None; }
          }
        }
      },
      11 => {
        if waiting.is_empty() {
          f = Fl { window: win(r), ..Fl::random(r) };
          f.set(&env.loader);
          say(format!("{f:?}"));
        }
      },
      _ => {
        let id = r.pick(&ids).clone();
        if !ts[&id].active && removed.len() + 1 < ids.len() && removed.insert(id.clone()) {
          say(format!("remove:{id}"));
          env.event(BufferEvent::BufferRemoved(id)).await?;
        }
      },
    }
    settle().await;
    for t in ts.values_mut() {
      if !t.pump(&f) { say("too close to tell".into()); return Ok(()); }
    }
    while let Some(u) = env.next()? {
      let Some(t) = ts.get_mut(&u.payload.buffer_uuid) else { return Err(format!("batch of unknown buffer {:?}", u.payload.buffer_uuid)) };
      // Attempts of other buffers may have come at any time of a pause.
      let at = t.line.flight.as_ref().and_then(|f| f.pause).map_or(clock.0, |(lo, hi)| { if clock.0 < lo { clock.0 } else { clock.0.min(hi) } });
      t.line.arrived(u, at)?;
    }
    for t in ts.values() {
      ck!(!t.line.due(), "batch of {} logs of {} due but not uploaded", t.line.flight.as_ref().unwrap().logs.len(), t.line.id);
      if let Some((_, hi)) = t.line.flight.as_ref().and_then(|f| f.pause) { ck!(clock.0 <= hi, "no further attempt within {hi} ms"); }
    }
    let active: HashSet<String> = ts.values().filter(|t| t.active).map(|t| t.line.id.clone()).collect();
    let mut still = vec![];
    for (mut w, mut rx) in std::mem::take(&mut waiting) {
      w.retain(|id| active.contains(id));
      if w.is_empty() {
        ck!(rx.try_recv().is_ok(), "uploads over but the request not answered");
      } else {
        ck!(rx.try_recv() == Err(tokio::sync::oneshot::error::TryRecvError::Empty), "request answered while {w:?} is still uploading");
        still.push((w, rx));
      }
    }
    waiting = still;
  }
  ck!(ts.values().all(|t| !t.active), "uploads do not end");
  Ok(())
}

// ---- streamed ----
async fn stream(dir: &Path, r: &mut Rng, log: &std::cell::RefCell<String>) -> R {
  let say = |s: String| { log.borrow_mut().push_str(&s); log.borrow_mut().push(' '); };
  let f = Fl::random(r);
  say(format!("{f:?}"));
  let mut clock = Clock(0);
  let mut env = Env::new(dir, &f).await?;
  let mut n = 0;
  for _ in 0 .. 1 + r.us(3) {
    let b = bd_buffer::buffer::VolatileRingBuffer::new("s".into(), 100_000, Arc::new(RingBufferStats::default()));
    let mut p = b.clone().register_producer().map_err(se)?;
    env.event(BufferEvent::StreamBufferAdded(b.clone())).await?;
    let mut q: VecDeque<Vec<u8>> = VecDeque::new();
    let mut line = Line { id: "streamed".into(), flight: None, used: HashSet::new() };
    for _ in 0 .. 4 + r.us(16) {
      if r.chance(1, 2) {
        let k = 1 + r.us(3);
        say(format!("w{k}"));
        for _ in 0 .. k { let l = log_of(r, &mut n); p.write(&l).map_err(se)?; q.push_back(l); }
      } else if let Some(fl) = &line.flight {
        if let Some((_, hi)) = fl.pause {
          let d = hi + 1 - clock.0;
          clock.advance(d).await;
        } else {
          let how = *r.pick(&[0, 0, 1, 2]);
          say(format!("a{how}"));
          if line.answer(how, clock.0, &f) { line.flight = None; }
        }
      }
      settle().await;
      if line.flight.is_none() { if let Some(l) = q.pop_front() { line.start(vec![l]); } }
      while let Some(u) = env.next()? {
        let at = line.flight.as_ref().and_then(|f| f.pause).map_or(clock.0, |(lo, hi)| { if clock.0 < lo { clock.0 } else { clock.0.min(hi) } });
        line.arrived(u, at)?;
      }
      ck!(!line.due(), "streamed log not uploaded");
      if let Some((_, hi)) = line.flight.as_ref().and_then(|f| f.pause) { ck!(clock.0 <= hi, "no further attempt within {hi} ms"); }
    }
    say("remove".into());
    env.event(BufferEvent::StreamBufferRemoved(b)).await?;
    while env.next()?.is_some() {}
    if r.chance(1, 2) {
      let _ = p.write(b"late");
      clock.advance(200_000).await;
      ck!(env.next()?.is_none(), "upload after the stream buffer was removed");
    }
  }
  Ok(())
}

fn main() {
  let mut h = Hx::new("random histories of writes, answers (acknowledged, refused, connection lost), clock advances, flag changes, removals, shutdowns and crashes followed by reopening, over continuous, trigger and stream buffers; distinct histories counted");
  let base: PathBuf = scratch().join("up");
  for i in 0 .. h.n(700, 12_000) {
    let seed = h.seed * 1_000_003 + i;
    let log = std::cell::RefCell::new(String::new());
    let kind = match i % 7 { 0 ..= 3 => 0, 4 | 5 => 1, _ => 2 };
    h.case(true, || format!("{} {}", ["continuous", "trigger", "stream"][kind], log.borrow()), || {
      let dir = base.join(format!("{i}"));
      std::fs::create_dir_all(&dir).map_err(se)?;
      let mut r = Rng::new(seed);
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(se)?;
      let res = rt.block_on(async {
        match kind {
          0 => cont(&dir, &mut r, &log).await,
          1 => trig(&dir, &mut r, &log).await,
          _ => stream(&dir, &mut r, &log).await,
        }
      });
      drop(rt);
      let _ = std::fs::remove_dir_all(&dir);
      res
    });
  }
  let _ = std::fs::remove_dir_all(&base);
  h.finish()
}
