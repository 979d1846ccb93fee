//! deps: bd-api bd-client-stats-store bd-grpc-codec bd-internal-logging bd-metadata bd-proto bd-runtime bd-shutdown bd-time protobuf time tokio async-trait anyhow
//! The real tracker alone, and the whole Api task over a fake network; oracle: a table of who waits
//! for which identifier, written out by hand.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::{IntentDecision, IntentResponse, StateTracker, Tracked, UploadResponse};
use bd_api::{DataUpload, Metadata, Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Decoder, Encoder, OptimizeFor};
use bd_internal_logging::{LogFields, LogLevel, LogType};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::log_upload_intent_response as li;
use bd_proto::protos::client::api::sankey_intent_response as si;
use bd_proto::protos::client::api::{
  ApiRequest, ApiResponse, ErrorShutdown, HandshakeResponse, LogUploadIntentRequest, LogUploadIntentResponse, LogUploadRequest,
  LogUploadResponse, OpaqueRequest, OpaqueResponse, PongResponse, SankeyIntentRequest, SankeyIntentResponse, SankeyPathUploadRequest,
  SankeyPathUploadResponse, StatsUploadRequest, StatsUploadResponse,
};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use hx::{eq, Hx, Rng};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
use tokio::sync::oneshot::error::TryRecvError;
use tokio::sync::oneshot::Receiver;

// One upload, as its requester sees it.
enum Rx { Up(Receiver<UploadResponse>), In(Receiver<IntentResponse>) }
// waiting, answered (uuid, accepted), failed
#[derive(Clone, Debug, PartialEq)]
enum State { Waiting, Answered(String, bool), Failed }
struct Tracks { rx: Vec<(Rx, State)>, want: Vec<State>, up: BTreeMap<String, usize>, int: BTreeMap<String, usize> }
impl Tracks {
  fn new() -> Self { Self { rx: vec![], want: vec![], up: BTreeMap::new(), int: BTreeMap::new() } }
  fn wait(&mut self, rx: Rx) -> usize { self.rx.push((rx, State::Waiting)); self.want.push(State::Waiting); self.rx.len() - 1 }
  // Takes over the identifier: whoever waited for it before can no longer be answered.
  fn track(&mut self, id: &str, i: usize) {
    let p = if matches!(self.rx[i].0, Rx::Up(_)) { &mut self.up } else { &mut self.int };
    if let Some(old) = p.insert(id.into(), i) { self.want[old] = State::Failed; }
  }
  fn resolve(&mut self, up: bool, id: &str, yes: bool) -> bool {
    match (if up { &mut self.up } else { &mut self.int }).remove(id) { Some(i) => { self.want[i] = State::Answered(id.into(), yes); true }, None => false }
  }
  fn teardown(&mut self) {
    for i in std::mem::take(&mut self.up).into_values().chain(std::mem::take(&mut self.int).into_values()) { self.want[i] = State::Failed; }
  }
  fn check(&mut self) -> Result<(), String> {
    for (i, (rx, got)) in self.rx.iter_mut().enumerate() {
      if *got == State::Waiting {
        *got = match rx {
          Rx::Up(r) => match r.try_recv() { Ok(v) => State::Answered(v.uuid, v.success), Err(TryRecvError::Empty) => State::Waiting, Err(TryRecvError::Closed) => State::Failed },
          Rx::In(r) => match r.try_recv() { Ok(v) => State::Answered(v.uuid, matches!(v.decision, IntentDecision::UploadImmediately)), Err(TryRecvError::Empty) => State::Waiting, Err(TryRecvError::Closed) => State::Failed },
        };
      }
      eq!(*got, self.want[i], "upload {i}");
    }
    Ok(())
  }
}
fn id(r: &mut Rng) -> String { ["a", "b", "c", "d", ""][r.us(5)].into() }
fn error(r: &mut Rng) -> String { ["", "", "x", " "][r.us(4)].into() }

fn direct(r: &mut Rng, log: &mut Vec<String>) -> Result<(), String> {
  let mut t = Some(StateTracker::new());
  let mut m = Tracks::new();
  for n in 0 .. 2 + r.us(25) {
    let k = id(r);
    match r.us(9) {
      0 | 1 | 2 => {
        log.push(format!("track {k:?}"));
        let (u, rx) = Tracked::new(k.clone(), n);
        let u = if r.chance(1, 3) { u.map_payload(|n| n + 1).map_payload(|n| n - 1) } else { u };
        let i = m.wait(Rx::Up(rx));
        eq!(t.as_mut().unwrap().track_upload(u), n, "payload");
        m.track(&k, i);
      },
      3 | 4 => {
        log.push(format!("intent {k:?}"));
        let (u, rx) = Tracked::new(k.clone(), n);
        let i = m.wait(Rx::In(rx));
        eq!(t.as_mut().unwrap().track_intent(u), n, "payload");
        m.track(&k, i);
      },
      5 | 6 => {
        let e = error(r);
        log.push(format!("response {k:?} {e:?}"));
        let ok = m.resolve(true, &k, e.is_empty());
        eq!(t.as_mut().unwrap().resolve_pending_upload(&k, &e).is_ok(), ok, "response {k:?} accepted");
      },
      7 => {
        let yes = r.chance(1, 2);
        log.push(format!("decision {k:?} {yes}"));
        let ok = m.resolve(false, &k, yes);
        let d = if yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
        eq!(t.as_mut().unwrap().resolve_intent(&k, IntentResponse { uuid: k.clone(), decision: d }).is_ok(), ok, "decision {k:?} accepted");
      },
      _ if r.chance(1, 6) => { log.push("teardown".into()); t = Some(StateTracker::default()); m.teardown(); },
      // The requester goes away: answering is no error, and concerns nobody else.
      _ => if r.chance(1, 3) {
        let (u, rx) = Tracked::<_, UploadResponse>::new(k.clone(), n);
        drop(rx);
        log.push(format!("track {k:?} for nobody"));
        let i = m.wait(Rx::Up(tokio::sync::oneshot::channel().1));
        m.rx[i].1 = State::Failed;
        m.want[i] = State::Failed;
        t.as_mut().unwrap().track_upload(u);
        m.track(&k, i);
        let e = error(r);
        m.resolve(true, &k, true);
        m.want[i] = State::Failed;
        eq!(t.as_mut().unwrap().resolve_pending_upload(&k, &e).is_ok(), true, "response for somebody gone");
      },
    }
    m.check()?;
  }
  drop(t);
  m.teardown();
  m.check()
}

// ---- The whole task.
struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str { "test" }
  fn platform(&self) -> &Platform { &Platform::Other("unknown", "unknown") }
  fn collect_inner(&self) -> HashMap<String, String> { HashMap::new() }
}
struct NoLog;
impl bd_internal_logging::Logger for NoLog { fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {} }
#[derive(Clone)]
struct Net { events: Arc<Mutex<Option<Sender<StreamEvent>>>>, sent: UnboundedSender<Vec<u8>>, streams: Arc<Mutex<u32>> }
struct Stream(UnboundedSender<Vec<u8>>);
#[async_trait::async_trait]
impl<T> PlatformNetworkManager<T> for Net {
  async fn start_stream(&self, event_tx: Sender<StreamEvent>, _: &T, _: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    *self.events.lock().unwrap() = Some(event_tx);
    *self.streams.lock().unwrap() += 1;
    Ok(Box::new(Stream(self.sent.clone())))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> { let _ = self.0.send(data.to_vec()); Ok(()) }
}
fn upload(r: &mut Rng, k: &str) -> (DataUpload, Rx, &'static str) {
  macro_rules! up { ($v:ident, $m:expr, $rx:ident, $n:expr) => {{ let (t, rx) = Tracked::new(k.to_string(), $m); (DataUpload::$v(t), Rx::$rx(rx), $n) }} }
  match r.us(6) {
    0 => up!(LogsUploadRequest, LogUploadRequest { upload_uuid: k.into(), ..Default::default() }, Up, "logs"),
    1 => up!(StatsUploadRequest, StatsUploadRequest { upload_uuid: k.into(), ..Default::default() }, Up, "stats"),
    2 => up!(SankeyPathUpload, SankeyPathUploadRequest { upload_uuid: k.into(), ..Default::default() }, Up, "path"),
    3 => up!(OpaqueRequest, OpaqueRequest { uuid: k.into(), ..Default::default() }, Up, "opaque"),
    4 => up!(LogsUploadIntentRequest, LogUploadIntentRequest { intent_uuid: k.into(), ..Default::default() }, In, "log intent"),
    _ => up!(SankeyPathUploadIntentRequest, SankeyIntentRequest { intent_uuid: k.into(), ..Default::default() }, In, "path intent"),
  }
}
fn sent_id(q: &ApiRequest) -> Option<String> {
  Some(match q.request_type.as_ref()? {
    Request_type::LogUpload(x) => format!("logs {}", x.upload_uuid),
    Request_type::StatsUpload(x) => format!("stats {}", x.upload_uuid),
    Request_type::SankeyPathUpload(x) => format!("path {}", x.upload_uuid),
    Request_type::OpaqueUpload(x) => format!("opaque {}", x.uuid),
    Request_type::LogUploadIntent(x) => format!("log intent {}", x.intent_uuid),
    Request_type::SankeyIntent(x) => format!("path intent {}", x.intent_uuid),
    _ => return None,
  })
}
// A response; whether it answers uploads or intents (or nothing), the identifier, whether it is a yes.
fn response(r: &mut Rng, k: &str) -> (Response_type, Option<(bool, bool)>, String) {
  let e = error(r);
  let yes = e.is_empty();
  let up = Some((true, yes));
  match r.us(8) {
    0 => (Response_type::LogUpload(LogUploadResponse { upload_uuid: k.into(), error: e, logs_dropped: r.us(3) as u32, ..Default::default() }), up, format!("logs {k:?} {yes}")),
    1 => (Response_type::StatsUpload(StatsUploadResponse { upload_uuid: k.into(), error: e, ..Default::default() }), up, format!("stats {k:?} {yes}")),
    2 => (Response_type::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: k.into(), error: e, ..Default::default() }), up, format!("path {k:?} {yes}")),
    3 => (Response_type::OpaqueUpload(OpaqueResponse { uuid: k.into(), error: if yes && r.chance(1, 2) { None } else { Some(e) }, ..Default::default() }), up, format!("opaque {k:?} {yes}")),
    4 => {
      let (d, yes) = match r.us(3) { 0 => (None, false), 1 => (Some(li::Decision::Drop(Default::default())), false), _ => (Some(li::Decision::UploadImmediately(Default::default())), true) };
      (Response_type::LogUploadIntent(LogUploadIntentResponse { intent_uuid: k.into(), decision: d, ..Default::default() }), Some((false, yes)), format!("log intent {k:?} {yes}"))
    },
    5 => {
      let (d, yes) = match r.us(3) { 0 => (None, false), 1 => (Some(si::Decision::Drop(Default::default())), false), _ => (Some(si::Decision::UploadImmediately(Default::default())), true) };
      (Response_type::SankeyIntentResponse(SankeyIntentResponse { intent_uuid: k.into(), decision: d, ..Default::default() }), Some((false, yes)), format!("path intent {k:?} {yes}"))
    },
    6 => (Response_type::Pong(PongResponse::default()), None, "pong".into()),
    _ => (Response_type::ErrorShutdown(ErrorShutdown::default()), None, "error shutdown".into()),
  }
}
fn frame(t: Response_type) -> Vec<u8> {
  let mut e = Encoder::new(None);
  e.encode(&ApiResponse { response_type: Some(t), ..Default::default() }).to_vec()
}
async fn settle() { tokio::time::sleep(std::time::Duration::from_micros(100)).await }

async fn whole(r: &mut Rng, log: &mut Vec<String>) -> Result<(), String> {
  let dir = hx::scratch().join("c22");
  std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
  let (sent_tx, mut sent_rx) = unbounded_channel();
  let net = Net { events: Arc::default(), sent: sent_tx, streams: Arc::default() };
  let trigger = ComponentShutdownTrigger::default();
  let (data_tx, data_rx) = tokio::sync::mpsc::channel(64);
  let (flush_tx, _flush_rx) = tokio::sync::mpsc::channel(1);
  let collector = Collector::default();
  let api = Api::new(
    dir.clone(), "key".into(), Box::new(net.clone()), trigger.make_shutdown(), data_rx, flush_tx, Arc::new(Meta), ConfigLoader::new(&dir), vec![],
    Arc::new(bd_time::TestTimeProvider::new(time::OffsetDateTime::UNIX_EPOCH)), Arc::new(SimpleNetworkQualityProvider::default()), Arc::new(NoLog), &collector.scope("api"),
  ).map_err(|e| e.to_string())?;
  let task = tokio::task::spawn(api.start());
  let mut m = Tracks::new();
  let mut dec: Decoder<ApiRequest> = Decoder::new(None, OptimizeFor::Memory);
  // Requests handed over while no stream was up, and requests the server should see.
  let mut queued: VecDeque<(String, usize, String)> = VecDeque::new();
  let mut expect: VecDeque<String> = VecDeque::new();
  let mut up = false;
  let mut dead = false;
  for _ in 0 .. 4 + r.us(30) {
    if dead { break; }
    if !up && r.chance(2, 3) {
      // Until the next stream is started; then the handshake, perhaps with answers right behind it.
      let before = net.events.lock().unwrap().is_none();
      if before {
        for _ in 0 .. 1000 { if net.events.lock().unwrap().is_some() { break; } tokio::time::sleep(std::time::Duration::from_secs(10)).await; }
      }
      let tx = net.events.lock().unwrap().clone().ok_or("no new stream")?;
      settle().await;
      let mut b = frame(Response_type::Handshake(HandshakeResponse::default()));
      log.push("handshake".into());
      if r.chance(1, 4) {
        let k = id(r);
        let (t, what, d) = response(r, &k);
        log.push(format!("with {d}"));
        b.extend(frame(t));
        // Nothing is tracked on a new stream yet.
        if what.is_some() { dead = true; }
      }
      tx.send(StreamEvent::Data(b)).await.map_err(|e| e.to_string())?;
      if !dead {
        up = true;
        for (k, i, n) in queued.drain(..) { m.track(&k, i); expect.push_back(n); }
      }
    } else if r.chance(1, 2) || !up {
      for _ in 0 .. 1 + r.us(3) {
        let k = id(r);
        let (u, rx, n) = upload(r, &k);
        log.push(format!("upload {n} {k:?}"));
        let i = m.wait(rx);
        data_tx.send(u).await.map_err(|e| e.to_string())?;
        if up { m.track(&k, i); expect.push_back(format!("{n} {k}")); } else { queued.push_back((k.clone(), i, format!("{n} {k}"))); }
      }
    } else if r.chance(1, 12) {
      log.push("stream closed".into());
      let tx = net.events.lock().unwrap().take().ok_or("no stream")?;
      tx.send(StreamEvent::StreamClosed("test".into())).await.map_err(|e| e.to_string())?;
      drop(tx);
      up = false;
      // Who waited is told at the latest when the next stream is started.
      for _ in 0 .. 1000 { settle().await; if net.events.lock().unwrap().is_some() { break; } tokio::time::sleep(std::time::Duration::from_secs(10)).await; }
      m.teardown();
    } else {
      let mut b = vec![];
      for _ in 0 .. 1 + r.us(3) {
        // Mostly identifiers that are waited for.
        let mut k = id(r);
        let (mut t, mut what, mut d) = response(r, &k);
        for _ in 0 .. 30 {
          let Some((u, _)) = what else { break };
          if (if u { &m.up } else { &m.int }).contains_key(&k) || r.chance(1, 200) { break; }
          k = id(r);
          (t, what, d) = response(r, &k);
        }
        log.push(format!("response {d}"));
        b.extend(frame(t));
        if let Some((u, yes)) = what {
          if !dead && !m.resolve(u, &k, yes) { dead = true; log.push("(unknown)".into()); }
        }
      }
      let tx = net.events.lock().unwrap().clone().ok_or("no stream")?;
      let cut = r.us(b.len() + 1);
      for part in [&b[.. cut], &b[cut ..]] { if !part.is_empty() { let _ = tx.send(StreamEvent::Data(part.to_vec())).await; } }
    }
    settle().await;
    if dead { m.teardown(); for (_, i, _) in queued.drain(..) { m.want[i] = State::Failed; } }
    while let Ok(b) = sent_rx.try_recv() {
      for q in dec.decode_data(&b).map_err(|e| e.to_string())? {
        if let Some(n) = sent_id(&q) { eq!(Some(n), expect.pop_front(), "request sent"); }
      }
    }
    eq!(expect.pop_front(), None, "request not sent");
    eq!(task.is_finished(), dead, "task ended");
    m.check()?;
  }
  if !dead {
    log.push("shutdown".into());
    tokio::select! { () = trigger.shutdown() => {}, () = tokio::time::sleep(std::time::Duration::from_secs(3600)) => return Err("shutdown does not end".into()) }
    settle().await;
    m.teardown();
    for (_, i, _) in queued.drain(..) { m.want[i] = State::Failed; }
    m.check()?;
  }
  let ended = task.await.map_err(|e| e.to_string())?;
  eq!(ended.is_err(), dead, "task reports an error: {ended:?}");
  Ok(())
}

fn main() {
  let mut h = Hx::new("a case is a history of uploads, responses and teardowns, on the tracker alone or on the whole Api task; distinct by history");
  for i in 0 .. h.n(20_000, 500_000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let r = &mut Rng::new(seed);
    let log = std::cell::RefCell::new(vec![]);
    h.case(true, || format!("seed {seed}, tracker: {}", log.borrow().join("; ")), || direct(r, &mut log.borrow_mut()));
  }
  for i in 0 .. h.n(1500, 50_000) {
    let seed = h.seed.wrapping_mul(2_000_003) + i;
    let r = &mut Rng::new(seed);
    let log = std::cell::RefCell::new(vec![]);
    h.case(true, || format!("seed {seed}, task: {}", log.borrow().join("; ")), || {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
      rt.block_on(whole(r, &mut log.borrow_mut()))
    });
  }
  h.finish()
}
