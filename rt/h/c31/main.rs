//! deps: bd-api bd-client-common bd-client-stats-store bd-grpc-codec bd-internal-logging bd-metadata bd-network-quality bd-proto bd-runtime bd-shutdown bd-time protobuf time tokio async-trait anyhow
//! The real Api task over a fake network, in virtual time, against a server that answers, stays silent, closes,
//! talks out of turn; oracle: what each stream must have been started with and must have carried, and when.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::Tracked;
use bd_api::{ConfigurationUpdate, DataUpload, Metadata, Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, TriggerUpload};
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Decoder, Decompression, Encoder, OptimizeFor};
use bd_internal_logging::{LogFields, LogLevel, LogType};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::{
  ApiRequest, ApiResponse, ConfigurationUpdate as ConfigUpdate, ConfigurationUpdateAck, ErrorShutdown, FlushBuffers, HandshakeRequest, HandshakeResponse,
  OpaqueRequest, PongResponse, RuntimeUpdate,
};
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::logging::payload::data::Data_type;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use hx::{ck, eq, Hx, Rng};
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::{Receiver, Sender};
use tokio::time::Instant;

const MS: Duration = Duration::from_millis(1);
struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}
struct Meta(HashMap<String, String>);
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str { "1.2.3" }
  fn platform(&self) -> &Platform { &Platform::Other("an os", "a kind") }
  fn collect_inner(&self) -> HashMap<String, String> { self.0.clone() }
}
struct NoLog;
impl bd_internal_logging::Logger for NoLog { fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {} }

// What the fake network saw: streams started, bytes sent.
struct Started { headers: HashMap<String, String>, quality: NetworkQuality, at: Instant, loaded: usize, tx: Option<Sender<StreamEvent>> }
#[derive(Default)]
struct Seen { streams: Vec<Started>, sent: Vec<(usize, Instant, Vec<u8>)>, fail_start: bool, fail_send: Option<u32> }
#[derive(Clone)]
struct Net { seen: Arc<Mutex<Seen>>, quality: Arc<SimpleNetworkQualityProvider>, pipes: Arc<Mutex<Vec<Pipe>>> }
struct Stream(usize, Arc<Mutex<Seen>>);
#[async_trait::async_trait]
impl<T> PlatformNetworkManager<T> for Net {
  async fn start_stream(&self, tx: Sender<StreamEvent>, _: &T, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut s = self.seen.lock().unwrap();
    let headers = headers.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
    let loaded = self.pipes.lock().unwrap().iter().filter(|p| p.loaded == 1).count();
    s.streams.push(Started { headers, quality: self.quality.get_network_quality(), at: Instant::now(), loaded, tx: Some(tx) });
    if s.fail_start { anyhow::bail!("no network") }
    Ok(Box::new(Stream(s.streams.len() - 1, self.seen.clone())))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let mut s = self.1.lock().unwrap();
    if let Some(n) = s.fail_send.as_mut() { if *n == 0 { anyhow::bail!("broken pipe") } *n -= 1; }
    s.sent.push((self.0, Instant::now(), data.to_vec()));
    Ok(())
  }
}
// A configuration pipeline: it takes every third nonce or so, and says so.
#[derive(Default, Clone)]
struct Pipe { nonce: String, loaded: usize, completed: Vec<usize>, offered: Vec<String> }
struct Pipeline(usize, Arc<Mutex<Vec<Pipe>>>);
fn takes(p: usize, nonce: &str) -> bool { nonce.bytes().map(usize::from).sum::<usize>() % 3 != p }
fn nonce_of(r: &ApiResponse) -> String {
  match &r.response_type {
    Some(Response_type::ConfigurationUpdate(u)) => format!("c{}", u.version_nonce),
    Some(Response_type::RuntimeUpdate(u)) => format!("r{}", u.version_nonce),
    _ => "?".into(),
  }
}
#[async_trait::async_trait]
impl ConfigurationUpdate for Pipeline {
  async fn try_apply_config(&mut self, response: &ApiResponse) -> Option<ApiRequest> {
    let p = &mut self.1.lock().unwrap()[self.0];
    let n = nonce_of(response);
    p.offered.push(n.clone());
    if !takes(self.0, &n) { return None; }
    p.nonce = n.clone();
    Some(ApiRequest { request_type: Some(Request_type::ConfigurationUpdateAck(ConfigurationUpdateAck { last_applied_version_nonce: format!("{} {n}", self.0), ..Default::default() })), ..Default::default() })
  }
  async fn try_load_persisted_config(&mut self) { let p = &mut self.1.lock().unwrap()[self.0]; p.loaded += 1; p.nonce = format!("cached {}", self.0); }
  fn partial_handshake(&self) -> HandshakeRequest {
    let n = self.1.lock().unwrap()[self.0].nonce.clone();
    match self.0 { 0 => HandshakeRequest { configuration_version_nonce: n, ..Default::default() }, _ => HandshakeRequest { runtime_version_nonce: n, ..Default::default() } }
  }
  fn on_handshake_complete(&self) { let p = &mut self.1.lock().unwrap()[self.0]; let k = p.offered.len(); p.completed.push(k); }
}
fn frame(t: Response_type) -> Vec<u8> { Encoder::new(None).encode(&ApiResponse { response_type: Some(t), ..Default::default() }).to_vec() }
async fn settle() { tokio::time::sleep(Duration::from_micros(100)).await }

// The clauses about time: when the next stream may start.
struct Backoff { initial: Duration, max: Duration, cur: Duration, changed: bool }
impl Backoff {
  fn next(&mut self) -> (Duration, Duration) {
    let c = self.cur;
    self.cur = if c.mul_f64(1.5) >= self.max { self.max } else { c.mul_f64(1.5) };
    (c / 2, c + c / 2 + 2 * MS)
  }
}
struct Run {
  net: Net,
  loader: Arc<ConfigLoader>,
  data: Sender<DataUpload>,
  flush: Receiver<TriggerUpload>,
  queued: VecDeque<String>,
  taken: usize, // records of net.sent judged so far
  uploads: u32,
  nonces: u32,
  compress: bool,
  backoff: Backoff,
  meta: HashMap<String, String>,
  flags: HashMap<String, value::Type>,
  // pipelines as they should be
  want: Vec<Pipe>,
}
impl Run {
  fn flag(&mut self, r: &mut Rng, log: &mut Vec<String>) {
    match r.us(3) {
      0 => { let v = r.chance(1, 2); log.push(format!("compression {v}")); self.compress = v; self.flags.insert("api.requests_compression_enabled".into(), value::Type::BoolValue(v)); },
      1 => { let v = *r.pick(&[1u32, 100, 500, 7000, 600_000]); log.push(format!("initial backoff {v}")); let v_ = Duration::from_millis(v.into()); self.backoff.changed |= v_ != self.backoff.initial; self.backoff.initial = v_; self.flags.insert("api.initial_backoff_interval_ms".into(), value::Type::UintValue(v)); },
      _ => { let v = *r.pick(&[1u32, 1000, 20_000, 300_000]); log.push(format!("max backoff {v}")); let v_ = Duration::from_millis(v.into()); self.backoff.changed |= v_ != self.backoff.max; self.backoff.max = v_; self.flags.insert("api.max_backoff_interval_ms".into(), value::Type::UintValue(v)); },
    }
    let rt = Runtime { values: self.flags.iter().map(|(k, v)| (k.clone(), Value { type_: Some(v.clone()), ..Default::default() })).collect(), ..Default::default() };
    self.loader.update_snapshot(&RuntimeUpdate { version_nonce: "n".into(), runtime: Some(rt).into(), ..Default::default() });
  }
  async fn upload(&mut self, log: &mut Vec<String>) {
    let k = format!("u{}", self.uploads);
    self.uploads += 1;
    log.push(format!("upload {k}"));
    let (t, _rx) = Tracked::new(k.clone(), OpaqueRequest { uuid: k.clone(), ..Default::default() });
    let _ = self.data.send(DataUpload::OpaqueRequest(t)).await;
    self.queued.push_back(format!("upload {k}"));
  }
  // What was sent since the last look: (stream, when, what).
  fn sent(&mut self) -> Result<Vec<(usize, Instant, String, Option<HandshakeRequest>)>, String> {
    let s = self.net.seen.lock().unwrap();
    let mut v = vec![];
    for (k, at, b) in &s.sent[self.taken ..] {
      ck!(!b.is_empty() && (b[0] == 0 || s.streams[*k].headers.contains_key("grpc-encoding")), "compressed bytes on a stream not announced as compressed");
      let mut d: Decoder<ApiRequest> = Decoder::new(Some(Decompression::StatelessZlib), OptimizeFor::Memory);
      let q = d.decode_data(b).map_err(|e| e.to_string())?;
      eq!(q.len(), 1, "requests in one send");
      let mut h = None;
      let what = match q[0].request_type.clone() {
        Some(Request_type::Handshake(x)) => { h = Some(x); "handshake".into() },
        Some(Request_type::Ping(_)) => "ping".into(),
        Some(Request_type::OpaqueUpload(x)) => format!("upload {}", x.uuid),
        Some(Request_type::ConfigurationUpdateAck(x)) => format!("ack {}", x.last_applied_version_nonce),
        x => format!("{x:?}"),
      };
      v.push((*k, *at, what, h));
    }
    self.taken = s.sent.len();
    Ok(v)
  }
  // A configuration response, and the acks it must lead to.
  fn update(&mut self, r: &mut Rng, log: &mut Vec<String>, expect: &mut VecDeque<String>) -> Vec<u8> {
    let n = format!("{}", self.nonces);
    self.nonces += 1;
    let (t, n) = if r.chance(1, 2) {
      (Response_type::ConfigurationUpdate(ConfigUpdate { version_nonce: n.clone(), ..Default::default() }), format!("c{n}"))
    } else {
      (Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: n.clone(), ..Default::default() }), format!("r{n}"))
    };
    log.push(format!("config {n}"));
    for (p, w) in self.want.iter_mut().enumerate() {
      w.offered.push(n.clone());
      if takes(p, &n) { w.nonce = n.clone(); expect.push_back(format!("ack {p} {n}")); }
    }
    frame(t)
  }
  fn pipes(&self) -> Result<(), String> {
    for (p, (g, w)) in self.net.pipes.lock().unwrap().iter().zip(&self.want).enumerate() {
      eq!(g.loaded, 1, "pipeline {p}: cached configuration loaded");
      eq!(g.offered, w.offered, "pipeline {p}: responses offered");
      eq!(g.completed, w.completed, "pipeline {p}: handshakes announced, with responses offered before");
    }
    Ok(())
  }
}
async fn tell(tx: &Sender<StreamEvent>, r: &mut Rng, b: Vec<u8>) {
  let cut = r.us(b.len() + 1);
  for part in [&b[.. cut], &b[cut ..]] { if !part.is_empty() || r.chance(1, 5) { let _ = tx.send(StreamEvent::Data(part.to_vec())).await; if r.chance(1, 3) { settle().await; } } }
}

#[derive(PartialEq, Debug)]
enum End { Runs, Error, Fine }

async fn history(r: &mut Rng, dir: &std::path::Path, log: &mut Vec<String>) -> Result<(), String> {
  let quality = Arc::new(SimpleNetworkQualityProvider::default());
  let pipes = r.us(3);
  let net = Net { seen: Arc::default(), quality: quality.clone(), pipes: Arc::new(Mutex::new(vec![Pipe::default(); pipes])) };
  let trigger = ComponentShutdownTrigger::default();
  let (data_tx, data_rx) = tokio::sync::mpsc::channel(64);
  let (flush_tx, flush_rx) = tokio::sync::mpsc::channel(64);
  let collector = Collector::default();
  let loader = ConfigLoader::new(dir);
  let mut meta: HashMap<String, String> = (0 .. r.us(4)).map(|k| (format!("m{k}"), "x".repeat(r.us(60)))).collect();
  let app = if r.chance(2, 3) { Some("an app".to_string()) } else { None };
  if let Some(a) = &app { meta.insert("app_id".into(), a.clone()); }
  let key = *r.pick(&["key", ""]);
  let mut run = Run {
    net: net.clone(), loader: loader.clone(), data: data_tx, flush: flush_rx, queued: VecDeque::new(), taken: 0, uploads: 0, nonces: 0, compress: true,
    backoff: Backoff { initial: Duration::from_millis(500), max: Duration::from_secs(300), cur: Duration::from_millis(500), changed: false },
    meta: meta.clone(), flags: HashMap::new(),
    want: (0 .. pipes).map(|p| Pipe { nonce: format!("cached {p}"), loaded: 1, ..Default::default() }).collect(),
  };
  while r.chance(1, 3) { run.flag(r, log); }
  let api = Api::new(
    dir.to_path_buf(), key.into(), Box::new(net.clone()), trigger.make_shutdown(), data_rx, flush_tx, Arc::new(Meta(meta)), loader,
    (0 .. pipes).map(|p| Box::new(Pipeline(p, net.pipes.clone())) as Box<dyn ConfigurationUpdate>).collect(),
    Arc::new(bd_time::TestTimeProvider::new(time::OffsetDateTime::UNIX_EPOCH)), quality.clone(), Arc::new(NoLog), &collector.scope("api"),
  ).map_err(|e| e.to_string())?;
  while r.chance(1, 4) { run.flag(r, log); }
  // The task reads the flags when it first runs.
  run.backoff.cur = run.backoff.initial;
  run.backoff.changed = false;
  let task = tokio::task::spawn(api.start());
  let mut end = End::Runs;
  let mut reason: Option<String> = None;
  let mut window = (Instant::now(), Instant::now() + 2 * MS);
  let mut down_since: Option<Instant> = None;
  for k in 0 .. 1 + r.us(7) {
    // ---- Waiting for stream k, perhaps in vain.
    while r.chance(1, 5) { run.upload(log).await; }
    let mut broken = false;
    // Only while it cannot have started yet.
    let still = k == 0 || window.0 > Instant::now() + 5 * MS;
    if k > 0 && still && r.chance(1, 25) { log.push("the network refuses streams".into()); net.seen.lock().unwrap().fail_start = true; broken = true; }
    else if still && r.chance(1, 25) { log.push("the handshake cannot be sent".into()); net.seen.lock().unwrap().fail_send = Some(0); broken = true; }
    if k > 0 && still && r.chance(1, 30) {
      log.push("shutdown before a stream".into());
      end = End::Fine;
      break;
    }
    let mut changed_at = None;
    if still && k > 0 && r.chance(1, 5) { run.flag(r, log); changed_at = Some(Instant::now()); }
    let until = window.1 + 5 * MS;
    while net.seen.lock().unwrap().streams.len() <= k && Instant::now() < until { tokio::time::sleep((until - Instant::now()).min((window.1 - window.0).max(MS))).await; }
    settle().await;
    let (at, tx) = {
      let mut s = net.seen.lock().unwrap();
      eq!(s.streams.len(), k + 1, "streams by {until:?}, allowed since {:?}", window.0);
      let st = s.streams.last_mut().unwrap();
      ck!(window.0 <= st.at && st.at <= window.1, "stream {k} started {:?} after the earliest, {:?} before the latest moment allowed", st.at.checked_duration_since(window.0), window.1.checked_duration_since(st.at));
      if let Some(c) = changed_at { if st.at < c { return Err("stream started early".into()); } }
      let mut want: HashMap<String, String> = [("x-bitdrift-api-key", key), ("x-bitdrift-app-id", app.as_deref().unwrap_or("")), ("content-type", "application/grpc")].into_iter().map(|(a, b)| (a.into(), b.into())).collect();
      if run.compress { for h in ["grpc-encoding", "grpc-accept-encoding"] { want.insert(h.into(), "deflate".into()); } }
      eq!(st.headers, want, "headers of stream {k}");
      eq!(st.loaded, pipes, "cached configurations loaded before stream {k}");
      let since = *down_since.get_or_insert(st.at);
      let away = st.at - since;
      if away + 3 * MS < Duration::from_secs(15) { eq!(st.quality, NetworkQuality::Unknown, "quality, {away:?} without a connection"); }
      if away > Duration::from_secs(15) + 3 * MS { eq!(st.quality, NetworkQuality::Offline, "quality, {away:?} without a connection"); }
      (st.at, st.tx.take().unwrap())
    };
    log.push(format!("stream {k} after {:?}", at - window.0));
    if run.backoff.changed { run.backoff.changed = false; run.backoff.cur = run.backoff.initial; }
    if broken { end = End::Error; break; }
    // ---- The handshake comes first, and nothing else.
    let got = run.sent()?;
    eq!(got.len(), 1, "sent at the start of stream {k}: {:?}", got.iter().map(|g| &g.2).collect::<Vec<_>>());
    let Some(h) = got[0].3.clone() else { return Err(format!("first on stream {k}: {}", got[0].2)) };
    eq!(got[0].0, k, "stream of the handshake");
    let said: HashMap<String, String> = h.static_device_metadata.iter().map(|(k, v)| (k.clone(), match &v.data_type { Some(Data_type::StringData(s)) => s.clone(), x => format!("{x:?}") })).collect();
    let mut want = run.meta.clone();
    want.insert("os".into(), "an os".into());
    want.insert("kind".into(), "a kind".into());
    want.insert("sdk_version".into(), "1.2.3".into());
    ck!(said.contains_key("config_version"), "no config_version in the handshake");
    want.insert("config_version".into(), said["config_version"].clone());
    eq!(said, want, "metadata in handshake {k}");
    eq!(h.previous_disconnect_reason, reason.take().unwrap_or_default(), "reason in handshake {k}");
    eq!(h.configuration_version_nonce, run.want.first().map(|p| p.nonce.clone()).unwrap_or_default(), "configuration nonce in handshake {k}");
    eq!(h.runtime_version_nonce, run.want.get(1).map(|p| p.nonce.clone()).unwrap_or_default(), "runtime nonce in handshake {k}");
    // ---- Until the server answers, silence.
    for _ in 0 .. r.us(3) {
      match r.us(4) {
        0 => run.upload(log).await,
        1 => { let d = *r.pick(&[1u64, 1000, 14_000, 100_000]); log.push(format!("{d} ms pass")); tokio::time::sleep(Duration::from_millis(d)).await; },
        2 => { let _ = tx.send(StreamEvent::Data(vec![])).await; },
        _ => if r.chance(1, 3) { run.flag(r, log); },
      }
    }
    settle().await;
    eq!(run.sent()?.len(), 0, "sent before the handshake was answered");
    ck!(!task.is_finished(), "task ended");
    let mut expect = VecDeque::new();
    let answer = if r.chance(1, 40) { 9 } else { r.us(8) };
    match answer {
      // Not accepted: closed, or told to go.
      0 | 1 => {
        let m = format!("reason {k}");
        if answer == 0 { let _ = tx.send(StreamEvent::StreamClosed(m.clone())).await; reason = Some(m); } else {
          let mut b = frame(Response_type::ErrorShutdown(ErrorShutdown { grpc_status: *r.pick(&[0, 1, 14, 17]), grpc_message: m.clone(), ..Default::default() }));
          if r.chance(1, 3) { b.extend(frame(Response_type::Handshake(HandshakeResponse::default()))); }
          let _ = tx.send(StreamEvent::Data(b)).await;
          reason = Some(format!("error shutdown: {m}"));
        }
        log.push(format!("refused, {reason:?}"));
        let (a, b) = run.backoff.next();
        window = (Instant::now() + a, Instant::now() + b);
        settle().await;
        run.pipes()?;
        continue;
      },
      9 => match r.us(4) {
        0 => { log.push("shutdown before the answer".into()); end = End::Fine; break; },
        1 => { log.push("garbage for an answer".into()); let _ = tx.send(StreamEvent::Data(vec![7, 0, 0, 0, 1, 255, 255])).await; settle().await; if task.is_finished() { end = End::Error; } else { end = End::Fine; } break; },
        _ => {
          log.push("something else for an answer".into());
          let mut b = frame(if r.chance(1, 2) { Response_type::Pong(PongResponse::default()) } else { Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: "early".into(), ..Default::default() }) });
          if r.chance(1, 2) { b.extend(frame(Response_type::Handshake(HandshakeResponse::default()))); }
          let _ = tx.send(StreamEvent::Data(b)).await;
          end = End::Error;
          break;
        },
      },
      _ => {},
    }
    // ---- The handshake is answered; a conversation.
    let ping = if r.chance(1, 3) { None } else { Some(Duration::from_millis(*r.pick(&[1000u64, 15_000, 61_500]))) };
    let settings = match ping { Some(p) => Some(StreamSettings { ping_interval: Some(protobuf::well_known_types::duration::Duration { seconds: p.as_secs() as i64, nanos: p.subsec_nanos() as i32, ..Default::default() }).into(), ..Default::default() }), None => if r.chance(1, 2) { Some(StreamSettings::default()) } else { None } };
    log.push(format!("accepted, ping {ping:?}"));
    let mut b = frame(Response_type::Handshake(HandshakeResponse { stream_settings: settings.into(), ..Default::default() }));
    let mut again = false;
    // Possibly with more right behind it, in the same piece.
    for _ in 0 .. r.us(3) {
      if r.chance(1, 30) { log.push("another handshake behind it".into()); b.extend(frame(Response_type::Handshake(HandshakeResponse::default()))); again = true; break; }
      let u = run.update(r, log, &mut expect); b.extend(u);
    }
    let whole = b.len();
    if r.chance(1, 3) { let cut = r.us(5); let _ = tx.send(StreamEvent::Data(b[.. cut].to_vec())).await; settle().await; let _ = tx.send(StreamEvent::Data(b[cut .. whole].to_vec())).await; } else { let _ = tx.send(StreamEvent::Data(b)).await; }
    settle().await;
    let since = Instant::now();
    if again {
      end = End::Error;
      // Announced only once what came with the handshake has been dealt with.
      run.pipes()?;
      break;
    }
    down_since = None;
    for w in &mut run.want { let n = w.offered.len(); w.completed.push(n); }
    expect.extend(run.queued.drain(..));
    let mut ping_at = ping.map(|p| since + p);
    let mut closed = false;
    for step in 0 .. 1 + r.us(14) {
      // What was sent: everything expected, in order, and the pings due.
      for (s, at, what, _) in run.sent()? {
        eq!(s, k, "stream of {what:?}");
        if what == "ping" {
          let due = ping_at.take().ok_or_else(|| format!("ping at {at:?}, none due"))?;
          ck!(due <= at + 3 * MS && at <= due + 3 * MS, "ping {:?} after, {:?} before it is due", at.checked_duration_since(due), due.checked_duration_since(at));
        } else { eq!(Some(what), expect.pop_front(), "sent on stream {k}"); }
      }
      eq!(expect.front(), None, "not sent on stream {k}");
      if let Some(due) = ping_at { ck!(Instant::now() <= due + 3 * MS, "ping not sent"); }
      ck!(!task.is_finished(), "task ended");
      eq!(quality.get_network_quality(), NetworkQuality::Online, "quality on a live stream");
      run.pipes()?;
      // Nothing is decided within 5 ms of a ping.
      if let Some(due) = ping_at { if due.saturating_duration_since(Instant::now()) < 5 * MS { tokio::time::sleep(10 * MS).await; continue; } }
      match r.us(12) {
        0 | 1 => { for _ in 0 .. 1 + r.us(3) { run.upload(log).await; } expect.extend(run.queued.drain(..)); },
        2 | 3 => { let mut b = vec![]; for _ in 0 .. 1 + r.us(2) { b.extend(run.update(r, log, &mut expect)); } tell(&tx, r, b).await; },
        4 | 5 => { log.push("pong".into()); tell(&tx, r, frame(Response_type::Pong(PongResponse::default()))).await; settle().await; ping_at = ping.map(|p| Instant::now() + p); },
        6 | 7 | 8 => {
          let d = *r.pick(&[10u64, 1000, 16_000, 58_000, 62_000]);
          log.push(format!("{d} ms pass"));
          tokio::time::sleep(Duration::from_millis(d)).await;
        },
        9 => {
          let ids: Vec<String> = (0 .. r.us(3)).map(|b| format!("buffer {b}")).collect();
          log.push(format!("flush {ids:?}"));
          tell(&tx, r, frame(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: ids.clone(), ..Default::default() }))).await;
          settle().await;
          let t = run.flush.try_recv().map_err(|e| format!("flush not passed on: {e}"))?;
          eq!(t.buffer_ids, ids, "buffers to flush");
        },
        10 => if r.chance(1, 4) { run.flag(r, log); } else if r.chance(1, 4) { tell(&tx, r, frame(Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 14, grpc_message: "soon".into(), ..Default::default() }))).await },
        _ => if r.chance(1, 10) {
          log.push("handshake again".into());
          let mut b = run.update(r, log, &mut expect);
          b.extend(frame(Response_type::Handshake(HandshakeResponse::default())));
          let _ = tx.send(StreamEvent::Data(b)).await;
          settle().await;
          for (_, _, what, _) in run.sent()? { eq!(Some(what), expect.pop_front(), "sent on stream {k}"); }
          eq!(expect.front(), None, "not sent on stream {k}");
          end = End::Error;
          break;
        } else if r.chance(1, 12) {
          log.push("the stream breaks".into());
          net.seen.lock().unwrap().fail_send = Some(0);
          run.upload(log).await;
          end = End::Error;
          break;
        } else if step > 0 {
          let m = format!("closed {k}");
          // Not within a second of the one minute.
          let lived = Instant::now() - since;
          if lived > Duration::from_secs(59) && lived < Duration::from_secs(61) { continue; }
          log.push(format!("{m} after {lived:?}"));
          let _ = tx.send(StreamEvent::StreamClosed(m.clone())).await;
          reason = Some(m);
          let now = Instant::now();
          window = if lived > Duration::from_secs(60) { run.backoff.cur = run.backoff.initial_now(); (now, now + 2 * MS) } else { let (a, b) = run.backoff.next(); (now + a, now + b) };
          closed = true;
          settle().await;
          break;
        },
      }
      settle().await;
      if let Ok(t) = run.flush.try_recv() { return Err(format!("flush nobody asked for: {:?}", t.buffer_ids)); }
    }
    if end != End::Runs || !closed { break; }
  }
  settle().await;
  if end == End::Error {
    ck!(task.is_finished(), "task goes on after an error");
    ck!(task.await.map_err(|e| e.to_string())?.is_err(), "task ended without the error");
    return Ok(());
  }
  ck!(!task.is_finished(), "task ended");
  // A stream due about now may or may not start.
  if (window.0 .. window.1 + 5 * MS).contains(&Instant::now()) || window.0.saturating_duration_since(Instant::now()) < 5 * MS { tokio::time::sleep(window.1.saturating_duration_since(Instant::now()) + 10 * MS).await; }
  let streams = net.seen.lock().unwrap().streams.len();
  log.push("shutdown".into());
  tokio::select! { () = trigger.shutdown() => {}, () = tokio::time::sleep(Duration::from_secs(3600)) => return Err("shutdown does not end".into()) }
  task.await.map_err(|e| e.to_string())?.map_err(|e| format!("task after shutdown: {e}"))?;
  eq!(net.seen.lock().unwrap().streams.len(), streams, "streams after shutdown");
  Ok(())
}
impl Backoff {
  // A reset goes back to what the policy was made with; a change since then makes a new one anyway.
  fn initial_now(&self) -> Duration { self.initial }
}

fn main() {
  UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let mut h = Hx::new("a history of streams of one Api task: what the server answers and when, uploads, configurations, flags and failures vary; distinct by history");
  let base = hx::scratch();
  for i in 0 .. h.n(3000, 100_000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let r = &mut Rng::new(seed);
    let log = std::cell::RefCell::new(vec![]);
    let dir = base.join("a");
    std::fs::create_dir_all(&dir).unwrap();
    h.case(true, || format!("seed {seed}: {}", log.borrow().join("; ")), || {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
      rt.block_on(history(r, &dir, &mut log.borrow_mut()))
    });
    let _ = std::fs::remove_dir_all(&dir);
  }
  h.finish()
}
