//! deps: bd-api bd-client-common bd-client-stats-store bd-grpc-codec bd-internal-logging bd-metadata bd-proto bd-runtime bd-shutdown bd-time protobuf time tokio async-trait anyhow
//! The real Api task, start after start over one SDK directory, with a server that refuses, answers or orders a
//! kill; oracle: until when this client must stay silent, and for which key.
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::Tracked;
use bd_api::{DataUpload, Metadata, Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_common::file::{read_compressed_protobuf, write_compressed_protobuf};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Encoder, OptimizeFor};
use bd_internal_logging::{LogFields, LogLevel, LogType};
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::{ApiResponse, ClientKillFile, ErrorShutdown, HandshakeResponse, OpaqueRequest, PongResponse, RuntimeUpdate};
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, RuntimeManager};
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::{TestTimeProvider, TimestampExt};
use hx::{ck, eq, Hx, Rng};
use std::collections::HashMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use time::{Duration, OffsetDateTime};
use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}
struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str { "test" }
  fn platform(&self) -> &Platform { &Platform::Other("unknown", "unknown") }
  fn collect_inner(&self) -> HashMap<String, String> { HashMap::new() }
}
struct NoLog;
impl bd_internal_logging::Logger for NoLog { fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {} }
#[derive(Clone)]
struct Net { events: Arc<Mutex<Option<Sender<StreamEvent>>>>, sent: UnboundedSender<Vec<u8>>, streams: Arc<Mutex<u32>> }
struct Stream(UnboundedSender<Vec<u8>>);
#[async_trait::async_trait]
impl<T> PlatformNetworkManager<T> for Net {
  async fn start_stream(&self, event_tx: Sender<StreamEvent>, _: &T, _: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    *self.events.lock().unwrap() = Some(event_tx);
    *self.streams.lock().unwrap() += 1;
    Ok(Box::new(Stream(self.sent.clone())))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> { let _ = self.0.send(data.to_vec()); Ok(()) }
}
fn frame(t: Response_type) -> Vec<u8> { Encoder::new(None).encode(&ApiResponse { response_type: Some(t), ..Default::default() }).to_vec() }
async fn settle() { tokio::time::sleep(std::time::Duration::from_micros(100)).await }

// What the flags are set to: milliseconds, or not at all.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Flags { generic: Option<u32>, refused: Option<u32> }
impl Flags {
  fn gen(r: &mut Rng) -> Self {
    Self { generic: *r.pick(&[None, None, None, Some(0), Some(1), Some(60_000), Some(86_400_000), Some(u32::MAX)]), refused: *r.pick(&[None, None, Some(0), Some(1), Some(3_600_000), Some(u32::MAX)]) }
  }
  fn update(self, n: u32) -> RuntimeUpdate {
    let mut rt = Runtime::default();
    for (k, v) in [("client_kill.generic_kill_duration_ms", self.generic), ("client_kill.unauthenticated_kill_duration_ms", self.refused)] {
      if let Some(v) = v { rt.values.insert(k.into(), Value { type_: Some(value::Type::UintValue(v)), ..Default::default() }); }
    }
    RuntimeUpdate { version_nonce: format!("v{n}"), runtime: Some(rt).into(), ..Default::default() }
  }
  fn generic(self) -> Duration { Duration::milliseconds(i64::from(self.generic.unwrap_or(0))) }
  fn refused(self) -> Duration { self.refused.map_or(Duration::days(1), |m| Duration::milliseconds(i64::from(m))) }
}
fn read(p: &Path) -> Option<ClientKillFile> { std::fs::read(p).ok().and_then(|b| read_compressed_protobuf(&b).ok()) }

async fn history(r: &mut Rng, dir: &Path, log: &mut Vec<String>) -> Result<(), String> {
  let path = dir.join("client_kill_until");
  let clock = Arc::new(TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap() + Duration::nanoseconds(r.us(1_000_000_000) as i64)));
  // Until when a kill file holds, and whose key it was written for; None: no file that can be read.
  let mut kill: Option<(OffsetDateTime, usize)> = None;
  let keys = ["key", "other key", "", "key ", "KEY", "\nkey"];
  let mut hash_of: HashMap<usize, Vec<u8>> = HashMap::new();
  let mut flags = Flags { generic: None, refused: None };
  let mut key = 0;
  for p in 0 .. 2 + r.us(7) {
    if p > 0 {
      // Between two starts time passes, mostly forwards, and files are damaged.
      let d = match r.us(7) { 0 => Duration::ZERO, 1 => Duration::nanoseconds(1), 2 => Duration::milliseconds(1), 3 => Duration::hours(1), 4 => Duration::days(1), 5 => Duration::days(50), _ => -Duration::hours(2) };
      clock.advance(d);
      if let Some((until, _)) = kill { if r.chance(1, 3) { clock.set_time(until + *r.pick(&[Duration::ZERO, Duration::nanoseconds(-1), Duration::nanoseconds(1)])); } }
      if r.chance(1, 5) { key = r.us(6); }
      if r.chance(1, 8) && path.is_file() {
        let mut b = std::fs::read(&path).unwrap();
        let what = r.us(5);
        match what {
          0 => b.clear(),
          1 => b.truncate(r.us(b.len().max(1))),
          2 => if !b.is_empty() { let i = r.us(b.len()); b[i] ^= 1 << r.us(8) },
          3 => b = b"not a kill file".to_vec(),
          _ => { let _ = std::fs::remove_file(&path); },
        }
        if what < 4 { std::fs::write(&path, &b).unwrap(); }
        log.push(format!("kill file damaged ({what})"));
        // The file's own checksum says whether it can still be read, and then it says what it said before.
        match read(&path) { None => kill = None, Some(k) => if let Some((until, _)) = kill { ck!(k.kill_until.to_offset_date_time() == until, "a damaged kill file reads as another one"); } }
      } else if r.chance(1, 12) && !path.exists() {
        log.push("kill file cannot be written".into());
        std::fs::create_dir(&path).unwrap();
      } else if path.is_dir() { std::fs::remove_dir(&path).unwrap(); }
    }
    let stuck = path.is_dir();
    // The configuration the last update left behind; cached anew so that it is not given up for being unconfirmed.
    if r.chance(1, 3) { flags = Flags::gen(r); }
    { let l = ConfigLoader::new(dir); RuntimeManager::new(l).process_update(&flags.update(p as u32)); }
    let now = clock.now_();
    log.push(format!("start {p} key {key} at {now} with {flags:?}, kill file {kill:?}"));
    let (sent_tx, mut sent_rx) = unbounded_channel();
    let net = Net { events: Arc::default(), sent: sent_tx, streams: Arc::default() };
    let trigger = ComponentShutdownTrigger::default();
    let (data_tx, data_rx) = tokio::sync::mpsc::channel(64);
    let (flush_tx, _flush_rx) = tokio::sync::mpsc::channel(1);
    let collector = Collector::default();
    let loader = ConfigLoader::new(dir);
    let api = Api::new(
      dir.to_path_buf(), keys[key].into(), Box::new(net.clone()), trigger.make_shutdown(), data_rx, flush_tx, Arc::new(Meta), loader.clone(),
      vec![Box::new(RuntimeManager::new(loader))], clock.clone(), Arc::new(SimpleNetworkQualityProvider::default()), Arc::new(NoLog), &collector.scope("api"),
    ).map_err(|e| e.to_string())?;
    let task = tokio::task::spawn(api.start());
    for k in 0 .. r.us(3) {
      let (t, _rx) = Tracked::new(format!("u{k}"), OpaqueRequest { uuid: format!("u{k}"), ..Default::default() });
      data_tx.send(DataUpload::OpaqueRequest(t)).await.map_err(|e| e.to_string())?;
    }
    settle().await;
    // What this start decides.
    let before = std::fs::read(&path).ok();
    let mut killed = match kill {
      Some((until, k)) if until > now && k == key => true,
      Some(_) => { kill = None; false },
      None if flags.generic() != Duration::ZERO => { if !stuck { kill = Some((now + flags.generic(), key)); } true },
      None => false,
    };
    async fn quiet(net: &Net, sent_rx: &mut tokio::sync::mpsc::UnboundedReceiver<Vec<u8>>, streams: u32) -> Result<(), String> {
      tokio::time::sleep(std::time::Duration::from_secs(100_000)).await;
      settle().await;
      eq!(*net.streams.lock().unwrap(), streams, "streams started by a killed client");
      ck!(sent_rx.try_recv().is_err(), "a killed client sent something");
      Ok(())
    }
    if killed {
      ck!(!task.is_finished(), "the task of a killed client ended");
      quiet(&net, &mut sent_rx, 0).await?;
      ck!(before.is_some() == kill.is_some(), "kill file there: {}", before.is_some());
    } else {
      eq!(*net.streams.lock().unwrap(), 1, "streams started");
      ck!(sent_rx.try_recv().is_ok(), "nothing sent on the stream");
      if before.is_some() { ck!(read(&path).is_none(), "a kill file that no longer holds is left"); }
    }
    // What the server says.
    for _ in 0 .. r.us(4) {
      if killed { break; }
      if task.is_finished() { break; }
      let streams = *net.streams.lock().unwrap();
      let Some(tx) = net.events.lock().unwrap().clone() else { break };
      while sent_rx.try_recv().is_ok() {}
      let refusal = ErrorShutdown { grpc_status: 16, grpc_message: "who are you".into(), ..Default::default() };
      match r.us(8) {
        0 | 1 => {
          log.push("server refuses".into());
          let mut b = frame(Response_type::ErrorShutdown(refusal));
          if r.chance(1, 4) { b.extend(frame(Response_type::Handshake(HandshakeResponse::default()))); }
          let cut = r.us(b.len() + 1);
          for part in [&b[.. cut], &b[cut ..]] { if !part.is_empty() { let _ = tx.send(StreamEvent::Data(part.to_vec())).await; } }
          settle().await;
          if r.chance(1, 2) { let _ = tx.send(StreamEvent::StreamClosed("refused".into())).await; }
          quiet(&net, &mut sent_rx, streams).await?;
          ck!(!task.is_finished(), "the task of a refused client ended");
          killed = true;
          if !stuck { kill = Some((clock.now_() + flags.refused(), key)); }
        },
        2 | 3 => {
          // Anything else that ends a stream: another one follows.
          let s = *r.pick(&[0, 1, 7, 14, 15, 17, -16]);
          let what = r.us(3);
          log.push(format!("stream ends ({what}, {s})"));
          if what != 0 { let _ = tx.send(StreamEvent::Data(frame(Response_type::ErrorShutdown(ErrorShutdown { grpc_status: s, grpc_message: "bye".into(), ..Default::default() })))).await; }
          if what != 2 { let _ = tx.send(StreamEvent::StreamClosed("closed".into())).await; }
          drop(tx);
          net.events.lock().unwrap().take();
          for _ in 0 .. 1000 { settle().await; if net.events.lock().unwrap().is_some() || task.is_finished() { break; } tokio::time::sleep(std::time::Duration::from_secs(10)).await; }
          ck!(!task.is_finished(), "the task ended");
          eq!(*net.streams.lock().unwrap(), streams + 1, "streams after one ended");
        },
        _ => {
          // A conversation: what is said in it kills nobody, now.
          let f = Flags::gen(r);
          log.push(format!("handshake, update {f:?}"));
          let mut b = frame(Response_type::Handshake(HandshakeResponse::default()));
          if r.chance(1, 2) { b.extend(frame(Response_type::RuntimeUpdate(f.update(100 + p as u32)))); flags = f; }
          if r.chance(1, 3) { b.extend(frame(Response_type::ErrorShutdown(refusal))); }
          if r.chance(1, 3) { b.extend(frame(Response_type::Pong(PongResponse::default()))); }
          let _ = tx.send(StreamEvent::Data(b)).await;
          settle().await;
          ck!(!task.is_finished(), "the task ended");
          let _ = tx.send(StreamEvent::StreamClosed("closed".into())).await;
          drop(tx);
          net.events.lock().unwrap().take();
          for _ in 0 .. 1000 { settle().await; if net.events.lock().unwrap().is_some() || task.is_finished() { break; } tokio::time::sleep(std::time::Duration::from_secs(10)).await; }
          ck!(!task.is_finished(), "the task ended");
          eq!(*net.streams.lock().unwrap(), streams + 1, "streams after one ended");
        },
      }
    }
    // The file says exactly this.
    match (read(&path), kill) {
      (None, None) => {},
      (Some(k), Some((until, whose))) => {
        eq!(k.kill_until.to_offset_date_time(), until, "kill file until");
        let h = hash_of.entry(whose).or_insert_with(|| k.api_key_hash.clone());
        eq!(&k.api_key_hash, h, "hash of key {whose}");
        let n = hash_of.len();
        let mut d: Vec<_> = hash_of.values().collect();
        d.sort();
        d.dedup();
        eq!(d.len(), n, "keys told apart");
        for k in &keys[.. 2] { ck!( !std::fs::read(&path).unwrap().windows(k.len()).any(|w| w == k.as_bytes()), "the key itself is in the kill file"); }
      },
      (got, want) => return Err(format!("kill file says {:?}, should say {want:?}", got.map(|k| k.kill_until.to_offset_date_time()))),
    }
    log.push("stop".into());
    tokio::select! { () = trigger.shutdown() => {}, () = tokio::time::sleep(std::time::Duration::from_secs(3600)) => return Err("shutdown does not end".into()) }
    task.await.map_err(|e| e.to_string())?.map_err(|e| format!("task: {e}"))?;
    let _ = write_compressed_protobuf::<ClientKillFile>;
  }
  let _ = OptimizeFor::Memory;
  Ok(())
}
trait Now { fn now_(&self) -> OffsetDateTime; }
impl Now for TestTimeProvider { fn now_(&self) -> OffsetDateTime { bd_time::TimeProvider::now(self) } }

fn main() {
  UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let mut h = Hx::new("a history of starts over one SDK directory: clock, key, kill flags and what the server says vary, the kill file is damaged in between; distinct by history");
  let base = hx::scratch();
  for i in 0 .. h.n(700, 20_000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let r = &mut Rng::new(seed);
    let log = std::cell::RefCell::new(vec![]);
    let dir = base.join(format!("k{i}"));
    std::fs::create_dir_all(&dir).unwrap();
    h.case(true, || format!("seed {seed}: {}", log.borrow().join("; ")), || {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
      rt.block_on(history(r, &dir, &mut log.borrow_mut()))
    });
    let _ = std::fs::remove_dir_all(&dir);
  }
  h.finish()
}
