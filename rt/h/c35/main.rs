//! deps: bd-buffer bd-client-stats-store bd-completion bd-proto bd-runtime bd-stats-common anyhow tokio protobuf futures-util
//! The buffer manager over its public interface: random configuration updates, logs written and
//! flush requests, with an uploader that acknowledges in its own time. Oracle: a model of which
//! buffers there are and of what was written to each.
use bd_buffer::buffer::RingBufferProducer;
use bd_buffer::{Buffer, BufferEvent, BufferEventWithResponse, BuffersWithAck, Manager};
use bd_client_stats_store::{Collector, Counter};
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use hx::{ck, eq, scratch, Hx, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;
use tokio::sync::mpsc::{channel, Receiver};

type R<T = ()> = Result<T, String>;
fn se<E: std::fmt::Debug>(e: E) -> String { format!("{e:?}") }

const IDS: [&str; 5] = ["b", "b1", "other", "x-y", "b10"];
struct Model { kind: buffer_config::Type, buffer: Arc<Buffer>, producer: Box<dyn RingBufferProducer>, written: Vec<Vec<u8>> }
/// What the uploader was told, as text, and what it has not acknowledged yet.
#[derive(Default)]
struct Told { events: Vec<String>, open: usize, stream: Vec<usize> }

async fn uploader(mut rx: Receiver<BufferEventWithResponse>, told: Rc<RefCell<Told>>, seed: u64) {
  let mut r = Rng::new(seed);
  let mut held: Vec<BufferEventWithResponse> = vec![];
  loop {
    let e = if held.is_empty() {
      rx.recv().await
    } else {
      // acknowledges once it has been idle, or one at a time
      match tokio::time::timeout(std::time::Duration::from_millis(20), rx.recv()).await {
        Ok(e) => e,
        Err(_) => {
          let at = r.us(held.len());
          drop(held.remove(at));
          told.borrow_mut().open -= 1;
          continue;
        },
      }
    };
    let Some(e) = e else { return };
    let mut t = told.borrow_mut();
    let what = match &e.event {
      BufferEvent::ContinuousBufferCreated(id, _) => format!("+C {id}"),
      BufferEvent::TriggerBufferCreated(id, _) => format!("+T {id}"),
      BufferEvent::BufferRemoved(id) => format!("- {id}"),
      BufferEvent::StreamBufferAdded(b) => { t.stream.push(Arc::as_ptr(b).cast::<()>() as usize); "+S".to_string() },
      BufferEvent::StreamBufferRemoved(b) => { t.stream.push(Arc::as_ptr(b).cast::<()>() as usize); "-S".to_string() },
    };
    t.events.push(what);
    t.open += 1;
    drop(t);
    held.push(e);
    while r.chance(1, 3) && !held.is_empty() {
      let at = r.us(held.len());
      drop(held.remove(at));
      told.borrow_mut().open -= 1;
    }
  }
}

fn read(from: &Path, to: &Path, trigger: bool, sizes: (u32, u32)) -> R<Vec<Vec<u8>>> {
  std::fs::copy(from, to).map_err(se)?;
  let c = Counter::default;
  let (b, again) = Buffer::new("copy", sizes.0, to.to_path_buf(), sizes.1, trigger, c(), c(), c(), c(), c(), None).map_err(se)?;
  ck!(!again, "the file of a buffer cannot be read");
  let mut out = vec![];
  let mut consumer = b.new_consumer().map_err(se)?;
  while let Ok(l) = consumer.try_read() { out.push(l); }
  Ok(out)
}
/// `got` is the end of `all`.
fn ends(all: &[Vec<u8>], got: &[Vec<u8>]) -> bool { got.len() <= all.len() && all[all.len() - got.len() ..] == *got }

async fn run(dir: &Path, r: &mut Rng, log: &RefCell<String>) -> R {
  let store = dir.join("buffers");
  std::fs::create_dir(&store).map_err(se)?;
  let loader = ConfigLoader::new(dir);
  let (m, rx) = Manager::new(store.clone(), &Collector::default().scope(""), &loader);
  let told = Rc::new(RefCell::new(Told::default()));
  let up = tokio::task::spawn_local(uploader(rx, told.clone(), r.next()));
  let (flush_tx, flush_rx) = channel(8);
  let m2 = m.clone();
  let flusher = tokio::task::spawn_local(async move { m2.process_flushes(flush_rx).await });
  let sizes: (u32, u32) = *r.pick(&[(400, 1500), (600, 4000), (3000, 20_000)]);
  let mut have: BTreeMap<String, Model> = BTreeMap::new();
  let mut gone: Vec<(String, Model)> = vec![];
  let mut streaming: Option<usize> = None;
  let mut n = 0u32;
  for step in 0 .. r.range(4, 14) {
    match r.us(6) {
      // An update.
      0 | 1 => {
        gone.clear();
        tokio::task::yield_now().await;
        let mut want: BTreeMap<&str, buffer_config::Type> = BTreeMap::new();
        for id in IDS {
          let kind = have.get(id).map_or(*r.pick(&[buffer_config::Type::CONTINUOUS, buffer_config::Type::TRIGGER]), |b| b.kind);
          if r.chance(1, 2) { want.insert(id, kind); }
        }
        let bad = r.chance(1, 5);
        let stream = r.chance(1, 2);
        let mut list: Vec<BufferConfig> = want.iter().map(|(id, k)| config(id, *k, sizes)).collect();
        for i in (1 .. list.len()).rev() { list.swap(i, r.us(i + 1)); }
        if bad {
          let at = r.us(list.len() + 1);
          let mut c = config("zz", buffer_config::Type::TRIGGER, sizes);
          match r.us(3) {
            0 => c.type_ = protobuf::EnumOrUnknown::from_i32(77),
            1 => c.id = "none/such".into(),
            _ if !list.is_empty() => { c = list[at.min(list.len() - 1)].clone(); list.remove(at.min(list.len() - 1)); c.type_ = protobuf::EnumOrUnknown::from_i32(9); },
            _ => c.type_ = protobuf::EnumOrUnknown::from_i32(-1),
          }
          list.insert(at.min(list.len()), c);
        }
        let _ = write!(log.borrow_mut(), "; {step}: update to {:?} bad={bad} streaming={stream}", list.iter().map(|b| format!("{}:{:?}", b.id, b.type_)).collect::<Vec<_>>());
        let before = told.borrow().events.len();
        let res = m.update_from_config(&BufferConfigList { buffer_config: list, ..Default::default() }, stream).await;
        ck!(told.borrow().open == 0, "the update ended with {} changes not acknowledged", told.borrow().open);
        let mut news: Vec<String> = told.borrow().events[before ..].to_vec();
        news.sort();
        if bad {
          ck!(res.is_err(), "an update with a buffer that cannot be is accepted");
          eq!(news, Vec::<String>::new(), "what the uploader was told of an update that failed");
        } else {
          let s = res.map_err(se)?;
          let mut due = vec![];
          for (id, k) in &want { if !have.contains_key(*id) { due.push(format!("{} {id}", if *k == buffer_config::Type::TRIGGER { "+T" } else { "+C" })); } }
          for id in have.keys() { if !want.contains_key(id.as_str()) { due.push(format!("- {id}")); } }
          if stream != streaming.is_some() { due.push(if stream { "+S".into() } else { "-S".into() }); }
          due.sort();
          eq!(news, due, "what the uploader was told");
          let now = s.as_ref().map(|b| Arc::as_ptr(b).cast::<()>() as usize);
          eq!(now.is_some(), stream, "a stream buffer");
          if streaming.is_some() && stream { eq!(now, streaming, "the stream buffer that stays"); }
          streaming = now;
          let ids: Vec<String> = have.keys().cloned().collect();
          for id in ids { if !want.contains_key(id.as_str()) { let b = have.remove(&id).unwrap(); gone.push((id, b)); } }
        }
        // Exactly these are there, the old ones being the same.
        let is = m.buffers();
        let names: BTreeSet<String> = is.keys().cloned().collect();
        let due: BTreeSet<String> = if bad { have.keys().cloned().collect() } else { want.keys().map(ToString::to_string).collect() };
        eq!(names, due, "the buffers there are");
        for (id, (k, b)) in is {
          if let Some(o) = have.get(&id) {
            ck!(Arc::ptr_eq(&o.buffer, &b), "{id} was replaced");
            eq!(k, o.kind, "the type of {id}");
          } else {
            eq!(k, want[id.as_str()], "the type of {id}");
            let old = read(&store.join(&id), &dir.join("copy"), k == buffer_config::Type::TRIGGER, sizes)?;
            eq!(old.len(), 0, "logs in the new buffer {id}");
            let producer = b.new_thread_local_producer().map_err(se)?;
            have.insert(id, Model { kind: k, buffer: b, producer, written: vec![] });
          }
        }
        eq!(m.stream_buffer().map(|b| Arc::as_ptr(&b).cast::<()>() as usize), streaming, "the stream buffer");
        // The file goes when its last user does, not before.
        for (id, _) in &gone { ck!(store.join(id).exists(), "the file of {id} is gone while it is used"); }
        if r.chance(1, 2) {
          let names: Vec<String> = gone.iter().map(|g| g.0.clone()).collect();
          for (_, b) in &mut gone { b.producer.write(b"last").map_err(se)?; }
          gone.clear();
          for id in names { ck!(!store.join(&id).exists(), "the file of the removed buffer {id} is still there"); }
        }
        for id in have.keys() { ck!(store.join(id).exists(), "no file of {id}"); }
      },
      // Logs, no more at a time than fit.
      2 | 3 => {
        for (id, b) in &mut have {
          for _ in 0 .. r.us(7) {
            let room: usize = b.written.iter().map(|w| w.len() + 16).sum();
            if b.kind == buffer_config::Type::CONTINUOUS && room + 100 > sizes.0 as usize { break; }
            if b.kind == buffer_config::Type::TRIGGER && r.chance(1, 4) { b.buffer.flush(); }
            n += 1;
            let mut l = n.to_le_bytes().to_vec();
            let len = r.us(40);
            l.extend(r.bytes(len));
            if b.producer.write(&l).is_ok() { b.written.push(l); let _ = write!(log.borrow_mut(), "; {step}: log {n} to {id}"); }
          }
        }
      },
      // Flush.
      _ => {
        let mut ids: Vec<String> = vec![];
        if r.chance(2, 3) {
          for id in IDS.iter().chain(&["unknown", ""]) { if r.chance(1, 3) { ids.push((*id).to_string()); } }
          for i in (1 .. ids.len()).rev() { ids.swap(i, r.us(i + 1)); }
        }
        // one that does not wait before, sometimes
        if r.chance(1, 3) { flush_tx.send(BuffersWithAck::new(vec![(*r.pick(&IDS)).to_string()], None)).await.map_err(|_| "nobody flushes any more".to_string())?; }
        let (tx, rx) = bd_completion::Sender::new();
        let _ = write!(log.borrow_mut(), "; {step}: flush {ids:?}");
        let all = ids.is_empty();
        let req = if all && r.chance(1, 2) { BuffersWithAck::new_all_buffers(Some(tx)) } else { BuffersWithAck::new(ids.clone(), Some(tx)) };
        flush_tx.send(req).await.map_err(|_| "nobody flushes any more".to_string())?;
        rx.recv().await.map_err(|e| format!("flush of {ids:?} not answered: {e}"))?;
        for (id, b) in &have {
          if all || ids.contains(id) {
            let trigger = b.kind == buffer_config::Type::TRIGGER;
            let got = read(&store.join(id), &dir.join("copy"), trigger, sizes)?;
            if trigger {
              ck!(ends(&b.written, &got) && (b.written.is_empty() || !got.is_empty()), "{id} after its flush holds {:?} of the {} logs written", got.iter().map(|l| l[0]).collect::<Vec<_>>(), b.written.len());
            } else {
              eq!(got, b.written, "what {id} holds after its flush");
            }
          }
        }
      },
    }
    ck!(!flusher.is_finished(), "nobody flushes any more");
  }
  // A buffer that overwrites and one that does not.
  if r.chance(1, 3) {
    if let Some((id, b)) = have.iter_mut().find(|b| b.1.kind == buffer_config::Type::TRIGGER) {
      let _ = write!(log.borrow_mut(), "; filling {id}");
      for i in 0u32 .. sizes.1 / 40 * 2 {
        let mut l = (n + 1 + i).to_le_bytes().to_vec();
        l.extend([0; 36]);
        if b.producer.write(&l).is_ok() { b.written.push(l); }
        b.buffer.flush();
      }
      let got = read(&store.join(id), &dir.join("copy"), true, sizes)?;
      ck!(ends(&b.written, &got) && !got.is_empty() && got.len() < b.written.len(), "{id} has not kept the latest logs only: {} of {}", got.len(), b.written.len());
      ck!(got.iter().map(|l| l.len() + 16).sum::<usize>() * 2 > sizes.1 as usize, "{id} keeps {} logs only in {} bytes", got.len(), sizes.1);
    }
    if let Some((id, b)) = have.iter_mut().find(|b| b.1.kind == buffer_config::Type::CONTINUOUS) {
      let _ = write!(log.borrow_mut(), "; filling {id}");
      if b.written.is_empty() {
        b.producer.write(b"first").map_err(se)?;
        b.written.push(b"first".to_vec());
      }
      b.buffer.flush();
      for i in 0u32 .. 20_000 {
        let mut l = (n + 1 + i).to_le_bytes().to_vec();
        l.extend([0; 36]);
        if b.producer.write(&l).is_ok() { b.written.push(l); }
        if i % 100 == 0 { std::thread::yield_now(); }
      }
      // what it took is not overwritten by what came after
      let mut consumer = b.buffer.create_continous_consumer().map_err(se)?;
      if let Some(first) = b.written.first() {
        let got = tokio::time::timeout(std::time::Duration::from_secs(20), consumer.read()).await.map_err(|_| format!("{id} has nothing to read"))?.map_err(se)?.to_vec();
        eq!(&got, first, "the first log of the full buffer {id}");
      }
    }
  }
  // A flush waits for its buffers, all of them, however long their file stays full.
  if let Some((id, b)) = have.iter_mut().find(|b| b.1.kind == buffer_config::Type::CONTINUOUS).filter(|_| r.chance(1, 2)) {
    full_flush(r, id, b, (&store.join(id), &dir.join("copy")), sizes, &flush_tx, log).await?;
  }
  drop(flush_tx);
  ck!(flusher.await.map_err(se)?.is_ok(), "the flush task failed");
  gone.clear();
  have.clear();
  drop(m);
  let _ = up.await;
  // Nobody removed the buffers: the files stay.
  Ok(())
}
async fn full_flush(r: &mut Rng, id: &str, b: &mut Model, (file, copy): (&Path, &Path), sizes: (u32, u32), flush_tx: &tokio::sync::mpsc::Sender<BuffersWithAck>, log: &RefCell<String>) -> R {
  // What is there already goes first: the filling test may have left its head to a reader.
  let fill = b.written.len();
  let mut refused = 0;
  while refused < 3 {
    let mut l = (b.written.len() as u32).to_le_bytes().to_vec();
    l.extend([1; 36]);
    if b.producer.write(&l).is_ok() { b.written.push(l); refused = 0; } else { refused += 1; std::thread::sleep(std::time::Duration::from_millis(2)); }
  }
  let all = BuffersWithAck::new_all_buffers;
  let (tx, rx) = bd_completion::Sender::new();
  let mut one = vec![id.to_string()];
  let how = r.us(5);
  let _ = write!(log.borrow_mut(), "; {id} full after {} more logs, flush {how}", b.written.len() - fill);
  let reqs = match how {
    0 => vec![BuffersWithAck::new(one, Some(tx))],
    1 => { one.insert(r.us(2), "unknown".into()); vec![BuffersWithAck::new(one, Some(tx))] },
    2 => vec![all(Some(tx))],
    3 => vec![all(None), BuffersWithAck::new(vec!["unknown".into()], Some(tx))],
    _ => vec![BuffersWithAck::new(one, None), BuffersWithAck::new(vec!["unknown".into()], Some(tx))],
  };
  let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
  let (stop2, buffer) = (stop.clone(), b.buffer.clone());
  let reader = std::thread::spawn(move || -> R<Vec<Vec<u8>>> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(se)?;
    rt.block_on(async {
      let mut out = vec![];
      let mut consumer = buffer.create_continous_consumer().map_err(se)?;
      tokio::time::sleep(std::time::Duration::from_millis(20)).await;
      while !stop2.load(std::sync::atomic::Ordering::SeqCst) {
        if let Ok(l) = tokio::time::timeout(std::time::Duration::from_millis(5), consumer.read()).await {
          out.push(l.map_err(se)?.to_vec());
          consumer.advance_read_cursor().map_err(se)?;
        }
      }
      Ok(out)
    })
  });
  for q in reqs { flush_tx.send(q).await.map_err(|_| "nobody flushes any more".to_string())?; }
  rx.recv().await.map_err(|e| format!("flush not answered: {e}"))?;
  stop.store(true, std::sync::atomic::Ordering::SeqCst);
  let mut got = reader.join().map_err(|_| "reader panicked".to_string())??;
  got.extend(read(file, copy, false, sizes)?);
  // In memory the latest logs replace those before them, so not all need be there.
  ck!(got.last() == b.written.last(), "of {} logs of {id} the last is neither read nor in its file after its flush, {} others are", b.written.len(), got.len());
  let mut at = b.written.iter();
  ck!(got.iter().all(|l| at.any(|w| w == l)), "logs of {id} not written or not in order");
  Ok(())
}
fn config(id: &str, k: buffer_config::Type, sizes: (u32, u32)) -> BufferConfig {
  BufferConfig {
    // names say nothing
    name: IDS[(id.len() + sizes.0 as usize) % IDS.len()].into(),
    id: id.into(),
    type_: k.into(),
    buffer_sizes: Some(buffer_config::BufferSizes { volatile_buffer_size_bytes: sizes.0, non_volatile_buffer_size_bytes: sizes.1, ..Default::default() }).into(),
    ..Default::default()
  }
}

fn main() {
  let mut h = Hx::new("histories of buffer configuration updates (valid and not), logs and flush requests (known, unknown, removed buffers) with an uploader that acknowledges late");
  let base = scratch();
  for i in 0 .. h.n(300, 6000) {
    let mut r = Rng::new(h.seed.wrapping_mul(1_000_003).wrapping_add(i));
    let dir = base.join(format!("c35-{i}"));
    let log = RefCell::new(String::new());
    h.case(true, || log.borrow().clone(), || {
      std::fs::create_dir_all(&dir).map_err(se)?;
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(se)?;
      let local = tokio::task::LocalSet::new();
      let res = local.block_on(&rt, run(&dir, &mut r, &log));
      drop(local);
      drop(rt);
      let _ = std::fs::remove_dir_all(&dir);
      res
    });
  }
  h.finish()
}
