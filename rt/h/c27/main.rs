//! deps: bd-buffer tokio
//! The real ring buffers with real threads: readers and writers that block must come back when data or space
//! appears or the buffer shuts down, an asynchronous read that was pending must be woken (it is polled only when
//! its waker is called), and under free-running threads what is delivered is what was committed, per producer in
//! order, unchanged while it is held. A thread that does not come back within ten seconds hangs.
use bd_buffer::buffer::{AggregateRingBuffer, AllowOverwrite, BlockWhenReservingIntoConcurrentRead, NonVolatileFileHeader, NonVolatileRingBuffer, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, RingBufferCursorConsumer, RingBufferProducer, RingBufferStats, VolatileRingBuffer};
use bd_buffer::{AbslCode, Error};
use hx::{ck, eq, Hx, Rng};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

const HEADER: u32 = std::mem::size_of::<NonVolatileFileHeader>() as u32;
const LONG: Duration = Duration::from_secs(10);
fn err(e: Error) -> String { e.to_string() }
fn stats() -> Arc<RingBufferStats> { Arc::new(RingBufferStats::default()) }

// A thread whose end is awaited for a limited time; one that hangs is left behind.
struct Th<T>(Receiver<std::thread::Result<T>>);
impl<T: Send + 'static> Th<T> {
  fn new(f: impl FnOnce() -> T + Send + 'static) -> Self {
    let (s, r) = channel();
    std::thread::spawn(move || { let _ = s.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))); });
    Self(r)
  }
  fn end(self, what: &str) -> Result<T, String> {
    match self.0.recv_timeout(LONG) {
      Ok(Ok(v)) => Ok(v),
      Ok(Err(p)) => Err(format!("{what}: panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
      Err(_) => Err(format!("{what}: does not come back")),
    }
  }
}

enum C { P(Box<dyn RingBufferConsumer>), Q(Box<dyn RingBufferCursorConsumer>) }
impl C {
  fn start(&mut self, block: bool) -> Result<Vec<u8>, Error> {
    match self { C::P(c) => c.start_read(block).map(|s| s.to_vec()), C::Q(c) => c.start_read(block).map(|s| s.to_vec()) }
  }
  // Reads what the region holds twice, with a pause.
  fn start_held(&mut self, block: bool, pause: bool) -> Result<(Vec<u8>, Vec<u8>), Error> {
    fn two(s: &[u8], pause: bool) -> (Vec<u8>, Vec<u8>) {
      let a = s.to_vec();
      if pause { for _ in 0 .. 20 { std::thread::yield_now(); } }
      (a, s.to_vec())
    }
    match self { C::P(c) => c.start_read(block).map(|s| two(s, pause)), C::Q(c) => c.start_read(block).map(|s| two(s, pause)) }
  }
  fn finish(&mut self) -> Result<(), Error> { match self { C::P(c) => c.finish_read(), C::Q(c) => c.advance_read_pointer() } }
  fn read(&mut self) -> Pin<Box<dyn Future<Output = Result<Vec<u8>, Error>> + Send + '_>> {
    match self {
      C::P(c) => Box::pin(async move { c.read().await.map(|s| s.to_vec()) }),
      C::Q(c) => Box::pin(async move { c.read().await.map(|s| s.to_vec()) }),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Volatile, File { over: bool, crc: bool, cursor: bool, wait: bool }, Aggregate { over: bool, cursor: bool } }
impl K {
  fn any(r: &mut Rng) -> K { match r.us(6) { 0 | 1 => K::Volatile, 2 => { let over = r.chance(1, 2); K::Aggregate { over, cursor: !over && r.chance(1, 2) } }, _ => K::file(r) } }
  fn file(r: &mut Rng) -> K { let over = r.chance(1, 3); K::File { over, crc: r.chance(2, 3), cursor: !over && r.chance(1, 2), wait: r.chance(1, 2) } }
  fn cursor(self) -> bool { matches!(self, K::File { cursor: true, .. } | K::Aggregate { cursor: true, .. }) }
}
fn mode(over: bool) -> AllowOverwrite { if over { AllowOverwrite::Yes } else { AllowOverwrite::Block } }
fn open(k: K, len: u32, path: &Path) -> Result<Arc<dyn RingBuffer>, String> {
  let _ = std::fs::remove_file(path);
  Ok(match k {
    K::Volatile => VolatileRingBuffer::new("t".into(), len, stats()),
    K::File { over, crc, wait, .. } => NonVolatileRingBuffer::new("t".into(), path, len + HEADER, mode(over), if wait { BlockWhenReservingIntoConcurrentRead::Yes } else { BlockWhenReservingIntoConcurrentRead::No }, if crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No }, stats()).map_err(err)?,
    K::Aggregate { over, .. } => AggregateRingBuffer::new("t", len, path, len + HEADER + 60, PerRecordCrc32Check::Yes, mode(over), stats(), stats()).map_err(err)?,
  })
}
fn consumer(b: &Arc<dyn RingBuffer>, k: K) -> Result<C, String> {
  Ok(if k.cursor() { C::Q(b.clone().register_cursor_consumer().map_err(err)?) } else { C::P(b.clone().register_consumer().map_err(err)?) })
}
fn write(p: &mut Box<dyn RingBufferProducer>, d: &[u8], block: bool) -> Result<(), Error> {
  p.reserve(d.len() as u32, block)?.copy_from_slice(d);
  p.commit()
}
fn aborted(r: Result<impl std::fmt::Debug, Error>, what: &str) -> Result<(), String> {
  match r { Err(Error::AbslStatus(AbslCode::Aborted, _)) => Ok(()), r => Err(format!("{what}: {r:?}")) }
}
fn nap(r: &mut Rng) { match r.us(4) { 0 => {}, 1 => std::thread::yield_now(), 2 => std::thread::sleep(Duration::from_micros(200)), _ => std::thread::sleep(Duration::from_millis(2)) } }

#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }

// ---- One thread blocks, another does what must bring it back.
fn reader_blocks(seed: u64, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let k = K::any(&mut r);
  let len = 60 + r.us(100) as u32;
  let b = open(k, len, path)?;
  let mut p = b.clone().register_producer().map_err(err)?;
  let mut c = consumer(&b, k)?;
  // Some records come and go first, so that indexes lie anywhere.
  for i in 0 .. r.us(12) as u8 {
    let d = vec![i; 1 + r.us(20)];
    write(&mut p, &d, true).map_err(err)?;
    eq!(c.start(true).map_err(err)?, d, "record {i}");
    c.finish().map_err(err)?;
  }
  let held = r.chance(1, 3);
  if held && k.cursor() { write(&mut p, &[9; 4], true).map_err(err)?; eq!(c.start(true).map_err(err)?, vec![9; 4], "held"); }
  for _ in 0 .. r.us(3) { let _ = c.start(false); }
  let t = Th::new(move || { let x = c.start(true); (c, x) });
  nap(&mut r);
  if r.chance(1, 3) {
    b.shutdown();
    aborted(t.end("a reader that waits for data, after shutdown")?.1, "a reader that waits for data, after shutdown")?;
    ck!(write(&mut p, &[1], false).is_err(), "a write after shutdown");
    return Ok(());
  }
  let d = vec![77; 1 + r.us(20)];
  write(&mut p, &d, false).map_err(err)?;
  let (mut c, x) = t.end("a reader that waits for data, after a commit")?;
  eq!(x.map_err(err)?, d, "what it got");
  c.finish().map_err(err)?;
  b.shutdown();
  if !matches!(k, K::Aggregate { .. }) && !(held && k.cursor()) { aborted(Th::new(move || c.start(true)).end("a read after shutdown")?, "a read after shutdown")?; }
  Ok(())
}
fn writer_blocks(seed: u64, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let k = K::file(&mut r);
  let K::File { over, cursor, wait, .. } = k else { unreachable!() };
  let k = if over { K::File { over, crc: true, cursor, wait: true } } else { k };
  let len = 60 + r.us(100) as u32;
  let b = open(k, len, path)?;
  let mut p = b.clone().register_producer().map_err(err)?;
  let mut c = consumer(&b, k)?;
  let mut i = 0u8;
  for _ in 0 .. r.us(12) {
    write(&mut p, &vec![i; 1 + r.us(20)], true).map_err(err)?;
    c.start(true).map_err(err)?;
    c.finish().map_err(err)?;
  }
  // Full: no further record fits without touching an unread one, or, when overwriting, the one being read.
  let n = 4 + r.us(16);
  let mut held = 0;
  if over {
    i += 1;
    write(&mut p, &vec![i; n], true).map_err(err)?;
    c.start(true).map_err(err)?;
    held = 1;
    loop {
      i += 1;
      // A write that would run into the record being read waits.
      let mut pp = p;
      let t = Th::new(move || { let x = write(&mut pp, &vec![i; n], true); (pp, x) });
      match t.0.recv_timeout(Duration::from_millis(30)) {
        Ok(Ok((q, x))) => { x.map_err(err)?; p = q; },
        Ok(Err(_)) => return Err("the writer panicked".into()),
        Err(_) => return unblock(b, c, t, &mut r, held, i, n, true),
      }
      ck!(i < 100, "a write into the record being read goes on");
    }
  }
  loop {
    match write(&mut p, &vec![i + 1; n], false) { Ok(()) => i += 1, Err(_) => break }
    ck!(i < 100, "the buffer does not fill up");
  }
  if i == 0 { return Ok(()); }
  // (A buffer that does not wait for its reader refuses the write.)
  let m = if !wait { 0 } else if cursor { r.us(3) } else { r.us(2) };
  while held < m && c.start(false).is_ok() { held += 1; }
  i += 1;
  let t = Th::new(move || { let x = write(&mut p, &vec![i; n], true); (p, x) });
  nap(&mut r);
  if i >= 7 && held == 0 && r.chance(1, 2) {
    // Equal records: what the new one and the gap before it can touch is gone after four are read, though more are left.
    for j in 1 ..= 4 {
      eq!(c.start(false).map_err(err)?, vec![j; n], "unread record {j}");
      c.finish().map_err(err)?;
      nap(&mut r);
    }
    return t.end("a writer that waits for the oldest of several unread records, after they are read")?.1.map_err(err);
  }
  unblock(b, c, t, &mut r, held, i, n, false)
}
type W = (Box<dyn RingBufferProducer>, Result<(), Error>);
fn unblock(b: Arc<dyn RingBuffer>, mut c: C, t: Th<W>, r: &mut Rng, mut held: usize, last: u8, n: usize, over: bool) -> Result<(), String> {
  match r.us(3) {
    0 => {
      let s = Th::new({ let b = b.clone(); move || b.shutdown() });
      s.end("shutdown")?;
      match t.end("a writer that waits for space, after shutdown")?.1 {
        Ok(()) | Err(Error::AbslStatus(AbslCode::FailedPrecondition, _)) => Ok(()), // it came after
        x => aborted(x, "a writer that waits for space, after shutdown"),
      }
    },
    1 if over => {
      // The reader goes away with the record it holds.
      drop(c);
      t.end("a writer that waits for the reader, after the reader is gone")?.1.map_err(err)
    },
    _ => {
      // Everything is read: the writer must get through, and what it wrote come out last.
      let mut seen = 0u8;
      let until = std::time::Instant::now() + LONG;
      while seen != last {
        if held == 0 {
          match c.start(false) {
            Ok(d) => { ck!(d.len() == n || held > 0, "a record of {} bytes", d.len()); ck!(d[0] > seen, "record {} after {seen}", d[0]); seen = d[0]; held = 1; },
            Err(_) => { ck!(std::time::Instant::now() < until, "a writer that waits for space does not get through once all is read"); std::thread::yield_now(); },
          }
        }
        if held > 0 { c.finish().map_err(err)?; held -= 1; }
      }
      t.end("a writer that waited for space")?.1.map_err(err)
    },
  }
}
// Waiting for the open reservations to be committed, or for what is unread to be read.
fn drains(seed: u64, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let over = r.chance(1, 2);
  let k = if r.chance(1, 2) { K::Volatile } else { K::File { over, crc: true, cursor: !over && r.chance(1, 2), wait: true } };
  let b = open(k, 200, path)?;
  let np = if k == K::Volatile { 1 + r.us(3) } else { 1 };
  let mut ps: Vec<_> = (0 .. np).map(|_| b.clone().register_producer().map_err(err)).collect::<Result<_, _>>()?;
  let mut c = consumer(&b, k)?;
  for i in 0 .. r.us(8) as u8 {
    write(&mut ps[0], &[i; 9], false).map_err(err)?;
    c.start(true).map_err(err)?;
    c.finish().map_err(err)?;
  }
  if r.chance(1, 2) {
    let n = 1 + r.us(np);
    for p in &mut ps[.. n] { p.reserve(5, false).map_err(err)?.fill(1); }
    let mut order: Vec<usize> = (0 .. n).collect();
    if r.chance(1, 2) { order.reverse(); }
    let l = b.clone().lock();
    let two = r.chance(1, 2).then(|| b.clone().lock());
    let t = Th::new(move || { l.await_reservations_drained(); l });
    for (i, w) in order.into_iter().enumerate() {
      if i > 0 || r.chance(1, 2) { nap(&mut r); ck!(t.0.try_recv().is_err(), "waiting for reservations ends with {} of them open", n - i); }
      ps[w].commit().map_err(err)?;
    }
    let l = t.end("waiting for the reservations, after all are committed")?;
    let l = Th::new(move || { l.await_reservations_drained(); l }).end("waiting for no reservation")?;
    ck!(matches!(ps[0].reserve(5, false), Err(Error::AbslStatus(AbslCode::FailedPrecondition, _))), "a reservation while locked");
    drop(l);
    if let Some(l) = two {
      ck!(ps[0].reserve(5, false).is_err(), "a reservation while the second lock is held");
      drop(l);
    }
    write(&mut ps[0], &[3; 5], false).map_err(err)?;
    return Ok(());
  }
  let n = 1 + r.us(5);
  for i in 0 .. n as u8 { write(&mut ps[0], &[i; 9], false).map_err(err)?; }
  let reading = r.us(2).min(n);
  for _ in 0 .. reading { c.start(false).map_err(err)?; }
  let t = Th::new({ let b = b.clone(); move || b.wait_for_drain() });
  let more = r.us(3);
  nap(&mut r);
  for i in 0 .. more as u8 { write(&mut ps[0], &[100 + i; 9], false).map_err(err)?; }
  for i in 0 .. n + more {
    if i < n { nap(&mut r); ck!(t.0.try_recv().is_err(), "waiting for the drain ends with {} records unread", n - i); }
    if i >= reading { c.start(false).map_err(err)?; }
    c.finish().map_err(err)?;
  }
  t.end("waiting for the drain, after all is read")?;
  Th::new(move || b.wait_for_drain()).end("waiting for the drain of nothing")?;
  Ok(())
}
// A reader finds a record whose size is destroyed: everything is dropped, and whoever waits for space goes on.
fn loss(seed: u64, path: &Path) -> Result<(), String> {
  use std::os::unix::fs::FileExt;
  let mut r = Rng::new(seed);
  let k = K::File { over: false, crc: true, cursor: r.chance(1, 2), wait: true };
  let len = 60 + r.us(100) as u32;
  let b = open(k, len, path)?;
  let mut p = b.clone().register_producer().map_err(err)?;
  let mut c = consumer(&b, k)?;
  let n = 4 + r.us(12);
  let mut i = 0u8;
  while write(&mut p, &vec![i + 1; n], false).is_ok() { i += 1; }
  let bad = r.us(i as usize);
  let damage = || std::fs::OpenOptions::new().write(true).open(path).and_then(|f| f.write_at(&[0, 0, 0, 0], u64::from(HEADER) + (bad * (n + 8) + 4) as u64)).map_err(|e| e.to_string());
  let late = r.chance(1, 2);
  if !late { damage()?; }
  let keep = if k.cursor() { r.us(bad + 1) } else { 0 };
  for j in 0 .. bad {
    eq!(c.start(false).map_err(err)?, vec![j as u8 + 1; n], "before the damaged one");
    if j >= keep { c.finish().map_err(err)?; }
  }
  let held = if k.cursor() { keep.min(bad) } else { 0 };
  let blocked = r.chance(2, 3) && bad == held;
  let mut pp = p;
  let t = Th::new(move || { let x = if blocked { write(&mut pp, &vec![200; n], true) } else { Ok(()) }; (pp, x) });
  nap(&mut r);
  if late { damage()?; }
  // The read does not return a record, and does not spin: it leaves the thread.
  let w = Th::new(move || {
    let n = Arc::new(Count::default());
    let waker = Waker::from(n);
    let got = match c.read().as_mut().poll(&mut Context::from_waker(&waker)) { Poll::Ready(x) => Some(x), Poll::Pending => None };
    (c, got)
  });
  let (mut c, got) = w.end("an asynchronous read that finds a destroyed record")?;
  if let Some(Ok(d)) = &got { ck!(blocked && d[0] == 200, "an asynchronous read of a destroyed record gave {d:?}"); c.finish().map_err(err)?; }
  for _ in 0 .. held { c.finish().map_err(err)?; }
  let (mut p, x) = t.end("a writer that waits for space, after all was dropped")?;
  if blocked { if let Err(e) = x { ck!(matches!(e, Error::AbslStatus(AbslCode::Unavailable, _)), "the writer: {e}"); } }
  let mut q = vec![];
  while let Ok(d) = c.start(false) { q.push(d); c.finish().map_err(err)?; }
  for d in &q { ck!(*d == vec![200; n], "after everything was dropped: {d:?}"); }
  // Everything works as in an empty buffer.
  for j in 0 .. 40 {
    let m = 1 + r.us(20);
    write(&mut p, &vec![j; m], false).map_err(|e| format!("write {j}: {e}"))?;
    eq!(c.start(false).map_err(|e| format!("read {j}: {e}"))?, vec![j; m], "record {j}");
    c.finish().map_err(err)?;
  }
  Ok(())
}

// ---- Asynchronous reads, polled only when woken.
fn polled(seed: u64, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let k = if r.chance(1, 2) { K::Volatile } else { K::file(&mut r) };
  let len = 60 + r.us(200) as u32;
  let b = open(k, len, path)?;
  let np = if k == K::Volatile { 1 + r.us(3) } else { 1 };
  let mut ps: Vec<_> = (0 .. np).map(|_| b.clone().register_producer().map_err(err)).collect::<Result<_, _>>()?;
  let mut c = consumer(&b, k)?;
  let mut open: Vec<Option<u8>> = vec![None; np];
  let mut order: std::collections::VecDeque<(u8, bool)> = Default::default();
  let mut unread: std::collections::VecDeque<u8> = Default::default();
  let (mut id, mut used) = (0u8, 0usize);
  for _ in 0 .. 4 + r.us(30) {
    if r.chance(1, 2) && unread.is_empty() {
      // A read that waits, then the commit (and some noise before it).
      let cnt = Arc::new(Count::default());
      let waker = Waker::from(cnt.clone());
      let mut f = c.read();
      let mut seen = cnt.0.load(Ordering::SeqCst);
      ck!(f.as_mut().poll(&mut Context::from_waker(&waker)).is_pending(), "a read of nothing is ready");
      let mut got = None;
      let cancel = r.chance(1, 4);
      for _ in 0 .. 12 {
        let w = r.us(np);
        match open[w] {
          None => if used < 40 { id += 1; ps[w].reserve(4, false).map_err(err)?.copy_from_slice(&[id; 4]); used += 12; open[w] = Some(id); order.push_back((id, false)); },
          Some(x) => {
            ps[w].commit().map_err(err)?;
            open[w] = None;
            for o in &mut order { if o.0 == x { o.1 = true; } }
            while order.front().map_or(false, |o| o.1) { unread.push_back(order.pop_front().unwrap().0); }
          },
        }
        if cancel && r.chance(1, 3) { break; }
        while got.is_none() && cnt.0.load(Ordering::SeqCst) != seen {
          seen = cnt.0.load(Ordering::SeqCst);
          if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) { got = Some(x); }
        }
        match (&got, unread.front()) {
          (None, None) => {},
          (Some(Ok(d)), Some(x)) => { ck!(*d == vec![*x; 4], "woken with {d:?}, expected {x}"); break; },
          (Some(g), _) => return Err(format!("ready with {g:?} when unread are {unread:?}")),
          (None, Some(x)) => return Err(format!("record {x} is there and the pending read was not woken")),
        }
      }
      drop(f);
      if got.is_some() { c.finish().map_err(err)?; unread.pop_front(); used -= 12; }
      continue;
    }
    if let Some(x) = unread.pop_front() {
      let mut f = c.read();
      let waker = Waker::from(Arc::new(Count::default()));
      match f.as_mut().poll(&mut Context::from_waker(&waker)) {
        Poll::Ready(Ok(d)) => ck!(d == vec![x; 4], "read {d:?}, expected {x}"),
        Poll::Ready(Err(e)) => return Err(format!("read: {e}")),
        Poll::Pending => return Err(format!("record {x} is there and a read does not get it")),
      }
      drop(f);
      c.finish().map_err(err)?;
      used -= 12;
    } else if r.chance(1, 3) { let _ = c.start(false); }
    else {
      let w = r.us(np);
      if open[w].is_none() && used < 40 { id += 1; ps[w].reserve(4, false).map_err(err)?.copy_from_slice(&[id; 4]); used += 12; open[w] = Some(id); order.push_back((id, false)); }
      else if let Some(x) = open[w].take() {
        ps[w].commit().map_err(err)?;
        for o in &mut order { if o.0 == x { o.1 = true; } }
        while order.front().map_or(false, |o| o.1) { unread.push_back(order.pop_front().unwrap().0); }
      }
    }
  }
  Ok(())
}

// ---- Threads run freely.
fn record(w: u8, seq: u32, r: &mut Rng, max: usize) -> Vec<u8> {
  let n = 9 + r.us(max - 9);
  let mut d = vec![0; n];
  d[0] = w;
  d[1 .. 5].copy_from_slice(&seq.to_le_bytes());
  let mut h = u32::from(w) * 31 + seq;
  for x in &mut d[9 ..] { h = h.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); *x = (h >> 24) as u8; }
  let s = d[9 ..].iter().fold(n as u32, |a, x| a.wrapping_mul(31).wrapping_add(u32::from(*x)));
  d[5 .. 9].copy_from_slice(&s.to_le_bytes());
  d
}
fn parse(d: &[u8]) -> Result<(u8, u32), String> {
  ck!(d.len() >= 9, "a record of {} bytes", d.len());
  let (w, seq) = (d[0], u32::from_le_bytes(d[1 .. 5].try_into().unwrap()));
  let s = d[9 ..].iter().fold(d.len() as u32, |a, x| a.wrapping_mul(31).wrapping_add(u32::from(*x)));
  ck!(s.to_le_bytes() == d[5 .. 9], "a torn record: {d:?}");
  Ok((w, seq))
}
fn free(seed: u64, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let k = K::any(&mut r);
  let max = 10 + r.us(30);
  let len = (max + 8) as u32 * (1 + r.us(6) as u32) + r.us(10) as u32;
  let b = open(k, len, path)?;
  let np = if matches!(k, K::File { .. }) { 1 } else { 1 + r.us(4) };
  let all = 100 + r.us(200) as u32;
  // The volatile buffer overwrites; a file buffer that may not overwrite loses nothing.
  let lossless = matches!(k, K::File { over: false, .. });
  let mut c = consumer(&b, k)?;
  let mut ts = vec![];
  for w in 0 .. np {
    let mut p = b.clone().register_producer().map_err(err)?;
    let mut r = Rng::new(seed * 31 + w as u64);
    let slow = r.chance(1, 3);
    let block = matches!(k, K::File { .. });
    ts.push(Th::new(move || -> Result<(u32, u64), String> {
      let (mut last, mut put) = (0, 0);
      for seq in 1 ..= all {
        let d = record(w as u8, seq, &mut r, max);
        match p.reserve(d.len() as u32, block) {
          Ok(m) => {
            let (a, z) = m.split_at_mut(d.len() / 2);
            a.copy_from_slice(&d[.. a.len()]);
            if slow { std::thread::yield_now(); }
            z.copy_from_slice(&d[d.len() / 2 ..]);
            p.commit().map_err(err)?;
            last = seq;
            put += 1;
          },
          Err(Error::AbslStatus(AbslCode::ResourceExhausted, _)) => std::thread::yield_now(),
          Err(e) => return Err(format!("reserve: {e}")),
        }
      }
      Ok((last, put))
    }));
  }
  let how = r.us(3);
  let slow = r.chance(1, 3);
  let depth = if k.cursor() { r.us(4) } else { 0 };
  let (stop, mut stopped) = tokio::sync::watch::channel(false);
  let reader = Th::new(move || -> Result<(Vec<u32>, u64), String> {
    let mut last = vec![0u32; 8];
    let mut got = 0u64;
    let mut held = 0;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    loop {
      let x = match how {
        0 => c.start_held(true, slow),
        1 => c.start_held(false, slow),
        // With records held it must not wait for ever, as the writer may wait for them.
        _ if held > 0 => rt.block_on(async { tokio::time::timeout(Duration::from_millis(3), c.read()).await }).unwrap_or(Err(Error::AbslStatus(AbslCode::Unavailable, "timeout".into()))).map(|d| (d.clone(), d)),
        _ => rt.block_on(async { tokio::select! { d = c.read() => d.map(|d| (d.clone(), d)), _ = stopped.changed() => Err(Error::AbslStatus(AbslCode::Unavailable, "end".into())) } }),
      };
      match x {
        Ok((a, z)) => {
          ck!(a == z, "the record changed while it was held: {a:?} {z:?}");
          let (w, seq) = parse(&a)?;
          ck!((w as usize) < np && seq > last[w as usize] && seq <= all, "record {seq} of producer {w} after {}", last[w as usize]);
          last[w as usize] = seq;
          got += 1;
          held += 1;
          if held > depth { c.finish().map_err(err)?; held -= 1; }
        },
        Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
          while held > 0 { c.finish().map_err(err)?; held -= 1; }
          if *stopped.borrow() {
            // Nothing is written any more: one last look.
            while let Ok(d) = c.start(false) { let (w, seq) = parse(&d)?; ck!(seq > last[w as usize], "order"); last[w as usize] = seq; got += 1; c.finish().map_err(err)?; }
            return Ok((last, got));
          }
          if how == 1 { std::thread::yield_now(); }
        },
        Err(Error::AbslStatus(AbslCode::Aborted, _)) if how == 0 => return Ok((last, got)),
        Err(e) => return Err(format!("read: {e}")),
      }
      if held > 0 && depth > 0 && got % 7 == 0 { while held > 0 { c.finish().map_err(err)?; held -= 1; } }
      if how == 0 && held > 0 { while held > 0 { c.finish().map_err(err)?; held -= 1; } }
    }
  });
  let (mut lasts, mut put) = (vec![], 0);
  for (w, t) in ts.into_iter().enumerate() { let (l, n) = t.end(&format!("producer {w}"))??; lasts.push(l); put += n; }
  // All written. What is unread is delivered before the end: the last committed record is never overwritten.
  if how == 0 {
    let b3 = b.clone();
    let agg = matches!(k, K::Aggregate { .. });
    Th::new(move || { if agg { b3.flush(); } b3.wait_for_drain(); b3.shutdown(); }).end("waiting for the drain and shutting down")?;
  } else {
    if matches!(k, K::Aggregate { .. }) { let b3 = b.clone(); Th::new(move || b3.flush()).end("flush")?; }
    let _ = stop.send(true);
  }
  let (last, got) = reader.end("the reader")??;
  if np == 1 { eq!(last[0], lasts[0], "the last record delivered, of {got}"); }
  else { ck!((0 .. np).any(|w| last[w] == lasts[w]), "the last record committed was not delivered"); }
  if lossless { eq!(got, put, "records delivered, of those committed"); }
  Th::new(move || drop(b)).end("dropping the buffer")?;
  Ok(())
}
fn paths() -> PathBuf { hx::scratch().join("c27.rb") }

fn main() {
  let mut h = Hx::new("volatile, file and aggregate buffers of 20 to 280 bytes: a reader waiting for data with a commit or shutdown, a writer waiting for space or for the reader with a read, the reader's end, shutdown or the loss of everything, a third party waiting for reservations or for the drain, asynchronous reads polled by waker, and one to four producers and a reader running freely; distinct seeds counted");
  let path = paths();
  for i in 0 .. h.n(400, 6_000) {
    let seed = h.seed * 49_979_687 + i;
    h.case(true, || format!("reader blocks {seed}"), || reader_blocks(seed, &path));
    h.case(true, || format!("writer blocks {seed}"), || writer_blocks(seed, &path));
    h.case(true, || format!("drains {seed}"), || drains(seed, &path));
    h.case(true, || format!("loss {seed}"), || loss(seed, &path));
    for j in 0 .. 40 { h.case(true, || format!("polled {seed} {j}"), || polled(seed * 41 + j, &path)); }
    h.case(true, || format!("free {seed}"), || free(seed, &path));
  }
  h.finish()
}
