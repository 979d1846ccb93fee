//! deps: bd-client-stats-store bd-stats-common bd-log-metadata bd-log-primitives tokio thiserror log time
//! The real pre-configuration queue and byte-limited channel (included from the tree); oracle: a list and a sum.
#[allow(dead_code, unused_imports)]
mod size {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/size.rs"));
}
#[allow(dead_code, unused_imports)]
mod pre_config_buffer {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/pre_config_buffer.rs"));
}
#[allow(dead_code, unused_imports)]
mod memory_bound {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/memory_bound.rs"));
}
use hx::{ck, eq, Hx, Rng};
use memory_bound::TrySendError;
use size::MemorySized;
use std::collections::VecDeque;

#[derive(Debug, Clone, PartialEq)]
struct M(u32, usize);
impl MemorySized for M {
  fn size(&self) -> usize { self.1 }
}
fn sz(r: &mut Rng, left: usize) -> usize {
  match r.us(8) { 0 => 0, 1 => 1, 2 => left, 3 => left + 1, 4 => left.saturating_sub(1), 5 => left / 2, 6 => r.us(10), _ => r.us(left + 2) }
}
fn queue(r: &mut Rng, log: &std::cell::RefCell<String>) -> Result<(), String> {
  let (count, cap) = ([0, 1, 2, 3, 5, 9][r.us(6)], [0, 1, 10, 100, 1000][r.us(5)]);
  let mut q = pre_config_buffer::PreConfigBuffer::new(count, cap);
  log.borrow_mut().push_str(&format!("queue({count}, {cap})"));
  let (mut items, mut used): (Vec<M>, usize) = (vec![], 0);
  for i in 0 .. 1 + r.us(14) {
    let m = M(i as u32, sz(r, cap - used));
    log.borrow_mut().push_str(&format!(" push({})", m.1));
    let got = q.push(m.clone());
    let want = if items.len() >= count { Err(pre_config_buffer::Error::FullCountOverflow) } else if used + m.1 > cap { Err(pre_config_buffer::Error::FullSizeOverflow) } else { Ok(()) };
    match (&got, &want) {
      (Ok(()), Ok(())) | (Err(_), Err(_)) => (),
      _ => return Err(format!("push of {} with {} items, {used} bytes: got {got:?}, expected {want:?}", m.1, items.len())),
    }
    if want.is_ok() { used += m.1; items.push(m); }
  }
  eq!((q.max_count(), q.max_size()), (count, cap), "limits");
  let out: Vec<M> = q.pop_all().collect();
  eq!(out, items, "replayed items");
  Ok(())
}
fn chan(r: &mut Rng, log: &std::cell::RefCell<String>, rt: &tokio::runtime::Runtime) -> Result<(), String> {
  let (count, cap) = ([1, 2, 3, 6, 50][r.us(5)], [0, 1, 10, 100, 1000][r.us(5)]);
  log.borrow_mut().push_str(&format!("channel({count}, {cap})"));
  let (tx, rx) = memory_bound::channel::<M>(count, cap);
  let txs = [tx.clone(), tx.clone(), tx];
  let mut rx = Some(rx);
  let (mut q, mut used): (VecDeque<M>, usize) = (VecDeque::new(), 0);
  for i in 0 .. 2 + r.us(30) {
    if r.chance(3, 5) {
      let m = M(i as u32, sz(r, cap - used));
      log.borrow_mut().push_str(&format!(" send({})", m.1));
      let got = match txs[r.us(3)].try_send(m.clone()) {
        Ok(()) => "ok",
        Err(TrySendError::FullCountOverflow(x)) => { eq!(x, m, "the refused message"); "count" },
        Err(TrySendError::FullSizeOverflow(x)) => { eq!(x, m, "the refused message"); "size" },
        Err(TrySendError::Closed(x)) => { eq!(x, m, "the refused message"); "closed" },
      };
      let fits = used + m.1 <= cap;
      if rx.is_none() {
        ck!(got == if fits { "closed" } else { "size" } || got == "closed", "send on a closed channel: {got}");
      } else {
        let want = if !fits { "size" } else if q.len() >= count { "count" } else { "ok" };
        ck!((got == "ok") == (want == "ok"), "send of {} with {} queued, {used}/{cap} bytes: got {got}, expected {want}", m.1, q.len());
        ck!(got == want || (!fits && q.len() >= count), "send of {} with {} queued, {used}/{cap} bytes: got {got}, expected {want}", m.1, q.len());
        if want == "ok" { used += m.1; q.push_back(m); }
      }
    } else if r.chance(1, 25) {
      log.borrow_mut().push_str(" close");
      rx = None;
    } else if let (Some(x), false) = (&mut rx, q.is_empty()) {
      log.borrow_mut().push_str(" recv");
      let m = rt.block_on(x.recv());
      let want = q.pop_front();
      eq!(m, want, "received");
      used -= want.unwrap().1;
    }
  }
  if let Some(mut x) = rx {
    drop(txs);
    while let Some(w) = q.pop_front() { eq!(rt.block_on(x.recv()), Some(w), "received after the senders are gone"); }
    eq!(rt.block_on(x.recv()), None, "received at the end");
  }
  Ok(())
}
// Threads send, with or without a receiver running; at the end the accounting must be exact.
fn threads(r: &mut Rng, rt: &tokio::runtime::Runtime) -> Result<(), String> {
  let (count, cap) = ([40, 100_000][r.us(2)], 500 + r.us(1000));
  let (tx, mut rx) = memory_bound::channel::<M>(count, cap);
  let go = std::sync::Barrier::new(4);
  let sent: Vec<Vec<usize>> = std::thread::scope(|s| {
    let ts: Vec<_> = (0 .. 4u64).map(|k| {
      let (tx, go, seed) = (tx.clone(), &go, r.next());
      s.spawn(move || {
        let mut r = Rng::new(seed ^ k);
        go.wait();
        (0 .. 60).filter_map(|i| { let n = r.us(60); tx.try_send(M(i, n)).ok().map(|()| n) }).collect()
      })
    }).collect();
    ts.into_iter().map(|t| t.join().unwrap()).collect()
  });
  let (n, used): (usize, usize) = (sent.iter().map(Vec::len).sum(), sent.iter().flatten().sum());
  ck!(used <= cap && n <= count, "{n} messages, {used} bytes accepted with limits {count}, {cap}");
  if n < count {
    ck!(tx.try_send(M(0, cap - used + 1)).is_err(), "accepted a byte too many after {used}/{cap}");
    ck!(tx.try_send(M(1, cap - used)).is_ok(), "refused a message that fits after {used}/{cap}");
    for _ in 0 ..= n { rt.block_on(rx.recv()); }
  } else {
    for _ in 0 .. n { rt.block_on(rx.recv()); }
  }
  // Sending while receiving, then drained: the whole capacity is there again.
  let (go, total) = (&std::sync::Barrier::new(3), &std::sync::atomic::AtomicUsize::new(0));
  std::thread::scope(|s| {
    let ts: Vec<_> = (0 .. 2u64).map(|k| {
      let tx = tx.clone();
      let seed = r.next();
      s.spawn(move || {
        let mut r = Rng::new(seed ^ k);
        go.wait();
        for i in 0 .. 80 { if tx.try_send(M(i, r.us(90))).is_ok() { total.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
      })
    }).collect();
    go.wait();
    let mut got = 0;
    loop {
      let done = ts.iter().all(|t| t.is_finished());
      if got < total.load(std::sync::atomic::Ordering::SeqCst) { rt.block_on(rx.recv()); got += 1; } else if done { break; }
    }
  });
  ck!(tx.try_send(M(0, cap + 1)).is_err(), "drained channel accepted more than its capacity");
  ck!(tx.try_send(M(0, cap)).is_ok(), "drained channel refused a message of its whole capacity");
  Ok(())
}
fn main() {
  let mut h = Hx::new("random sequences on a queue or a channel with sizes around what is left, closing, several senders; plus rounds of threads sending and receiving; distinct sequences counted");
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  for i in 0 .. h.n(8000, 120_000) {
    let seed = h.seed * 15_485_863 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      if i % 3 == 0 { queue(&mut r, &log) } else { chan(&mut r, &log, &rt) }
    });
  }
  for i in 0 .. h.n(120, 3000) {
    let seed = h.seed * 32_452_843 + i;
    h.case(true, || format!("threads, seed {seed}"), || threads(&mut Rng::new(seed), &rt));
  }
  h.finish()
}
