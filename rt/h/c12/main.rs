//! deps: async-trait bd-session bd-key-value bd-time time anyhow
//! The real activity-based strategy (through the public wrapper) across processes on a clock that moves both ways;
//! what is persisted is read back by probing a copy of the store with further processes.
#[path = "../common/mem.rs"]
mod mem;
use bd_session::{activity_based, Strategy};
use hx::{ck, eq, Hx, Rng};
use mem::Mem;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use time::{Duration, OffsetDateTime};

const T0: i128 = 1_700_000_000_000_000_000;
struct Clock(AtomicI64); // nanoseconds after T0
#[async_trait::async_trait]
impl bd_time::TimeProvider for Clock {
  async fn sleep(&self, _: Duration) {}
  fn now(&self) -> OffsetDateTime { OffsetDateTime::from_unix_timestamp_nanos(T0 + i128::from(self.0.load(Ordering::SeqCst))).unwrap() }
}
#[derive(Default)]
struct Cb(Mutex<Vec<String>>, AtomicU64);
impl activity_based::Callbacks for Cb {
  fn session_id_changed(&self, id: &str) { self.0.lock().unwrap().push(id.into()); self.1.fetch_add(1, Ordering::SeqCst); }
}
fn make(mem: &Mem, threshold: i64, c: &Arc<Clock>) -> Strategy {
  Strategy::ActivityBased(activity_based::Strategy::new(Duration::nanoseconds(threshold), mem.store(), Arc::new(Cb::default()), c.clone()))
}
// What a later process would find: session and last activity.
fn probe(mem: &Mem, want: &Option<(String, i64)>) -> Result<(), String> {
  const TH: i64 = 3_600_000_000_000;
  let p = |now: i64| {
    let m = Mem::default();
    m.with(|i| i.map = mem.raw());
    let s = make(&m, TH, &Arc::new(Clock(AtomicI64::new(now))));
    (s.previous_process_session_id(), s.session_id())
  };
  let Some((id, at)) = want else {
    eq!(p(0).0, None, "persisted session");
    return Ok(());
  };
  eq!(p(*at).0, Some(id.clone()), "persisted session");
  eq!(&p(*at).1, id, "session at the persisted activity (expected {at})");
  ck!(&p(*at - 1).1 != id, "persisted activity is not after {}", at - 1);
  eq!(&p(*at + TH).1, id, "session at the threshold");
  ck!(&p(*at + TH + 1).1 != id, "persisted activity is after {at}");
  Ok(())
}
fn main() {
  let mut h = Hx::new("a history of processes over one store on a clock that moves both ways by steps around the threshold and the write interval: reads, new sessions, flushes, previous-ID reads, storage failures; distinct histories counted; plus threads");
  const W: i64 = 15_000_000_000;
  for i in 0 .. h.n(1500, 25_000) {
    let seed = h.seed * 104_723 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      let clock = Arc::new(Clock(AtomicI64::new(0)));
      let mut disk: Option<(String, i64)> = None;
      let mut seen: BTreeSet<String> = BTreeSet::new();
      for p in 0 .. 1 + r.us(4) {
        let th = [0, 1, 5_000_000_000, W, W + 1, 60_000_000_000, 1_800_000_000_000][r.us(7)];
        log.borrow_mut().push_str(&format!(" process {p} (threshold {th}ns):"));
        let s = make(&mem, th, &clock);
        let prev = disk.as_ref().map(|x| x.0.clone());
        // session, last activity, last write by this process
        let mut cur: Option<(String, i64, Option<i64>)> = None;
        for _ in 0 .. r.us(12) {
          let d = match r.us(12) { 0 | 1 => 0, 2 => 1, 3 => -1, 4 => th, 5 => th + 1, 6 => W, 7 => W + 1, 8 => -(r.below(100_000_000_000) as i64), 9 => r.below(4_000_000_000_000) as i64, 10 => r.below(W as u64) as i64, _ => (th / 2).min(W - 1) };
          let now = clock.0.fetch_add(d, Ordering::SeqCst) + d;
          let bad = cur.is_some() && r.chance(1, 10);
          mem.with(|x| x.fail_set = bad);
          let writes = mem.with(|x| x.sets.len());
          let op = r.us(8);
          log.borrow_mut().push_str(&format!(" {d:+} {}{}", ["id", "id", "id", "id", "start", "flush", "prev", "id"][op], if bad { "(storage fails)" } else { "" }));
          match op {
            4 => {
              s.start_new_session();
              mem.with(|x| x.fail_set = false);
              // Seen through a probe of the store, when it was written.
              if !bad {
                let id = { let m = Mem::default(); m.with(|x| x.map = mem.raw()); make(&m, th, &clock).previous_process_session_id() };
                let id = id.ok_or("a new session was not persisted")?;
                ck!(seen.insert(id.clone()), "a new session kept or reused an ID");
                disk = Some((id.clone(), now));
                cur = Some((id, now, Some(now)));
              } else {
                let id = s.session_id();
                ck!(seen.insert(id.clone()), "a new session kept or reused an ID");
                cur = Some((id, now, Some(now)));
              }
            },
            5 => { s.flush(); if let (Some(c), false) = (&cur, bad) { disk = Some((c.0.clone(), c.1)); } },
            6 => (),
            _ => {
              let base = cur.clone().or_else(|| disk.clone().map(|(i, a)| (i, a, None)));
              let id = s.session_id();
              mem.with(|x| x.fail_set = false);
              let w = mem.with(|x| x.sets.len()) - writes;
              match base {
                Some((old, at, written)) => {
                  if now < at || now - at > th {
                    ck!(id != old, "session {old} last active at {at} was still there at {now}");
                    ck!(seen.insert(id.clone()), "a new session reused an ID");
                    if !bad { eq!(w, 1, "writes for a changed session"); disk = Some((id.clone(), now)); }
                    cur = Some((id, now, Some(now)));
                  } else {
                    eq!(id, old, "session last active at {at}, now {now}");
                    let write = written.map_or(true, |x| now - x > W);
                    if bad { eq!(w, 0, "writes"); } else { eq!(w, usize::from(write), "writes of an extended session last written at {written:?}, now {now}"); }
                    if write && !bad { disk = Some((id.clone(), now)); }
                    cur = Some((id, now, if write { Some(now) } else { written }));
                  }
                },
                None => { seen.insert(id.clone()); disk = Some((id.clone(), now)); cur = Some((id, now, Some(now))); },
              }
            },
          }
          mem.with(|x| x.fail_set = false);
          eq!(s.previous_process_session_id(), prev, "previous process ID");
          probe(&mem, &disk)?;
        }
      }
      Ok(())
    });
  }
  for i in 0 .. h.n(100, 2000) {
    let seed = h.seed * 37 + i;
    h.case(true, || format!("threads, seed {seed}"), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      mem.with(|x| x.slow_us = 150);
      let clock = Arc::new(Clock(AtomicI64::new(0)));
      let s = Arc::new(make(&mem, 1_000, &clock));
      let known = r.chance(1, 2);
      if known { s.session_id(); clock.0.store(5_000, Ordering::SeqCst); }
      let n = 2 + r.us(4);
      let b = Arc::new(Barrier::new(n));
      let hs: Vec<_> = (0 .. n).map(|_| { let (s, b) = (s.clone(), b.clone()); std::thread::spawn(move || { b.wait(); s.session_id() }) }).collect();
      let got: Vec<String> = hs.into_iter().map(|x| x.join().unwrap_or("<panicked>".into())).collect();
      let fin = s.session_id();
      for g in &got { eq!(*g, fin, "one session for all threads"); }
      probe(&mem, &Some((fin, if known { 5_000 } else { 0 })))?;
      Ok(())
    });
  }
  h.finish()
}
