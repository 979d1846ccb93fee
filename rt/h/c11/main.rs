//! deps: bd-session bd-key-value anyhow
//! The real fixed strategy (through the public wrapper) across processes, with a callback that may fail or re-enter.
#[path = "../common/mem.rs"]
mod mem;
use bd_session::{fixed, Strategy};
use hx::{ck, eq, Hx, Rng};
use mem::Mem;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Plain, Fail, ReadInside, StartInside, Empty }
struct Cb { mode: Mutex<Mode>, n: AtomicU64, back: OnceLock<std::sync::Weak<Strategy>>, ids: Mutex<Vec<String>>, inner: Mutex<Vec<String>>, slow: bool, tag: String }
impl fixed::Callbacks for Cb {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let n = self.n.fetch_add(1, Ordering::SeqCst);
    if n > 100 { anyhow::bail!("runaway") }
    let mode = *self.mode.lock().unwrap();
    if self.slow { std::thread::sleep(std::time::Duration::from_micros(300)); }
    let s = self.back.get().and_then(|w| w.upgrade());
    match (mode, s) {
      (Mode::Fail, _) => anyhow::bail!("no id"),
      (Mode::ReadInside, Some(s)) => { let x = s.session_id(); self.inner.lock().unwrap().push(x) },
      (Mode::StartInside, Some(s)) => { s.start_new_session(); s.start_new_session() },
      _ => {},
    }
    let id = if mode == Mode::Empty { String::new() } else { format!("{}-{n}", self.tag) };
    self.ids.lock().unwrap().push(id.clone());
    Ok(id)
  }
}
fn make(mem: &Mem, tag: String, slow: bool) -> (Arc<Strategy>, Arc<Cb>) {
  let cb = Arc::new(Cb { mode: Mutex::new(Mode::Plain), n: AtomicU64::new(0), back: OnceLock::new(), ids: Mutex::default(), inner: Mutex::default(), slow, tag });
  let s = Arc::new(Strategy::Fixed(fixed::Strategy::new(mem.store(), cb.clone())));
  let _ = cb.back.set(Arc::downgrade(&s));
  (s, cb)
}
fn main() {
  let mut h = Hx::new("a history of processes over one store; per process a random sequence of reads, new sessions, previous-ID reads, storage failures and re-entrant or failing ID callbacks; distinct histories counted; plus threaded histories");
  for i in 0 .. h.n(4000, 60_000) {
    let seed = h.seed * 104_729 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      let mut persisted: Option<String> = None; // what the store holds
      for p in 0 .. 1 + r.us(4) {
        log.borrow_mut().push_str(&format!(" process {p}:"));
        let (s, cb) = make(&mem, format!("s{p}"), false);
        let prev = persisted.clone();
        let mut cur: Option<String> = None;
        for _ in 0 .. r.us(10) {
          let mode = *r.pick(&[Mode::Plain, Mode::Plain, Mode::Plain, Mode::Fail, Mode::ReadInside, Mode::StartInside, Mode::Empty]);
          *cb.mode.lock().unwrap() = mode;
          // Storage errors only after the process has its state (until then what the store holds cannot be known).
          let bad = cur.is_some() && r.chance(1, 8);
          mem.with(|x| x.fail_set = bad);
          let calls = cb.n.load(Ordering::SeqCst);
          let op = r.us(5);
          log.borrow_mut().push_str(&format!(" {}{}", ["id", "id", "start", "prev", "start+id"][op], if bad { "(storage fails)" } else { "" }));
          log.borrow_mut().push_str(&format!("/{mode:?}"));
          match op {
            0 | 1 => {
              let id = s.session_id();
              if let Some(c) = &cur { eq!(id, *c, "the ID changed without a new session"); eq!(cb.n.load(Ordering::SeqCst), calls, "callback calls"); }
              else { if mode != Mode::Fail { eq!(Some(&id), cb.ids.lock().unwrap().last(), "the generated ID is used"); } eq!(cb.n.load(Ordering::SeqCst), calls + 1, "callback calls"); persisted = Some(id.clone()); cur = Some(id); }
            },
            2 | 4 => {
              s.start_new_session();
              eq!(cb.n.load(Ordering::SeqCst), calls + 1, "callback calls of one new session");
              let id = s.session_id();
              eq!(cb.n.load(Ordering::SeqCst), calls + 1, "callback calls after the new session");
              if mode != Mode::Fail { eq!(Some(&id), cb.ids.lock().unwrap().last(), "the ID of the new session"); }
              else if let Some(c) = &cur { ck!(id != *c, "a new session kept the old ID"); }
              if !bad { persisted = Some(id.clone()); }
              cur = Some(id);
            },
            _ => {},
          }
          eq!(s.previous_process_session_id(), prev, "previous process ID");
          if op == 4 { eq!(s.session_id(), cur.clone().unwrap(), "ID after start"); }
          mem.with(|x| x.fail_set = false);
          if !bad {
            // A new process over the store would report what is persisted.
            let (s2, _) = make(&mem, "probe".into(), false);
            eq!(s2.previous_process_session_id(), persisted, "persisted ID");
          }
          ck!(cb.n.load(Ordering::SeqCst) < 90, "the callback was re-entered without end");
        }
      }
      Ok(())
    });
  }
  for i in 0 .. h.n(150, 2500) {
    let seed = h.seed * 31 + i;
    h.case(true, || format!("threads, seed {seed}"), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      mem.with(|x| x.slow_us = 200);
      let (s, cb) = make(&mem, "t".into(), true);
      *cb.mode.lock().unwrap() = *r.pick(&[Mode::Plain, Mode::ReadInside, Mode::StartInside]);
      let n = 2 + r.us(4);
      let starter = r.chance(1, 2);
      let b = Arc::new(Barrier::new(n));
      let hs: Vec<_> = (0 .. n).map(|t| { let (s, b) = (s.clone(), b.clone()); std::thread::spawn(move || { b.wait(); if t == 0 && starter { s.start_new_session() } s.session_id() }) }).collect();
      let got: Vec<String> = hs.into_iter().map(|x| x.join().unwrap_or("<panicked>".into())).collect();
      let fin = s.session_id();
      if !starter { for g in &got { eq!(*g, fin, "one ID for all threads"); } eq!(cb.n.load(Ordering::SeqCst), 1, "callback calls"); }
      else { eq!(got[0], fin, "the ID after the only new session"); ck!(cb.n.load(Ordering::SeqCst) <= 2, "too many IDs generated"); }
      let (s2, _) = make(&mem, "probe".into(), false);
      eq!(s2.previous_process_session_id(), Some(fin), "persisted ID");
      eq!(s.previous_process_session_id(), None, "previous ID");
      Ok(())
    });
  }
  h.finish()
}
