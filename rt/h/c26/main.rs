//! deps: bd-shutdown bd-completion tokio anyhow
//! The real shutdown and completion handles, polled by hand so that every order of creating, cloning, waiting,
//! dropping and triggering comes up; oracle: a count of the handles and whether shutdown was triggered. A
//! waiter that was pending must be woken, not only be ready when polled again.
use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger, ComponentShutdownTriggerHandle, ComponentStatus};
use hx::{ck, eq, Hx, Rng};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count {
  fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}
// A future that is polled only when it was woken (or for the first time), as an executor would.
struct Task<T> { f: Option<Pin<Box<dyn Future<Output = T> + Send>>>, c: Arc<Count>, seen: usize, out: Option<T> }
impl<T> Task<T> {
  fn new(f: impl Future<Output = T> + Send + 'static) -> Self { Self { f: Some(Box::pin(f)), c: Arc::new(Count(AtomicUsize::new(1))), seen: 0, out: None } }
  fn run(&mut self) {
    while self.f.is_some() && self.c.0.load(Ordering::SeqCst) != self.seen {
      self.seen = self.c.0.load(Ordering::SeqCst);
      let w = Waker::from(self.c.clone());
      if let Poll::Ready(v) = self.f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)) { self.out = Some(v); self.f = None; }
    }
  }
}
// What a component holds: its handle, or a wait on it (which gives the handle back).
enum Comp { Idle(ComponentShutdown), Waiting(Task<ComponentShutdown>) }

fn shutdowns(seed: u64, log: &RefCell<String>) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let mut trigger = Some(ComponentShutdownTrigger::default());
  let mut handles: Vec<ComponentShutdownTriggerHandle> = vec![];
  if r.chance(1, 2) { handles.push(trigger.as_ref().unwrap().make_handle()); }
  let mut comps: Vec<Comp> = vec![];
  let mut down: Option<Task<()>> = None;
  let mut done = false;
  for _ in 0 .. 4 + r.us(24) {
    match r.us(9) {
      0 | 1 => {
        if let Some(t) = &trigger { comps.push(Comp::Idle(t.make_shutdown())); log.borrow_mut().push_str("make "); }
        else if let Some(h) = handles.last() { comps.push(Comp::Idle(h.make_shutdown())); log.borrow_mut().push_str("late "); }
      },
      2 => if let Some(h) = handles.last() { comps.push(Comp::Idle(h.make_shutdown())); log.borrow_mut().push_str("hmake "); },
      3 => if let Some(t) = &trigger { handles.push(if handles.is_empty() || r.chance(1, 2) { t.make_handle() } else { handles[0].clone() }); log.borrow_mut().push_str("handle "); },
      4 => if !comps.is_empty() {
        let i = r.us(comps.len());
        if let Comp::Idle(c) = &comps[i] { let c = c.clone(); comps.push(Comp::Idle(c)); log.borrow_mut().push_str(&format!("clone{i} ")); }
      },
      5 | 6 => if !comps.is_empty() {
        let i = r.us(comps.len());
        if let Comp::Idle(_) = comps[i] {
          let Comp::Idle(mut c) = comps.swap_remove(i) else { unreachable!() };
          comps.push(Comp::Waiting(Task::new(async move { c.cancelled().await; c })));
          log.borrow_mut().push_str(&format!("wait{i} "));
        }
      },
      7 => if !comps.is_empty() { let i = r.us(comps.len()); comps.swap_remove(i); log.borrow_mut().push_str(&format!("drop{i} ")); },
      _ => if let Some(t) = trigger.take() {
        if r.chance(1, 3) { trigger = Some(t); continue; }
        log.borrow_mut().push_str("shutdown ");
        // Handles may outlive the trigger; with none of them left the channel closes.
        let mut task = Task::new(t.shutdown());
        task.run();
        down = Some(task);
      },
    }
    // Everybody runs that was woken.
    let triggered = down.is_some();
    for c in &mut comps {
      if let Comp::Waiting(t) = c {
        t.run();
        eq!(t.out.is_some(), triggered, "a wait has returned");
        if let Some(mut s) = t.out.take() {
          eq!(s.component_status(), ComponentStatus::PendingShutdown, "status after waiting");
          // Waiting again returns at once.
          let mut again = Task::new(async move { s.cancelled().await; s });
          again.run();
          match again.out.take() { Some(s) => *c = Comp::Idle(s), None => return Err("a second wait after shutdown does not return".into()) }
        }
      }
    }
    for c in &comps {
      if let Comp::Idle(s) = c { eq!(s.component_status(), if triggered { ComponentStatus::PendingShutdown } else { ComponentStatus::Running }, "status"); }
    }
    if let Some(t) = &mut down {
      t.run();
      if !done { eq!(t.out.is_some(), comps.is_empty(), "shutdown has returned ({} handles)", comps.len()); }
      done = t.out.is_some();
    }
  }
  if let (Some(t), false) = (&mut down, done) {
    while !comps.is_empty() { ck!(t.out.is_none(), "shutdown returned with {} handles left", comps.len()); comps.pop(); t.run(); }
    ck!(t.out.is_some(), "shutdown does not return after the last handle is gone");
  }
  Ok(())
}

fn blocking(r: &mut Rng) -> Result<(), String> {
  let t = ComponentShutdownTrigger::default();
  let gone = Arc::new(AtomicUsize::new(0));
  let n = r.us(4);
  let mut js = vec![];
  for i in 0 .. n {
    let mut s = t.make_shutdown();
    let (gone, d) = (gone.clone(), r.us(150) as u64);
    js.push(std::thread::spawn(move || {
      let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
      if i % 2 == 0 { rt.block_on(s.cancelled()); } else { while s.component_status() == ComponentStatus::Running { std::thread::sleep(Duration::from_millis(1)); } }
      std::thread::sleep(Duration::from_millis(d));
      let st = s.component_status();
      gone.fetch_add(1, Ordering::SeqCst);
      drop(s);
      st
    }));
  }
  std::thread::sleep(Duration::from_millis(r.us(20) as u64));
  let late = t.make_handle();
  t.shutdown_blocking();
  eq!(gone.load(Ordering::SeqCst), n, "components gone when shutdown_blocking returned");
  for j in js { eq!(j.join().map_err(|_| "a component panicked".to_string())?, ComponentStatus::PendingShutdown, "status"); }
  eq!(late.make_shutdown().component_status(), ComponentStatus::PendingShutdown, "a handle made after shutdown");
  Ok(())
}

fn completions(seed: u64, log: &RefCell<String>) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let (tx, rx) = bd_completion::Sender::<Vec<u64>>::new();
  let value: Vec<u64> = (0 .. r.us(4)).map(|_| r.next()).collect();
  let fate = r.us(3); // sent, sender dropped, receiver dropped
  let before = r.chance(1, 2);
  log.borrow_mut().push_str(&format!("fate {fate} polled first {before} value {value:?}"));
  if fate == 2 {
    drop(rx);
    tx.send(value);
    return Ok(());
  }
  let mut t = None;
  if before { let mut k = Task::new(rx.recv()); k.run(); ck!(k.out.is_none(), "received before it was sent"); t = Some(k); if fate == 0 { tx.send(value.clone()) } else { drop(tx) } }
  else { if fate == 0 { tx.send(value.clone()) } else { drop(tx) } t = t.or_else(|| Some(Task::new(rx.recv()))); }
  let mut t = t.unwrap();
  t.run();
  match t.out { None => Err("the receiver hangs".into()), Some(Ok(v)) => { eq!(fate, 0, "got a value"); eq!(v, value, "value"); Ok(()) }, Some(Err(_)) => { eq!(fate, 1, "got an error"); Ok(()) } }
}
fn completions_blocking(r: &mut Rng) -> Result<(), String> {
  let (tx, rx) = bd_completion::Sender::<u64>::new();
  let (v, fate, d) = (r.next(), r.us(2), r.us(3) as u64);
  let j = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(d)); if fate == 0 { tx.send(v) } else { drop(tx) } });
  let got = rx.blocking_recv();
  j.join().map_err(|_| "panic".to_string())?;
  match got { Ok(x) => { eq!(fate, 0, "got a value"); eq!(x, v, "value") }, Err(_) => eq!(fate, 1, "got an error") }
  Ok(())
}

fn main() {
  let mut h = Hx::new("random histories of making, cloning, waiting on and dropping shutdown handles around one shutdown, polled only when woken, plus threads for the blocking calls and completion signals sent, abandoned and abandoned by the receiver; histories are seeded, each counted once");
  for i in 0 .. h.n(60_000, 900_000) {
    let seed = h.seed * 1_000_003 + i;
    let log = RefCell::new(String::new());
    h.case(true, || format!("seed {seed} shutdown: {}", log.borrow()), || shutdowns(seed, &log));
  }
  for i in 0 .. h.n(20_000, 200_000) {
    let seed = h.seed * 7_000_003 + i;
    let log = RefCell::new(String::new());
    h.case(true, || format!("seed {seed} completion: {}", log.borrow()), || completions(seed, &log));
  }
  for i in 0 .. h.n(16, 200) {
    let seed = h.seed * 31 + i;
    h.case(true, || format!("seed {seed} blocking shutdown"), || blocking(&mut Rng::new(seed)));
  }
  for i in 0 .. h.n(200, 2000) {
    let seed = h.seed * 37 + i;
    h.case(true, || format!("seed {seed} blocking completion"), || completions_blocking(&mut Rng::new(seed)));
  }
  h.finish()
}
