//! deps: bd-log tokio time log
//! The real tracker on tokio's paused clock, and the logging macros that use it.
use bd_log::rate_limit_log::WarnTracker;
use hx::{eq, Hx, Rng};
use std::sync::atomic::{AtomicU64, Ordering};
static WARNS: AtomicU64 = AtomicU64::new(0);
struct L;
impl log::Log for L {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
  fn log(&self, r: &log::Record<'_>) { if r.level() <= log::Level::Warn { WARNS.fetch_add(1, Ordering::SeqCst); } }
  fn flush(&self) {}
}
fn site(d: time::Duration) -> bool {
  let n = WARNS.load(Ordering::SeqCst);
  bd_log::warn_every!(d, "{}", 1);
  WARNS.load(Ordering::SeqCst) != n
}
fn esite(d: time::Duration) -> bool {
  let n = WARNS.load(Ordering::SeqCst);
  bd_log::error_every!(d, "{}", 1);
  WARNS.load(Ordering::SeqCst) != n
}
fn main() {
  let mut h = Hx::new("random sequences of uses of a warning site with intervals from zero to weeks and clock advances around the interval; distinct sequences counted");
  log::set_boxed_logger(Box::new(L)).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  // The two macro sites live as long as the process: their history is carried across cases.
  let mut now: u128 = 0;
  let (mut lw, mut le): (Option<u128>, Option<u128>) = (None, None);
  let _g = rt.enter();
  for i in 0 .. h.n(4000, 60_000) {
    let seed = h.seed * 49_979_687 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let t = WarnTracker::default();
      let mut last: Option<u128> = None;
      let bases: [i64; 12] = [0, 1, 999, 1_000_000, 15_000_000_000, 15_000_000_001, 59_999_999_999, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000 * 30, -1, -1_000_000_000];
      for _ in 0 .. 2 + r.us(12) {
        let ns = *r.pick(&bases);
        let d = time::Duration::nanoseconds(ns);
        let adv: u64 = match r.us(6) { 0 => 0, 1 => 1_000_000, 2 | 3 => (ns.max(0) as u64 / 1_000_000).saturating_add(r.us(3) as u64).saturating_sub(1) * 1_000_000, 4 => r.below(40_000) * 1_000_000, _ => r.below(1000) };
        rt.block_on(tokio::time::advance(std::time::Duration::from_nanos(adv)));
        now += adv as u128;
        log.borrow_mut().push_str(&format!("[+{adv}ns every {ns}ns]"));
        let want = last.map_or(true, |l| (now - l) as i128 > ns as i128);
        eq!(t.should_warn(d), want, "fires (last fired {last:?}, now {now})");
        if want { last = Some(now); }
        let ww = lw.map_or(true, |l| (now - l) as i128 > ns as i128);
        eq!(site(d), ww, "warn_every fires");
        if ww { lw = Some(now); }
        let ww = le.map_or(true, |l| (now - l) as i128 > ns as i128);
        eq!(esite(d), ww, "error_every fires");
        if ww { le = Some(now); }
      }
      Ok(())
    });
  }
  drop(_g);
  // Many threads reach a fresh site at the same instant (no clock control here: the interval is a day).
  for i in 0 .. h.n(3000, 40_000) {
    h.case(true, || format!("round {i}: 6 threads at one site"), || {
      let t = WarnTracker::default();
      let go = std::sync::atomic::AtomicBool::new(false);
      let fired = AtomicU64::new(0);
      std::thread::scope(|s| {
        for _ in 0 .. 6 {
          s.spawn(|| {
            while !go.load(Ordering::Acquire) { std::hint::spin_loop(); }
            for _ in 0 .. 3 {
              if t.should_warn(time::Duration::days(1)) { fired.fetch_add(1, Ordering::SeqCst); }
            }
          });
        }
        go.store(true, Ordering::Release);
      });
      eq!(fired.load(Ordering::SeqCst), 1, "warnings within one interval");
      Ok(())
    });
  }
  h.finish()
}
