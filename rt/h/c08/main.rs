//! deps: bd-runtime bd-proto futures-util tokio tower time anyhow log
//! The real rate limit layer (included from the tree) on tokio's paused clock, several services sharing a layer;
//! oracle: bytes left in the period, period end.
#[allow(dead_code, unused_imports)]
mod ratelimit {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/ratelimit.rs"));
}
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag};
use hx::{ck, eq, scratch, Hx, Rng};
use ratelimit::{Rate, RateLimitLayer, RequestSized};
use std::convert::Infallible;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::{Layer, Service};

struct Req(u32);
impl RequestSized for Req {
  fn per_request_size(&self) -> u32 { self.0 }
}
#[derive(Clone)]
struct Svc;
impl Service<Req> for Svc {
  type Response = u32;
  type Error = Infallible;
  type Future = Pin<Box<dyn Future<Output = Result<u32, Infallible>> + Send>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> { Poll::Ready(Ok(())) }
  fn call(&mut self, r: Req) -> Self::Future { Box::pin(async move { Ok(r.0) }) }
}
fn val(n: u32) -> Value { Value { type_: Some(value::Type::UintValue(n)), ..Default::default() } }
fn set(l: &ConfigLoader, quota: u32, ms: u32) {
  let values = [
    (bd_runtime::runtime::log_upload::RatelimitByteCountPerPeriodFlag::path().to_string(), val(quota)),
    (bd_runtime::runtime::log_upload::RatelimitPeriodFlag::path().to_string(), val(ms)),
  ]
  .into_iter()
  .collect();
  l.update_snapshot(&RuntimeUpdate { version_nonce: "x".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() });
}
struct M { left: Option<u64>, until: u64, quota: u32, ms: u32 }
impl M {
  fn try_(&mut self, now: u64, size: u32) -> bool {
    if self.until < now { self.left = Some(self.quota.into()); self.until = now + u64::from(self.ms) * 1000; }
    match self.left {
      None => false,
      Some(l) => { self.left = if l > u64::from(size) { Some(l - u64::from(size)) } else { None }; true },
    }
  }
}
fn main() {
  let mut h = Hx::new("random sequences of requests of random size (zero, around what is left, far above the quota), clock advances, quota changes, over services sharing one layer; distinct sequences counted");
  let dir = scratch().join("rl");
  for i in 0 .. h.n(1500, 20_000) {
    let seed = h.seed * 1_000_003 + i;
    let _ = std::fs::create_dir_all(&dir);
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
      rt.block_on(async {
        let (quota, ms) = ([0, 1, 2, 10, 100, u32::MAX][r.us(6)], [50, 1000, 60_000][r.us(3)]);
        let l = ConfigLoader::new(&dir);
        set(&l, quota, ms);
        let layer = RateLimitLayer::new(Rate::new(&l).unwrap());
        let mut svcs = vec![layer.layer(Svc), layer.layer(Svc)];
        svcs.push(svcs[0].clone());
        let mut m = M { left: Some(quota.into()), until: 0, quota, ms };
        // microseconds since the layer was created
        let mut now = 0u64;
        // requests waiting: future, size, when it tries again
        let mut wait: Vec<(Pin<Box<dyn Future<Output = Result<u32, Infallible>> + Send>>, u32, u64)> = vec![];
        let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
        log.borrow_mut().push_str(&format!("quota {quota} period {ms}ms"));
        for _ in 0 .. 4 + r.us(30) {
          match r.us(10) {
            0 ..= 5 => {
              let left = m.left.unwrap_or(0);
              let size = match r.us(7) { 0 => 0, 1 => 1, 2 => left.min(u32::MAX.into()) as u32, 3 => left.saturating_sub(1) as u32, 4 => (left + 1).min(u32::MAX.into()) as u32, 5 => u32::MAX, _ => r.below(left / 2 + 3) as u32 };
              let k = r.us(svcs.len());
              log.borrow_mut().push_str(&format!(" req{k}({size})"));
              let mut f = svcs[k].call(Req(size));
              let want = m.try_(now, size);
              match f.as_mut().poll(&mut cx) {
                Poll::Ready(v) => { ck!(want, "a request was admitted with {:?} left of {quota}", m.left); eq!(v.unwrap(), size, "the response"); },
                Poll::Pending => { ck!(!want, "a request that fits the period was held"); wait.push((f, size, m.until)); },
              }
            },
            6 ..= 8 => {
              // Up to well before the end of the period, or past it.
              let rest = m.until.saturating_sub(now);
              let d = if r.chance(1, 2) { r.below(rest.saturating_sub(10_000) / 2 + 1) } else { rest + 5_001 + r.below(200_000) };
              log.borrow_mut().push_str(&format!(" +{d}us"));
              tokio::time::advance(Duration::from_micros(d)).await;
              now += d;
              let mut k = 0;
              while k < wait.len() {
                let (f, size, at) = &mut wait[k];
                let want = *at < now && m.try_(now, *size);
                match f.as_mut().poll(&mut cx) {
                  Poll::Ready(v) => { ck!(want, "a held request of {size} was admitted at {now} ({:?} left)", m.left); eq!(v.unwrap(), *size, "the response"); drop(wait.remove(k)); },
                  Poll::Pending => { ck!(!want, "a held request of {size} was not admitted at {now}, period ended {at}"); if *at < now { *at = m.until; } k += 1; },
                }
              }
            },
            _ => {
              m.quota = [0, 1, 5, 50][r.us(4)];
              m.ms = [50, 1000, 60_000][r.us(3)];
              log.borrow_mut().push_str(&format!(" rate({}, {})", m.quota, m.ms));
              set(&l, m.quota, m.ms);
            },
          }
        }
        Ok(())
      })
    });
    let _ = std::fs::remove_dir_all(&dir);
  }
  // Threads on one layer: requests of one byte, a period that does not end.
  let _ = std::fs::create_dir_all(&dir);
  for i in 0 .. h.n(40, 600) {
    let quota = 50 + (i as u32 % 5) * 40;
    h.case(true, || format!("4 threads, quota {quota}, round {i}"), || {
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
      let _g = rt.enter();
      let l = ConfigLoader::new(&dir);
      set(&l, quota, 3_600_000);
      let layer = RateLimitLayer::new(Rate::new(&l).unwrap());
      std::thread::sleep(Duration::from_millis(1));
      let go = std::sync::Barrier::new(4);
      let n: u32 = std::thread::scope(|s| {
        let ts: Vec<_> = (0 .. 4).map(|_| {
          let mut v = layer.layer(Svc);
          let (go, hd) = (&go, rt.handle().clone());
          s.spawn(move || {
            let _g = hd.enter();
            let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
            go.wait();
            (0 .. quota).filter(|_| v.call(Req(1)).as_mut().poll(&mut cx).is_ready()).count() as u32
          })
        }).collect();
        ts.into_iter().map(|t| t.join().unwrap()).sum()
      });
      eq!(n, quota, "one-byte requests admitted in one period");
      Ok(())
    });
  }
  let _ = std::fs::remove_dir_all(&dir);
  h.finish()
}
