//! deps: bd-api bd-client-common bd-client-stats bd-client-stats-store bd-log-matcher bd-log-primitives bd-matcher bd-proto bd-runtime bd-workflows protobuf time tokio
//! The real workflows engine with flush actions that trigger often: what the server is asked, what is flushed, where
//! logs go, against the rules written out by hand.
#[path = "../common/lm.rs"]
mod lm;
#[path = "../common/wf.rs"]
mod wf;
#[path = "../common/weng.rs"]
mod weng;
fn main() {
  let mut h = hx::Hx::new("histories of one engine: random workflows with 4 flush actions over 3 trigger and 3 continuous buffers, decisions that are late, refused or lost, flushes that take time, buffers and workflows coming and going, sessions, some restarts; distinct histories counted");
  let n = h.n(1500, 60_000);
  weng::run_all(&mut h, n, weng::Profile { sends: 5, restarts: 1, steps: 120 });
  h.finish()
}
