//! deps: bd-api bd-client-common bd-client-stats bd-client-stats-store bd-log-matcher bd-log-primitives bd-matcher bd-proto bd-runtime bd-workflows protobuf time tokio
//! The real workflows engine across configuration updates, sessions, saves, restarts and damaged state files, against
//! the rules written out by hand.
#[path = "../common/lm.rs"]
mod lm;
#[path = "../common/wf.rs"]
mod wf;
#[path = "../common/weng.rs"]
mod weng;
fn main() {
  let mut h = hx::Hx::new("histories of one SDK directory: 1 to 5 random workflows over 4 messages, logs of several sessions, configuration updates, saves, restarts (with damage), decisions of the server; distinct histories counted");
  let n = h.n(1500, 60_000);
  weng::run_all(&mut h, n, weng::Profile { sends: 1, restarts: 4, steps: 90 });
  weng::run_all(&mut h, n / 4, weng::Profile { sends: 5, restarts: 6, steps: 90 });
  weng::run_crafted(&mut h);
  h.finish()
}
