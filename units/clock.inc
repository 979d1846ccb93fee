@text
// ---- Time, in nanoseconds. tokio's Instant difference saturates at zero; durations compare as numbers.
pub struct Instant { pub ns: u64 }
pub struct Duration { pub ns: i128 }
impl Clone for Instant { fn clone(&self) -> (r: Self) { Instant { ns: self.ns } } }
impl Copy for Instant {}
impl Clone for Duration { fn clone(&self) -> (r: Self) { Duration { ns: self.ns } } }
impl Copy for Duration {}
pub open spec fn since(a: Instant, b: Instant) -> int { if a.ns >= b.ns { a.ns - b.ns } else { 0 } }
// The clock: each reading is at or after the one before.
#[verifier::external_body]
pub struct Clock {}
impl Clone for Clock { #[verifier::external_body] fn clone(&self) -> Self { Clock {} } }
impl Clock {
  pub uninterp spec fn view(&self) -> int;
  #[verifier::external_body]
  pub fn now(&mut self) -> (r: Instant)
    ensures r.ns >= old(self)@, final(self)@ == r.ns, r.ns < 0x4000_0000_0000_0000,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn elapsed(&mut self, t: Instant) -> (r: Duration)
    ensures final(self)@ >= old(self)@, r.ns == (if final(self)@ >= t.ns { final(self)@ - t.ns } else { 0 }),
  { unimplemented!() }
}
pub trait VxPlus<D>: Sized {
  spec fn plus_ok(&self, d: D) -> bool;
  spec fn plus(&self, d: D) -> Self;
  fn vx_plus(self, d: D) -> (r: Self) requires self.plus_ok(d), ensures r == self.plus(d);
}
impl VxPlus<Duration> for Instant {
  open spec fn plus_ok(&self, d: Duration) -> bool { 0 <= self.ns + d.ns <= u64::MAX }
  open spec fn plus(&self, d: Duration) -> Self { Instant { ns: (self.ns + d.ns) as u64 } }
  fn vx_plus(self, d: Duration) -> (r: Self) { Instant { ns: (self.ns as i128 + d.ns) as u64 } }
}
impl Duration {
  pub fn unsigned_abs(self) -> (r: Duration)
    requires self.ns > i128::MIN,
    ensures r.ns == if self.ns < 0 { -self.ns } else { self.ns as int },
  { Duration { ns: if self.ns < 0 { -self.ns } else { self.ns } } }
}
pub trait VxNum: Sized {
  spec fn num(&self) -> int;
  fn vx_gt(self, o: Self) -> (r: bool) ensures r == (self.num() > o.num());
  fn vx_ge(self, o: Self) -> (r: bool) ensures r == (self.num() >= o.num());
}
impl VxNum for u32 {
  open spec fn num(&self) -> int { *self as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self > o }
  fn vx_ge(self, o: Self) -> (r: bool) { self >= o }
}
impl VxNum for Instant {
  open spec fn num(&self) -> int { self.ns as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self.ns > o.ns }
  fn vx_ge(self, o: Self) -> (r: bool) { self.ns >= o.ns }
}
impl VxNum for Duration {
  open spec fn num(&self) -> int { self.ns as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self.ns > o.ns }
  fn vx_ge(self, o: Self) -> (r: bool) { self.ns >= o.ns }
}
pub fn vx_sub(a: Instant, b: Instant) -> (r: Duration)
  ensures r.ns == since(a, b),
{ Duration { ns: if a.ns >= b.ns { (a.ns - b.ns) as i128 } else { 0 } } }
@rule Instant::now() => vx_clock.now()
@rule tokio::time::Instant::now() => vx_clock.now()
@rule __a.elapsed() => vx_clock.elapsed(__a)
@rule __a - __b => vx_sub(__a, __b)
@rule __a.duration_since(__b) => vx_sub(__a, __b)
@rule __a.saturating_duration_since(__b) => vx_sub(__a, __b)
@rule __a > __b => __a.vx_gt(__b)
@rule __a >= __b => __a.vx_ge(__b)
@rule __a < __b => __b.vx_gt(__a)
@rule __a <= __b => __b.vx_ge(__a)
