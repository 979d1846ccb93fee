@include prelude.inc
@text
// ---- Stand-ins for the time, protobuf and std types, by what they denote: nanoseconds.
pub open spec fn G() -> int { 1_000_000_000 }
pub open spec fn MIN_S() -> int { -377_705_116_800 }
pub open spec fn MAX_S() -> int { 253_402_300_799 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct OffsetDateTime {}
impl OffsetDateTime {
  // nanoseconds since the epoch
  pub uninterp spec fn view(&self) -> int;
  #[verifier::external_body]
  pub fn unix_timestamp(&self) -> (r: i64) ensures r == self@ / G(), MIN_S() <= r <= MAX_S() { unimplemented!() }
  #[verifier::external_body]
  pub fn unix_timestamp_nanos(&self) -> (r: i128) ensures r == self@, MIN_S() * G() <= r < (MAX_S() + 1) * G() { unimplemented!() }
  #[verifier::external_body]
  pub fn nanosecond(&self) -> (r: u32) ensures r == self@ % G() { unimplemented!() }
  #[verifier::external_body]
  pub fn millisecond(&self) -> (r: u16) ensures r == self@ % G() / 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn from_unix_timestamp(s: i64) -> (r: Result<OffsetDateTime, AnyErr>)
    ensures r is Ok <==> MIN_S() <= s <= MAX_S(), r is Ok ==> r->Ok_0@ == s * G(),
  { unimplemented!() }
}
pub mod time {
  use vstd::prelude::*;
  // the sign of both parts agrees, as in the time crate
  pub struct Duration { pub s: i64, pub n: i32 }
  impl Clone for Duration { fn clone(&self) -> (r: Self) ensures r == *self { Duration { s: self.s, n: self.n } } }
  impl Copy for Duration {}
  impl Duration {
    pub open spec fn ok(&self) -> bool { -1_000_000_000 < self.n < 1_000_000_000 && (self.s > 0 ==> self.n >= 0) && (self.s < 0 ==> self.n <= 0) }
    pub open spec fn view(&self) -> int { self.s * 1_000_000_000 + self.n }
    #[verifier::external_body]
    pub fn whole_seconds(self) -> (r: i64) ensures r == self.s { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanoseconds(self) -> (r: i32) ensures r == self.n { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(s: i64) -> (r: Self) ensures r.s == s, r.n == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn nanoseconds(n: i64) -> (r: Self) ensures r.ok(), r@ == n { unimplemented!() }
  }
}
pub mod vxstd {
  use vstd::prelude::*;
  pub struct Duration { pub s: u64, pub n: u32 }
  impl Clone for Duration { fn clone(&self) -> (r: Self) ensures r == *self { Duration { s: self.s, n: self.n } } }
  impl Copy for Duration {}
  impl Duration {
    pub open spec fn ok(&self) -> bool { self.n < 1_000_000_000 }
    pub open spec fn view(&self) -> int { self.s * 1_000_000_000 + self.n }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Self) ensures r.s == s, r.n == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Self) ensures r.ok(), r@ == n { unimplemented!() }
  }
}
use vxstd::Duration;
pub mod protobuf { pub mod well_known_types { pub mod duration { pub use super::super::super::ProtoDuration as Duration; } } }
#[derive(Default)]
pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
#[derive(Default)]
pub struct ProtoDuration { pub seconds: i64, pub nanos: i32 }
impl ProtoDuration {
  pub open spec fn view(&self) -> int { self.seconds * 1_000_000_000 + self.nanos }
  // well-formed on the wire
  pub open spec fn ok(&self) -> bool { -1_000_000_000 < self.nanos < 1_000_000_000 && (self.seconds > 0 ==> self.nanos >= 0) && (self.seconds < 0 ==> self.nanos <= 0) }
}
impl Timestamp {
  pub open spec fn view(&self) -> int { self.seconds * 1_000_000_000 + self.nanos }
  pub open spec fn ok(&self) -> bool { 0 <= self.nanos < 1_000_000_000 && MIN_S() <= self.seconds <= MAX_S() }
}
// Adding: panics where the result is not representable.
pub trait VxPlus<D>: Sized {
  spec fn plus_ok(&self, d: D) -> bool;
  spec fn plus_is(&self, d: D, r: Self) -> bool;
  fn vx_plus(self, d: D) -> (r: Self) requires self.plus_ok(d), ensures self.plus_is(d, r);
}
impl VxPlus<Duration> for OffsetDateTime {
  open spec fn plus_ok(&self, d: Duration) -> bool { (self@ + d@) / G() <= MAX_S() }
  open spec fn plus_is(&self, d: Duration, r: Self) -> bool { r@ == self@ + d@ }
  #[verifier::external_body]
  fn vx_plus(self, d: Duration) -> (r: Self) { unimplemented!() }
}
impl VxPlus<Duration> for Duration {
  open spec fn plus_ok(&self, d: Duration) -> bool { self@ + d@ <= u64::MAX * G() }
  open spec fn plus_is(&self, d: Duration, r: Self) -> bool { r.ok() && r@ == self@ + d@ }
  #[verifier::external_body]
  fn vx_plus(self, d: Duration) -> (r: Self) { unimplemented!() }
}
impl VxPlus<time::Duration> for time::Duration {
  open spec fn plus_ok(&self, d: time::Duration) -> bool { i64::MIN * G() - G() < self@ + d@ < i64::MAX * G() + G() }
  open spec fn plus_is(&self, d: time::Duration, r: Self) -> bool { r.ok() && r@ == self@ + d@ }
  #[verifier::external_body]
  fn vx_plus(self, d: time::Duration) -> (r: Self) { unimplemented!() }
}
impl VxPlus<i64> for i64 {
  open spec fn plus_ok(&self, d: i64) -> bool { i64::MIN <= self + d <= i64::MAX }
  open spec fn plus_is(&self, d: i64, r: Self) -> bool { r == self + d }
  fn vx_plus(self, d: i64) -> (r: Self) { (self + d) as i64 }
}
pub assume_specification [i64::unsigned_abs] (n: i64) -> (r: u64) ensures r == if n < 0 { -n } else { n as int };
pub assume_specification [i32::unsigned_abs] (n: i32) -> (r: u32) ensures r == if n < 0 { -n } else { n as int };
// Euclidean remainder.
#[verifier::external_body]
pub fn vx_rem(a: i64, b: i64) -> (r: i64)
  requires b != 0, !(a == i64::MIN && b == -1),
  ensures r == (a as int) % (b as int),
{ a.rem_euclid(b) }
pub fn vx_u64(n: i32) -> (r: u64) ensures r == if n >= 0 { n as int } else { 0int } { if n >= 0 { n as u64 } else { 0 } }
// The last multiple of k at or before t, and the first at or after it.
pub open spec fn down(t: int, k: int) -> int { t - t % k }
pub open spec fn up(t: int, k: int) -> int { if t % k == 0 { t } else { t + k - t % k } }
// Multiples, in seconds and in nanoseconds.
pub proof fn lemma_scale(t: int, k: int)
  requires k > 0,
  ensures
    down(t, k * G()) == down(t / G(), k) * G(),
    up(t, k * G()) == (if (t / G()) % k == 0 && t % G() == 0 { t } else { (t / G() + k - (t / G()) % k) * G() }),
{
  let q = t / G(); let r = t % G(); let m = q / k; let e = q % k;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, G());
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, k);
  assert(0 <= r < G());
  assert(0 <= e < k) by { vstd::arithmetic::div_mod::lemma_mod_bound(q, k); }
  let w = e * G() + r;
  assert(0 <= w < k * G()) by (nonlinear_arith) requires 0 <= e < k, 0 <= r < G(), w == e * G() + r, G() == 1_000_000_000;
  assert(t == (k * G()) * m + w) by (nonlinear_arith) requires t == G() * q + r, q == k * m + e, w == e * G() + r;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t, k * G(), m, w);
  assert(t % (k * G()) == w);
  assert(t - w == (q - e) * G()) by (nonlinear_arith) requires t == G() * q + r, w == e * G() + r;
  assert(w == 0 <==> (e == 0 && r == 0)) by (nonlinear_arith) requires 0 <= e, 0 <= r, w == e * G() + r, G() == 1_000_000_000;
  assert(t + k * G() - w == (q + k - e) * G()) by (nonlinear_arith) requires t == G() * q + r, w == e * G() + r;
}
@type_rule MessageField<__T> => Option<__T>
@type_rule std::time::Duration => Duration
@type_rule protobuf::well_known_types::duration::Duration => ProtoDuration
@rule Some(__x).into() => Some(__x)
@rule Duration::from_nanos(__x.try_into().unwrap_or_default()) => Duration::from_nanos(vx_u64(__x))
@rule std::time::Duration::from_nanos(__x) => Duration::from_nanos(__x)
@rule std::time::Duration::from_secs(__x) => Duration::from_secs(__x)
@rule u64::from(__x) => (__x) as u64
@rule i128::from(__x) => (__x) as i128
@rule i64::from(__x) => (__x) as i64
@rule __a.rem_euclid(__b) => vx_rem(__a, __b)
@rule Self::from_unix_timestamp(__a).unwrap() => vx_unwrap(OffsetDateTime::from_unix_timestamp(__a))
@rule OffsetDateTime::from_unix_timestamp(__a).unwrap() => vx_unwrap(OffsetDateTime::from_unix_timestamp(__a))
@rule __a + __b => __a.vx_plus(__b)
@text
pub fn vx_unwrap(r: Result<OffsetDateTime, AnyErr>) -> (o: OffsetDateTime) requires r is Ok, ensures o == r->Ok_0 { match r { Ok(o) => o, Err(_) => { vx_unreachable() } } }
@fn bd-time/src/lib.rs OffsetDateTimeExt for OffsetDateTime::into_proto
@impl impl OffsetDateTime
@as into_proto
@spec
  ensures r is Some, r->Some_0.ok(), r->Some_0@ == self@,
@entry
  proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self@, G()); vstd::arithmetic::div_mod::lemma_mod_bound(self@, G()); }
@fn bd-time/src/lib.rs OffsetDateTimeExt for OffsetDateTime::unix_timestamp_ms
@impl impl OffsetDateTime
@spec
  ensures r == self@ / 1_000_000,
@entry
  proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self@, G()); vstd::arithmetic::div_mod::lemma_mod_bound(self@, G()); }
@fn bd-time/src/lib.rs OffsetDateTimeExt for OffsetDateTime::floor
@impl impl OffsetDateTime
@spec
  requires interval.s >= 1, MIN_S() * G() <= down(self@, interval.s * G()),
  ensures r@ == down(self@, interval.s * G()),
@entry
  proof { lemma_scale(self@, interval.s as int); }
@fn bd-time/src/lib.rs OffsetDateTimeExt for OffsetDateTime::ceil
@impl impl OffsetDateTime
@spec
  requires interval.s >= 1, up(self@, interval.s * G()) <= MAX_S() * G(),
  ensures r@ == up(self@, interval.s * G()),
@entry
  proof {
    lemma_scale(self@, interval.s as int);
    let q = self@ / G();
    if q >= 0 { vstd::arithmetic::div_mod::lemma_mod_decreases(q as nat, interval.s as nat); }
  }
@fn bd-time/src/lib.rs TimestampExt for Timestamp::to_offset_date_time
@impl impl Timestamp
@spec
  requires self.ok(),
  ensures r@ == self@,
@fn bd-time/src/lib.rs ProtoDurationExt for protobuf::well_known_types::duration::Duration::to_std_duration_absolute
@impl impl ProtoDuration
@spec
  requires self.ok(),
  ensures r@ == if self@ < 0 { -self@ } else { self@ },
@fn bd-time/src/lib.rs ProtoDurationExt for protobuf::well_known_types::duration::Duration::to_std_duration_checked
@impl impl ProtoDuration
@spec
  // Signs that disagree included: refused exactly when a part is negative.
  requires -1_000_000_000 < self.nanos < 1_000_000_000,
  ensures r is None <==> self.seconds < 0 || self.nanos < 0, r is Some ==> r->Some_0@ == self@,
@fn bd-time/src/lib.rs ProtoDurationExt for protobuf::well_known_types::duration::Duration::to_time_duration
@impl impl ProtoDuration
@spec
  requires self.ok(),
  ensures r@ == self@, r.ok(),
@fn bd-time/src/lib.rs ToProtoDuration for time::Duration::into_proto
@impl impl time::Duration
@as into_proto
@spec
  requires self.ok(),
  ensures r is Some, r->Some_0.ok(), r->Some_0@ == self@,
@text
// There and back.
pub fn vx_there_and_back(d: OffsetDateTime) -> (r: OffsetDateTime) ensures r@ == d@ { d.into_proto().unwrap().to_offset_date_time() }
pub fn vx_there_and_back_span(d: time::Duration) -> (r: time::Duration) requires d.ok(), ensures r@ == d@, r == d { d.into_proto().unwrap().to_time_duration() }
