@include prelude.inc
@text
// ---- A gauge handle and the number it shows, as seen by the one guard that holds it.
pub struct IntGauge { pub v: i64 }
impl IntGauge {
  pub fn add(&mut self, n: i64)
    requires i64::MIN <= old(self).v + n <= i64::MAX,
    ensures final(self).v == old(self).v + n,
  { self.v = self.v + n; }
  pub fn sub(&mut self, n: i64)
    requires i64::MIN <= old(self).v - n <= i64::MAX,
    ensures final(self).v == old(self).v - n,
  { self.v = self.v - n; }
  pub fn get(&self) -> (r: i64) ensures r == self.v { self.v }
  pub fn inc(&mut self)
    requires old(self).v < i64::MAX,
    ensures final(self).v == old(self).v + 1,
  { self.v = self.v + 1; }
  pub fn dec(&mut self)
    requires old(self).v > i64::MIN,
    ensures final(self).v == old(self).v - 1,
  { self.v = self.v - 1; }
}
@type_rule &'a IntGauge => IntGauge
@type bd-server-stats/src/stats.rs AutoGauge
@type bd-server-stats/src/stats.rs StackAutoGauge
@nogenerics
@fn bd-server-stats/src/stats.rs AutoGauge::new
@spec
  requires 0 <= gauge.v < i64::MAX,
  ensures r.gauge.v == gauge.v + 1,
@entry
  let mut gauge = gauge;
@fn bd-server-stats/src/stats.rs Drop for AutoGauge::drop
@spec
  requires old(self).gauge.v > 0,
  ensures final(self).gauge.v == old(self).gauge.v - 1,
@fn bd-server-stats/src/stats.rs StackAutoGauge::new
@spec
  requires 0 <= gauge.v < i64::MAX,
  ensures r.gauge.v == gauge.v + 1,
@entry
  let mut gauge = gauge;
@fn bd-server-stats/src/stats.rs Drop for StackAutoGauge::drop
@spec
  requires old(self).gauge.v > 0,
  ensures final(self).gauge.v == old(self).gauge.v - 1,
