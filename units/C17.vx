@include prelude.inc
@include clock.inc
@type_rule Mutex<__T> => __T
@type_rule parking_lot::Mutex<__T> => __T
@guard __p.lock()
@type bd-log/src/rate_limit_log.rs WarnTracker
@fn bd-log/src/rate_limit_log.rs WarnTracker::should_warn
@self mut
@extra_param vx_clock: &mut Clock
@spec
  ensures
    final(vx_clock)@ >= old(vx_clock)@,
    // fires on the first use, then exactly when more than the interval has passed since it last fired
    old(self).last_used_time is None ==> r,
    old(self).last_used_time is Some ==>
      (r <==> (if final(vx_clock)@ >= old(self).last_used_time->Some_0.ns { final(vx_clock)@ - old(self).last_used_time->Some_0.ns } else { 0 }) > duration.ns),
    // only a use that fires counts for the next one
    r ==> final(self).last_used_time is Some && final(self).last_used_time->Some_0.ns == final(vx_clock)@,
    !r ==> final(self).last_used_time == old(self).last_used_time,
@text
// Within one interval (no longer than d by the clock) two uses never both fire.
pub fn vx_client(c: &mut Clock, d: Duration) -> (out: (bool, bool, bool))
  requires d.ns >= 0,
  ensures
    out.0,
    final(c)@ - old(c)@ <= d.ns ==> !out.1 && !out.2,
{
  let mut t = WarnTracker { last_used_time: None };
  let a = t.should_warn(d, c);
  let b = t.should_warn(d, c);
  let e = t.should_warn(d, c);
  (a, b, e)
}
