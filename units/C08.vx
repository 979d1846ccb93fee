@include prelude.inc
@include clock.inc
@text
// The configured rate, as the runtime watches hold it during a call (flags are 32-bit: the period is in milliseconds).
#[verifier::external_body]
pub struct Rate {}
impl Rate {
  pub uninterp spec fn quota(&self) -> u32;
  pub uninterp spec fn period(&self) -> int;
  #[verifier::external_body]
  pub fn num(&self) -> (r: u32) ensures r == self.quota() { unimplemented!() }
  #[verifier::external_body]
  pub fn per(&self) -> (r: Duration) ensures r.ns == self.period(), 0 <= r.ns <= 0xffff_ffff * 1_000_000 { unimplemented!() }
}
@type_rule Arc<__T> => __T
@type_rule Mutex<__T> => __T
@type_rule tokio::time::Instant => Instant
@guard __p.lock().unwrap()
@rule Arc::new(__x) => __x
@rule Mutex::new(__x) => __x
@rule now + __d => now.vx_plus(__d)
@rule Instant::now() + __d => vx_clock.now().vx_plus(__d)
@type bd-logger/src/ratelimit.rs SharedState
@type bd-logger/src/ratelimit.rs State
@type bd-logger/src/ratelimit.rs RateLimitLayer
@text
// What a permit decision does, given the clock reading.
pub ghost struct Acc { pub left: Option<u32>, pub until: int }
pub open spec fn acc(s: SharedState) -> Acc { Acc { left: match s.state { State::Limited => None, State::Ready { rem } => Some(rem) }, until: s.sleep_until.ns as int } }
pub open spec fn refilled(a: Acc, now: int, quota: u32, period: int) -> Acc { if a.until < now { Acc { left: Some(quota), until: now + period } } else { a } }
pub open spec fn charged(a: Acc, size: u32) -> Acc {
  match a.left { Some(rem) => Acc { left: if rem > size { Some((rem - size) as u32) } else { None }, until: a.until }, None => a }
}
@fn bd-logger/src/ratelimit.rs State::new
@spec
  ensures r == (State::Ready { rem }),
@fn bd-logger/src/ratelimit.rs try_acquire_ratelimit_permit
@param state: &mut SharedState
@extra_param vx_clock: &mut Clock
@spec
  ensures
    final(vx_clock)@ >= old(vx_clock)@,
    final(state).rate == old(state).rate,
    ({
      let a = refilled(acc(*old(state)), final(vx_clock)@, old(state).rate.quota(), old(state).rate.period());
      r == (a.left is Some) && acc(*final(state)) == charged(a, request_size)
    }),
@fn bd-logger/src/ratelimit.rs RateLimitLayer::new
@extra_param vx_clock: &mut Clock
@spec
  ensures
    acc(r.state_with_sleep) == (Acc { left: Some(rate.quota()), until: final(vx_clock)@ }),
    r.state_with_sleep.rate == rate,
@text
// ---- The property, over every sequence of requests that falls into one period (no refill in between).
// Bytes admitted by requests that do not exhaust the quota.
pub open spec fn run(a: Acc, sizes: Seq<u32>) -> Acc
  decreases sizes.len(),
{ if sizes.len() == 0 { a } else { charged(run(a, sizes.drop_last()), sizes.last()) } }
pub open spec fn is_admitted(a: Acc, sizes: Seq<u32>, i: int) -> bool { run(a, sizes.take(i)).left is Some }
pub open spec fn exhausts(a: Acc, sizes: Seq<u32>, i: int) -> bool { is_admitted(a, sizes, i) && run(a, sizes.take(i + 1)).left is None }
pub open spec fn within(a: Acc, sizes: Seq<u32>) -> int
  decreases sizes.len(),
{
  if sizes.len() == 0 { 0 } else {
    let i = sizes.len() - 1;
    within(a, sizes.drop_last()) + if run(a, sizes.drop_last()).left is Some && run(a, sizes).left is Some { sizes.last() as int } else { 0int }
  }
}
pub proof fn lemma_period(a: Acc, q: u32, sizes: Seq<u32>)
  requires a.left == Some(q),
  ensures
    // admitted, the exhausting one apart, stays below the quota
    within(a, sizes) <= q, within(a, sizes) > 0 ==> within(a, sizes) < q,
    match run(a, sizes).left { Some(rem) => rem == q - within(a, sizes) && (within(a, sizes) > 0 ==> rem > 0), None => true },
    run(a, sizes).until == a.until,
    // the first request of a period is admitted, whatever its size
    sizes.len() > 0 ==> is_admitted(a, sizes, 0),
    // after the one that exhausts the quota, none is
    forall|i: int, j: int| 0 <= i < j < sizes.len() && #[trigger] exhausts(a, sizes, i) ==> !#[trigger] is_admitted(a, sizes, j),
  decreases sizes.len(),
{
  if sizes.len() > 0 {
    lemma_period(a, q, sizes.drop_last());
    assert(sizes.take(0) =~= Seq::<u32>::empty());
  }
  assert forall|i: int, j: int| 0 <= i < j < sizes.len() && #[trigger] exhausts(a, sizes, i) implies !#[trigger] is_admitted(a, sizes, j) by {
    lemma_stuck(a, sizes, i + 1, j);
  }
}
pub proof fn lemma_stuck(a: Acc, sizes: Seq<u32>, i: int, j: int)
  requires 0 <= i <= j <= sizes.len(), run(a, sizes.take(i)).left is None,
  ensures run(a, sizes.take(j)).left is None,
  decreases j - i,
{
  if i < j { lemma_stuck(a, sizes, i, j - 1); assert(sizes.take(j).drop_last() =~= sizes.take(j - 1)); }
}
// A refused request is admitted on its first try after the period has ended.
pub fn vx_client(state: &mut SharedState, size: u32, vx_clock: &mut Clock) -> (r: (bool, bool))
  ensures !r.0 ==> (final(vx_clock)@ > acc(*old(state)).until ==> r.1),
{
  let a = try_acquire_ratelimit_permit(size, state, vx_clock);
  let b = try_acquire_ratelimit_permit(size, state, vx_clock);
  (a, b)
}
