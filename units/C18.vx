@include prelude.inc
@text
// ---- The environment and floating point are assumed: parsing, `is_normal` and the `as usize` cast
// (truncation toward zero, saturating) mean what std and the language define.
pub uninterp spec fn env_num_cpus() -> Option<Seq<char>>;
pub uninterp spec fn parse_f64(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn normal(f: f64) -> bool;
pub uninterp spec fn trunc_usize(f: f64) -> usize;
pub uninterp spec fn host_parallelism() -> Option<usize>;
#[verifier::external_body]
pub struct EnvErr {}
#[verifier::external_body]
pub struct NumErr {}
#[verifier::external_body]
pub struct HostErr {}
#[verifier::external_body]
pub fn vx_env() -> (r: Result<String, EnvErr>)
  ensures r is Ok <==> env_num_cpus() is Some, r is Ok ==> r->Ok_0@ == env_num_cpus()->Some_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_parse_f64(s: &String) -> (r: Result<f64, NumErr>)
  ensures r is Ok <==> parse_f64(s@) is Some, r is Ok ==> r->Ok_0 == parse_f64(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_normal(f: f64) -> (r: bool)
  ensures r == normal(f),
{ f.is_normal() }
#[verifier::external_body]
pub fn vx_f64_as_usize(f: f64) -> (r: usize)
  ensures r == trunc_usize(f),
{ f as usize }
#[verifier::external_body]
pub fn vx_parallelism() -> (r: Result<NonZeroUsize, HostErr>)
  ensures r is Ok <==> host_parallelism() is Some, r is Ok ==> r->Ok_0.n == host_parallelism()->Some_0,
{ unimplemented!() }
pub struct NonZeroUsize { pub n: usize }
impl NonZeroUsize {
  pub fn get(self) -> (r: usize) ensures r == self.n { self.n }
}
pub trait VxOrd: Sized {
  spec fn n(&self) -> int;
  fn clamp(self, lo: Self, hi: Self) -> (r: Self)
    requires lo.n() <= hi.n(),
    ensures r == (if self.n() < lo.n() { lo } else if self.n() > hi.n() { hi } else { self });
  fn max(self, o: Self) -> (r: Self)
    ensures r == (if self.n() > o.n() { self } else { o });
  fn min(self, o: Self) -> (r: Self)
    ensures r == (if self.n() <= o.n() { self } else { o });
}
impl VxOrd for usize {
  open spec fn n(&self) -> int { *self as int }
  fn clamp(self, lo: Self, hi: Self) -> (r: Self) { if self < lo { lo } else if self > hi { hi } else { self } }
  fn max(self, o: Self) -> (r: Self) { if self > o { self } else { o } }
  fn min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
}
// The decision of the property.
pub open spec fn hint() -> Option<f64> {
  match env_num_cpus() {
    None => None,
    Some(s) => match parse_f64(s) { None => None, Some(f) => if normal(f) { Some(f) } else { None } },
  }
}
@rule std::env::var("NUM_CPUS") => vx_env()
@rule __s.parse::<f64>() => vx_parse_f64(&__s)
@rule __f.is_normal() => vx_is_normal(__f)
@rule __f as usize => vx_f64_as_usize(__f)
@rule std::cmp::max(__a, __b) => VxOrd::max(__a, __b)
@rule std::cmp::min(__a, __b) => VxOrd::min(__a, __b)
@rule __a.clamp(__b, __c) => VxOrd::clamp(__a, __b, __c)
@rule __a.max(__b) => VxOrd::max(__a, __b)
@rule __a.min(__b) => VxOrd::min(__a, __b)
@rule std::thread::available_parallelism() => vx_parallelism()
@rule __x.map_or_else(|__e| __d, NonZeroUsize::get) => match __x { Ok(vx_v) => vx_v.get(), Err(__e) => __d }
@rule MAX_RT_THREADPOOL_SIZE => 4096
@fn bd-rt/src/lib.rs num_cpus
@spec
  ensures
    hint() is Some ==> r == (if trunc_usize(hint()->Some_0) < 1 { 1usize } else { trunc_usize(hint()->Some_0) }),
    hint() is None ==> r == (match host_parallelism() {
      None => 1usize,
      Some(n) => if n < 1 { 1usize } else if n > 4096 { 4096usize } else { n },
    }),
    r >= 1,
