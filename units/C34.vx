@include C19.vx
@rule __x.await => __x
@type_rule BTreeSet<PendingFlushBuffersAction> => Pending
@type_rule BTreeSet<__T> => Bag
@type_rule Receiver<__T> => Chan
@type_rule Sender<__T> => Chan
@rule Instant::now() => vx_now()
@type_rule PathBuf => VxPath
@type_rule &Path => &mut VxPath
@type_rule HashMap<&str, __V> => VMap<__V>
@type_rule DurationWatch<PersistenceWriteIntervalFlag> => Watch
@text
// ---- What this unit does not speak of: statistics, flushes and their negotiation (C32), channels.
#[verifier::external_body]
pub struct Counter {}
impl Counter {
  #[verifier::external_body]
  pub fn inc(&self) { }
  #[verifier::external_body]
  pub fn inc_by<T>(&self, n: T) { }
}
#[verifier::external_body]
pub struct Histogram {}
impl Histogram {
  #[verifier::external_body]
  pub fn start_timer(&self) { }
  #[verifier::external_body]
  pub fn observe<T>(&self, n: T) { }
}
#[verifier::external_body]
pub struct Bag {}
#[verifier::external_body]
pub struct Pending {}
#[verifier::external_body]
pub struct PendingFlushBuffersAction {}
#[verifier::external_body]
pub struct StreamingBuffersAction {}
#[verifier::external_body]
pub struct Resolver {}
#[verifier::external_body]
pub struct ResolverConfig {}
#[verifier::external_body]
pub struct Chan {}
#[verifier::external_body]
pub struct Flushes {}
#[verifier::external_body]
pub struct MetricsCollector {}
#[verifier::external_body]
pub struct WorkflowsEngineResult<'a> { p: core::marker::PhantomData<&'a u8> }
pub struct Streamed { pub updated_streaming_actions: Vec<StreamingBuffersAction>, pub has_changed_streaming_actions: bool, pub log_destination_buffer_ids: Bag }
pub struct Flushed { pub new_pending_actions_to_add: Pending, pub triggered_flush_buffers_action_ids: Bag, pub triggered_flushes_buffer_ids: Bag }
pub struct Step { pub path: SankeyPath }
impl Pending { #[verifier::external_body] pub fn insert(&mut self, a: PendingFlushBuffersAction) -> (r: bool) { unimplemented!() } }
impl Clone for Pending { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for PendingFlushBuffersAction { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for StreamingBuffersAction { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl VxIterable for Pending {
  type It = PendingFlushBuffersAction;
  uninterp spec fn items(&self) -> Seq<PendingFlushBuffersAction>;
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<PendingFlushBuffersAction>) { unimplemented!() }
}
impl<'a> VxIterable for &'a Pending {
  type It = &'a PendingFlushBuffersAction;
  uninterp spec fn items(&self) -> Seq<&'a PendingFlushBuffersAction>;
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<&'a PendingFlushBuffersAction>) { unimplemented!() }
}
impl VxIterable for Bag {
  type It = Step;
  uninterp spec fn items(&self) -> Seq<Step>;
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<Step>) { unimplemented!() }
}
impl Bag { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) { unimplemented!() } }
impl Chan {
  #[verifier::external_body]
  pub fn try_send<T>(&mut self, m: T) -> (r: Result<(), AnyErr>) { unimplemented!() }
}
impl MetricsCollector {
  #[verifier::external_body]
  pub fn emit_metrics(&self, a: &Bag, log: &LogRef) { }
  #[verifier::external_body]
  pub fn emit_sankeys(&self, a: &Bag, log: &LogRef) { }
}
impl ResolverConfig { #[verifier::external_body] pub fn new(t: Bag, c: Bag) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn standard_pending(r: Resolver, p: Pending) -> Pending;
pub uninterp spec fn standard_streaming(r: Resolver, s: Seq<StreamingBuffersAction>) -> Seq<StreamingBuffersAction>;
impl Resolver {
  #[verifier::external_body]
  pub fn update(&mut self, c: ResolverConfig) { unimplemented!() }
  #[verifier::external_body]
  pub fn standardize_pending_actions(&self, p: Pending) -> (r: Pending) ensures r == standard_pending(*self, p), { unimplemented!() }
  #[verifier::external_body]
  pub fn standardize_streaming_buffers(&self, s: Vec<StreamingBuffersAction>) -> (r: Vec<StreamingBuffersAction>) ensures r@ == standard_streaming(*self, s@), { unimplemented!() }
  #[verifier::external_body]
  pub fn process_streaming_actions(&self, s: Vec<(StreamingBuffersAction, bool)>, d: &Bag, k: &str) -> (r: Streamed)
    ensures !r.has_changed_streaming_actions ==> r.updated_streaming_actions@ == first2(s@), // (C32)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn process_flush_buffer_actions(&self, a: Bag, k: &str, p: &Pending, s: &Vec<StreamingBuffersAction>) -> (r: Flushed) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_prepare(a: Vec<TriggeredAction>) -> (r: (Bag, Bag, Bag, Bag)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_streams(s: &mut Vec<StreamingBuffersAction>, f: &mut Flushes) -> (r: Vec<(StreamingBuffersAction, bool)>) ensures first2(r@) == old(s)@, { unimplemented!() }
#[verifier::external_body]
pub fn vx_result<'a>() -> (r: WorkflowsEngineResult<'a>) { unimplemented!() }
pub fn vx_either(a: bool, b: bool) -> (r: bool) ensures r == (a || b), { a || b }
// ---- Texts.
#[verifier::external_body]
pub fn vx_same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty(), { String::new() }
pub trait VxNone: Sized { spec fn none(&self) -> bool; fn vx_none(&self) -> (r: bool) ensures r == self.none(); }
impl VxNone for String { open spec fn none(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_none(&self) -> (r: bool) { self.is_empty() } }
impl<T> VxNone for Vec<T> { open spec fn none(&self) -> bool { self.len() == 0 } fn vx_none(&self) -> (r: bool) { self.len() == 0 } }
pub uninterp spec fn session_of(l: LogRef) -> Seq<char>;
#[verifier::external_body]
pub fn vx_session<'a>(l: &'a LogRef) -> (r: &'a str) ensures r@ == session_of(*l), { unimplemented!() }
// Sums of 32 bits are assumed not to overflow (2^32 traversals).
#[verifier::external_body]
pub fn vx_add(a: u32, b: u32) -> (r: u32) ensures r == a + b, { a + b }
// two configurations compare the same
pub uninterp spec fn same_config(a: Config, b: Config) -> bool;
#[verifier::external_body]
pub fn vx_same_config(a: &Config, b: &Config) -> (r: bool) ensures r == same_config(*a, *b), { unimplemented!() }
@rule __x.map_or_else(HashMap::new, |__p| __b) => match __x { Some(__p) => __b, None => HashMap::new() }
@fn bd-workflows/src/config.rs Config::id
@spec
  ensures r@ == self.id@,
@fn bd-workflows/src/workflow.rs Workflow::new
@spec
  ensures r.id == config_id, r.runs@.len() == 0,
@fn bd-workflows/src/workflow.rs Workflow::new_with_runs
@spec
  ensures r.id == config_id, r.runs == runs,
@fn bd-workflows/src/workflow.rs Workflow::id
@spec
  ensures r@ == self.id@,
@text
// ---- What is saved of a workflow: its runs that are not at the start.
pub open spec fn active(s: Seq<Rv>) -> Seq<Rv>
  decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else if run_at_start(s.last().ts) { active(s.drop_last()) } else { active(s.drop_last()).push(s.last()) } }
proof fn l_active(s: Seq<Rv>)
  ensures all_at_start(s) <==> active(s).len() == 0,
  decreases s.len(),
{
  if s.len() > 0 {
    let d = s.drop_last();
    l_active(d);
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
    if all_at_start(s) { assert(run_at_start(s[s.len() - 1].ts)); assert(all_at_start(d)) by { assert forall|i: int| 0 <= i < d.len() implies run_at_start((#[trigger] d[i]).ts) by { assert(run_at_start(s[i].ts)); } } }
    else if active(s).len() == 0 { assert(all_at_start(s)) by { assert forall|i: int| 0 <= i < s.len() implies run_at_start((#[trigger] s[i]).ts) by { if i < d.len() { assert(run_at_start(d[i].ts)); } } } }
  }
}
pub ghost struct Wv { pub id: Seq<char>, pub runs: Seq<Rv> }
pub open spec fn wv(w: Workflow) -> Wv { Wv { id: w.id@, runs: rvs(w.runs@) } }
pub open spec fn wvs(s: Seq<Workflow>) -> Seq<Wv> { s.map_values(|w: Workflow| wv(w)) }
@fn bd-workflows/src/workflow.rs Workflow::optimized
@spec
  ensures wv(r) == (Wv { id: self.id@, runs: active(rvs(self.runs@)) }),
@frule self.runs().iter().filter(|&run| __c).cloned().collect_vec() => vxraw!("{ let ghost l = rvs(self.runs@); let mut vx_o: Vec<Run> = Vec::new(); let mut vx_n: usize = 0; proof { assert(l.take(0) =~= Seq::empty()); assert(rvs(vx_o@) =~= Seq::<Rv>::empty()); } while vx_n < self.runs.len() invariant 0 <= vx_n <= l.len(), l == rvs(self.runs@), rvs(vx_o@) == active(l.take(vx_n as int)), decreases l.len() - vx_n, { let run = &self.runs[vx_n]; proof { assert(l.take(vx_n + 1).drop_last() =~= l.take(vx_n as int)); assert(l.take(vx_n + 1).last() == rv(*run)); } let vx_k = __c; if vx_k { let vx_r = run.vx_clone(); let ghost o = vx_o@; vx_o.push(vx_r); proof { assert(rvs(o.push(vx_r)) =~= rvs(o).push(rv(vx_r))); } } vx_n = vx_n + 1; } proof { assert(l.take(l.len() as int) =~= l); } vx_o }")
@text
// ---- Does a workflow, as restored, fit a configuration? None of its runs is at the start, an exclusive one has one at most.
pub open spec fn fits(c: Config, s: Seq<Rv>) -> bool { wf_runs(c, s) && (c.execution is Exclusive ==> s.len() <= 1) && !any_at_start(s) }
impl Clone for Run { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@fn bd-workflows/src/workflow.rs Workflow::fits_config
@spec
  ensures r == fits(*config, rvs(self.runs@)),
@frule self.runs.iter().flat_map(|run| &run.traversals).all(|t| __b) => vxraw!("{ let ghost c = *config; let mut vx_n: usize = 0; let mut vx_ok = true; while vx_n < self.runs.len() && vx_ok invariant 0 <= vx_n <= self.runs@.len(), c == *config, vx_ok ==> (forall|i: int| 0 <= i < vx_n ==> wfs(c, (#[trigger] rvs(self.runs@)[i]).ts)), !vx_ok ==> !wf_runs(c, rvs(self.runs@)), decreases self.runs@.len() - vx_n, { let run = &self.runs[vx_n]; let vx_s = &run.traversals; let ghost w = rv(*run).ts; proof { assert(rvs(self.runs@)[vx_n as int].ts == w); assert(w.len() == vx_s.len()); } let mut vx_m: usize = 0; while vx_m < vx_s.len() && vx_ok invariant 0 <= vx_m <= vx_s@.len(), vx_n < self.runs@.len(), vx_s@.len() == w.len(), w == tvs(vx_s@), w == rvs(self.runs@)[vx_n as int].ts, c == *config, vx_ok ==> (forall|j: int| 0 <= j < vx_m ==> wf(c, #[trigger] w[j])), !vx_ok ==> !wf_runs(c, rvs(self.runs@)), decreases vx_s@.len() - vx_m, { let t = &vx_s[vx_m]; proof { assert(w[vx_m as int] == tv(*t)); } let vx_b = __b; if !vx_b { proof { assert(!wf(c, w[vx_m as int])); } vx_ok = false; } vx_m = vx_m + 1; } vx_n = vx_n + 1; } vx_ok }")
@type bd-workflows/src/engine.rs WorkflowsState
@field pending_actions: Pending
@type bd-workflows/src/engine.rs WorkflowsEngineStats
@type bd-workflows/src/engine.rs StateStoreStats
@type bd-workflows/src/engine.rs StateStore
@type bd-workflows/src/engine.rs WorkflowsEngine
@dropfield state_periodic_write_interval
@dropfield flush_buffers_negotiator_join_handle
@dropfield sankey_processor_join_handle
@field pending_buffer_flushes: Flushes
@type bd-workflows/src/config.rs WorkflowsConfiguration
@type bd-workflows/src/engine.rs WorkflowsEngineConfig
@text
// ---- The state file, and what it holds.
pub struct Instant { pub ns: u128 }
impl Clone for Instant { fn clone(&self) -> (r: Self) { Instant { ns: self.ns } } }
impl Copy for Instant {}
pub uninterp spec fn is_now(t: Instant) -> bool;
#[verifier::external_body]
pub fn vx_now() -> (r: Instant) ensures is_now(r), { unimplemented!() }
impl Instant {
  // (saturating)
  #[verifier::external_body]
  pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns == (if self.ns >= o.ns { self.ns - o.ns } else { 0int }), { unimplemented!() }
}
#[verifier::external_body]
pub struct Watch {}
impl Watch {
  pub uninterp spec fn now(&self) -> Duration;
  #[verifier::external_body]
  pub fn read(&self) -> (r: Duration) ensures r == self.now(), { unimplemented!() }
}
// some file operation fails
pub uninterp spec fn io_fails() -> bool;
#[verifier::external_body]
pub struct VxPath {}
impl VxPath {
  // the content of the file there, if there is one
  pub uninterp spec fn view(&self) -> Option<Seq<u8>>;
  #[verifier::external_body]
  pub fn exists(&self) -> (r: bool) ensures r == (self@ is Some), { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFile {}
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n, { self.n } }
impl VxFile {
  pub uninterp spec fn bytes(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn metadata(&self) -> (r: Result<Metadata, AnyErr>) ensures r is Ok ==> r->Ok_0.n == self.bytes().len(), r is Err ==> io_fails(), { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_open(p: &VxPath) -> (r: Result<VxFile, AnyErr>) ensures r is Ok ==> p@ == Some(r->Ok_0.bytes()), r is Err ==> p@ is None || io_fails(), { unimplemented!() }
#[verifier::external_body]
pub fn vx_remove(p: &mut VxPath) -> (r: Result<(), AnyErr>) ensures r is Ok ==> final(p)@ is None, r is Err ==> final(p)@ == old(p)@ && io_fails(), { unimplemented!() }
#[verifier::external_body]
pub struct BufReader {}
impl BufReader {
  pub uninterp spec fn bytes(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(f: VxFile) -> (r: Self) ensures r.bytes() == f.bytes(), { unimplemented!() }
}
// the writer keeps back `pending`
#[verifier::external_body]
pub struct BufWriter {}
impl BufWriter {
  pub uninterp spec fn pending(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(f: VxFile) -> (r: Self) ensures r.pending() == Seq::<u8>::empty(), { unimplemented!() }
}
pub ghost struct Sv { pub session: Seq<char>, pub ws: Seq<Wv>, pub pending: Pending, pub streaming: Seq<StreamingBuffersAction> }
pub open spec fn sv(s: WorkflowsState) -> Sv { Sv { session: s.session_id@, ws: wvs(s.workflows@), pending: s.pending_actions, streaming: s.streaming_actions@ } }
// bincode with fixed-size integers, trailing bytes allowed
pub uninterp spec fn encoded(s: Sv) -> Seq<u8>;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Sv>;
pub broadcast axiom fn axiom_round_trip(s: Sv)
  ensures decoded(#[trigger] encoded(s)) == Some(s);
#[verifier::external_body]
pub fn vx_create(p: &mut VxPath) -> (r: Result<VxFile, AnyErr>) ensures r is Ok ==> final(p)@ == Some(Seq::<u8>::empty()), { unimplemented!() }
#[verifier::external_body]
pub fn vx_encode(p: &mut VxPath, w: &mut BufWriter, s: &WorkflowsState) -> (r: Result<(), AnyErr>)
  ensures
    old(p)@ is Some ==> final(p)@ is Some,
    old(p)@ is Some && r is Ok ==> final(p)@->Some_0 + final(w).pending() == old(p)@->Some_0 + old(w).pending() + encoded(sv(*s)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_flush(p: &mut VxPath, w: &mut BufWriter) -> (r: Result<(), AnyErr>)
  ensures r is Ok && old(p)@ is Some ==> final(p)@ == Some(old(p)@->Some_0 + old(w).pending()),
{ unimplemented!() }
pub struct JoinError {}
pub fn vx_blocking<T>(t: T) -> (r: Result<T, JoinError>) ensures r is Ok ==> r->Ok_0 == t, { Ok(t) }
pub struct Options { pub fixint: bool, pub trailing: bool, pub limit: Option<u64> }
pub fn vx_options() -> (r: Options) ensures r == (Options { fixint: false, trailing: false, limit: None }), { Options { fixint: false, trailing: false, limit: None } }
impl Options {
  pub fn with_fixint_encoding(self) -> (r: Self) ensures r == (Options { fixint: true, ..self }), { Options { fixint: true, ..self } }
  pub fn allow_trailing_bytes(self) -> (r: Self) ensures r == (Options { trailing: true, ..self }), { Options { trailing: true, ..self } }
  pub fn with_limit(self, n: u64) -> (r: Self) ensures r == (Options { limit: Some(n), ..self }), { Options { limit: Some(n), ..self } }
  // what it reads decides how much is allocated, up to the limit: there is one, and it is what is there
  #[verifier::external_body]
  pub fn vx_decode(self, b: BufReader) -> (r: Result<WorkflowsState, AnyErr>)
    requires self.fixint, self.trailing, self.limit is Some, self.limit->Some_0 == b.bytes().len(),
    ensures r is Ok ==> decoded(b.bytes()) == Some(sv(r->Ok_0)), r is Err ==> decoded(b.bytes()) is None || io_fails(),
  { unimplemented!() }
}
@fn bd-workflows/src/engine.rs WorkflowsState::optimized
@spec
  ensures sv(r) == saved(sv(*self)),
@frule self.workflows.iter().filter_map(|workflow| __b).collect() => vxraw!("{ let ghost l = wvs(self.workflows@); let mut vx_o: Vec<Workflow> = Vec::new(); let mut vx_n: usize = 0; proof { assert(l.take(0) =~= Seq::empty()); assert(wvs(vx_o@) =~= Seq::<Wv>::empty()); } while vx_n < self.workflows.len() invariant 0 <= vx_n <= l.len(), l == wvs(self.workflows@), wvs(vx_o@) == saved_ws(l.take(vx_n as int)), decreases l.len() - vx_n, { let workflow = &self.workflows[vx_n]; proof { assert(l.take(vx_n + 1).drop_last() =~= l.take(vx_n as int)); assert(l.take(vx_n + 1).last() == wv(*workflow)); } let ghost o = vx_o@; let vx_k = __b; if let Some(vx_e) = vx_k { proof { assert(wvs(o.push(vx_e)) =~= wvs(o).push(wv(vx_e))); } vx_o.push(vx_e); } vx_n = vx_n + 1; } proof { assert(l.take(l.len() as int) =~= l); } vx_o }")
@text
pub open spec fn saved_ws(s: Seq<Wv>) -> Seq<Wv>
  decreases s.len(),
{
  if s.len() == 0 { Seq::empty() } else {
    let a = active(s.last().runs);
    if a.len() == 0 { saved_ws(s.drop_last()) } else { saved_ws(s.drop_last()).push(Wv { id: s.last().id, runs: a }) }
  }
}
// what is saved: the workflows with runs that are not at the start, and of them these runs
pub open spec fn saved(s: Sv) -> Sv { Sv { ws: saved_ws(s.ws), ..s } }
@fn bd-workflows/src/engine.rs WorkflowsState::clear_ongoing_workflows_state
@frule String::new() => vx_no_text()
@spec
  ensures
    final(self).session_id@ == Seq::<char>::empty(),
    wvs(final(self).workflows@) == emptied(wvs(old(self).workflows@)),
    *final(self) == (WorkflowsState { session_id: final(self).session_id, workflows: final(self).workflows, ..*old(self) }),
@entry
  let ghost g = *self;
@loop 0
  invariant
    0 <= vx_it0 <= self.workflows@.len(), self.workflows@.len() == g.workflows@.len(),
    *self == (WorkflowsState { workflows: self.workflows, ..g }),
    forall|i: int| 0 <= i < self.workflows@.len() ==> (#[trigger] self.workflows@[i]).id == g.workflows@[i].id && (if i < vx_it0 { self.workflows@[i].runs@.len() == 0 } else { self.workflows@[i] == g.workflows@[i] }),
  decreases self.workflows@.len() - vx_it0,
@after self.session_id = String::new()
  proof {
    let (a, b) = (wvs(self.workflows@), emptied(wvs(g.workflows@)));
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] b[i] by { assert(rvs(self.workflows@[i].runs@) =~= Seq::<Rv>::empty()); assert(wvs(g.workflows@)[i] == wv(g.workflows@[i])); }
    assert(a =~= b);
  }
@text
pub open spec fn emptied(s: Seq<Wv>) -> Seq<Wv> { Seq::new(s.len(), |i: int| Wv { id: s[i].id, runs: Seq::empty() }) }
@fn bd-workflows/src/engine.rs StateStore::purge
@self &mut self
@frule std::fs::remove_file(&__p) => vx_remove(&mut __p)
@spec
  ensures
    *final(self) == (StateStore { state_path: final(self).state_path, ..*old(self) }),
    final(self).state_path@ is None || (io_fails() && final(self).state_path@ == old(self).state_path@),
@fn bd-workflows/src/engine.rs StateStore::load_state
@frule self.state_path.as_path() => &self.state_path
@frule File::open(__p) => vx_open(__p)
@frule bincode::options() => vx_options()
@frule __o.deserialize_from::<_, WorkflowsState>(__r) => __o.vx_decode(__r)
@spec
  ensures
    r is Ok ==> self.state_path@ is Some && decoded(self.state_path@->Some_0) == Some(sv(r->Ok_0)),
    r is Err ==> self.state_path@ is None || decoded(self.state_path@->Some_0) is None || io_fails(),
@known purge, load_state, store
@fn bd-workflows/src/engine.rs StateStore::load
@self &mut self
@frule __x.inspect(|_| __b) => match __x { Ok(vx_v) => { __b; Ok(vx_v) } Err(vx_e) => Err(vx_e) }
@spec
  ensures
    *final(self) == (StateStore { state_path: final(self).state_path, ..*old(self) }),
    ({
      let f = old(self).state_path@;
      let d = if f is Some { decoded(f->Some_0) } else { None::<Sv> };
      // what is on disk, left there; if that is nothing or cannot be read, nothing, and it is removed
      &&& r is Some ==> d == Some(sv(r->Some_0)) && final(self).state_path@ == f
      &&& r is None ==> (d is None || io_fails()) && (final(self).state_path@ is None || (io_fails() && final(self).state_path@ == f))
    }),
@fn bd-workflows/src/engine.rs StateStore::store
@frule File::create(__p) => vx_create(__p)
@frule bincode::serialize_into(&mut __w, __s) => vx_encode(state_path, &mut __w, __s)
@frule __w.flush() => vx_flush(state_path, &mut __w)
@spec
  ensures r is Ok ==> final(state_path)@ == Some(encoded(sv(*state))),
@before Ok(())
  proof { assert(Seq::<u8>::empty() + Seq::<u8>::empty() + encoded(sv(*state)) =~= encoded(sv(*state))); }
@fn bd-workflows/src/engine.rs StateStore::maybe_store
@frule self.state_path.clone() => &mut self.state_path
@frule Self::store(&__p, __s) => Self::store(__p, __s)
@frule tokio::task::spawn_blocking(move || __f).await => vx_blocking(__f)
@frule __a < __b => __b.vx_gt(__a)
@frule __a <= __b => __b.vx_ge(__a)
@frule __a > __b => __a.vx_gt(__b)
@frule __a >= __b => __a.vx_ge(__b)
@spec
  ensures exists|now: Instant| #[trigger] is_now(now) && {
    let (o, n) = (*old(self), *final(self));
    if !force && too_soon(o, now) { !r && n == o }
    else {
      &&& r
      &&& n == (StateStore { state_path: n.state_path, last_persisted: n.last_persisted, ..o })
      &&& n.last_persisted == Some(now) && n.state_path@ == Some(encoded(saved(sv(*workflows_state)))) || n.last_persisted == o.last_persisted
    }
  },
@text
pub open spec fn too_soon(s: StateStore, now: Instant) -> bool { match s.last_persisted { Some(t) => (if now.ns >= t.ns { now.ns - t.ns } else { 0int }) < s.persistence_write_interval_flag.now().ns, None => false } }
@text
// ---- The engine: as many configurations as workflows, each workflow fitting its own; every traversal counted, and never more than
// allowed.
pub open spec fn all_total(s: Seq<Wv>) -> int
  decreases s.len(),
{ if s.len() == 0 { 0 } else { all_total(s.drop_last()) + total(s.last().runs) } }
pub open spec fn paired(c: Config, w: Wv) -> bool { wf_config(c) && wf_workflow(c, w.runs) && w.id == c.id@ }
pub open spec fn all_paired(cs: Seq<Config>, ws: Seq<Wv>) -> bool { cs.len() == ws.len() && forall|i: int| 0 <= i < cs.len() ==> paired(#[trigger] cs[i], ws[i]) }
pub open spec fn inv(e: WorkflowsEngine) -> bool {
  &&& all_paired(e.configs@, wvs(e.state.workflows@))
  &&& e.current_traversals_count == all_total(wvs(e.state.workflows@))
  &&& e.current_traversals_count <= e.traversals_count_limit < u32::MAX
}
proof fn l_at(s: Seq<Wv>, w: Wv)
  ensures all_total(s.push(w)) == all_total(s) + total(w.runs), all_total(s) >= 0,
  decreases s.len(),
{
  assert(s.push(w).drop_last() =~= s);
  if s.len() > 0 { l_at(s.drop_last(), w); l_total(s.last().runs, Seq::empty()); }
}
proof fn l_at_cat(a: Seq<Wv>, b: Seq<Wv>)
  ensures all_total(a + b) == all_total(a) + all_total(b),
  decreases b.len(),
{
  if b.len() > 0 { l_at_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); }
}
proof fn l_at_remove(s: Seq<Wv>, i: int)
  requires 0 <= i < s.len(),
  ensures all_total(s.remove(i)) == all_total(s) - total(s[i].runs), 0 <= total(s[i].runs) <= all_total(s),
{
  let (a, b) = (s.take(i), s.skip(i + 1));
  assert(s =~= a.push(s[i]) + b);
  assert(s.remove(i) =~= a + b);
  l_at_cat(a.push(s[i]), b); l_at_cat(a, b); l_at(a, s[i]); l_at(b, s[i]); l_total(s[i].runs, Seq::empty());
}
// Runs are dropped from the end until the rest is within `room`.
pub open spec fn cut(s: Seq<Rv>, room: int) -> Seq<Rv>
  decreases s.len(),
{ if s.len() == 0 || total(s) <= room { s } else { cut(s.drop_last(), room) } }
proof fn l_cut(c: Config, s: Seq<Rv>, room: int)
  requires wf_workflow(c, s), room >= 0,
  ensures wf_workflow(c, cut(s, room)), 0 <= total(cut(s, room)) <= room || total(cut(s, room)) == total(s) <= room, cut(s, room).len() <= s.len(), total(s) >= 0,
  decreases s.len(),
{
  l_total(s, Seq::empty());
  if s.len() > 0 {
    assert(wf_workflow(c, s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies wfs(c, (#[trigger] s.drop_last()[i]).ts) by { assert(s[i] == s.drop_last()[i]); } }
    l_cut(c, s.drop_last(), room);
  } else { assert(total(s) == 0); }
}
proof fn l_total_last(s: Seq<Rv>)
  requires s.len() > 0,
  ensures total(s) == total(s.drop_last()) + s.last().ts.len(), total(s.drop_last()) >= 0,
{ assert(s =~= s.drop_last() + seq![s.last()]); l_total(s.drop_last(), seq![s.last()]); l_total1(s.last()); }
pub open spec fn only_workflows(o: WorkflowsEngine, n: WorkflowsEngine) -> bool {
  n == (WorkflowsEngine { configs: n.configs, state: WorkflowsState { workflows: n.state.workflows, ..o.state }, current_traversals_count: n.current_traversals_count, ..o })
}
@known add_workflow, add_workflows, remove_workflow, remove_run
@fn bd-workflows/src/engine.rs WorkflowsEngine::add_workflow
@frule __a + __b => vx_add(__a, __b)
@frule __a.into() => __a
@spec
  requires inv(*old(self)), paired(config, wv(workflow)),
  ensures
    inv(*final(self)), only_workflows(*old(self), *final(self)),
    final(self).configs@ == old(self).configs@.push(config),
    wvs(final(self).state.workflows@) == admitted1(wvs(old(self).state.workflows@), wv(workflow), old(self).traversals_count_limit as int),
@entry
  let ghost g = *self;
  let ghost r0 = rvs(workflow.runs@);
  let ghost room = self.traversals_count_limit - self.current_traversals_count;
  let ghost wid = workflow.id;
  let ghost mut k: int = r0.len() as int;
  proof { l_cut(config, r0, room); assert(r0.take(k) =~= r0); l_total(r0, Seq::empty()); }
@loop 0
  invariant_except_break
    cut(r0.take(k), room) == cut(r0, room), k == 0 || total(r0.take(k)) > room,
  invariant
    0 <= k <= r0.len(), rvs(workflow.runs@) == r0.take(k), vx_it0.rest() == down(k), vx_it0.rest().len() == k,
    remaining_workflow_traversals_count == total(r0.take(k)),
    workflow.id == wid,
    *self == g, room == g.traversals_count_limit - g.current_traversals_count, room >= 0,
  ensures 0 <= k <= r0.len(), r0.take(k) == cut(r0, room), workflow.id == wid,
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    if k > 0 {
      assert(vx_it0.rest()[0] == (k - 1) as usize);
      assert(vx_it0.rest().drop_first() =~= down(k - 1));
      l_total_last(r0.take(k));
      assert(r0.take(k).drop_last() =~= r0.take(k - 1));
      assert(r0.take(k).last() == rv(workflow.runs@[k - 1]));
      assert(rvs(workflow.runs@.remove(k - 1)) =~= r0.take(k - 1));
      assert(cut(r0.take(k), room) == cut(r0.take(k - 1), room));
      k = k - 1;
      if total(r0.take(k)) <= room { assert(cut(r0.take(k), room) == r0.take(k)); }
    }
  }
@before self.configs.push(config)
  proof {
    assert(rvs(workflow.runs@) =~= cut(r0, room));
    let w = Wv { id: wid@, runs: cut(r0, room) };
    l_at(wvs(g.state.workflows@), w);
    assert(wvs(g.state.workflows@.push(workflow)) =~= wvs(g.state.workflows@).push(w));
  }
@text
pub open spec fn admitted1(base: Seq<Wv>, w: Wv, max: int) -> Seq<Wv> { base.push(Wv { id: w.id, runs: cut(w.runs, max - all_total(base)) }) }
@fn bd-workflows/src/engine.rs WorkflowsEngine::remove_workflow
@frule __x.into() => __x
@frule __a.saturating_sub(__b) => vx_sub(__a, __b)
@spec
  requires inv(*old(self)), workflow_index < old(self).configs@.len(),
  ensures
    inv(*final(self)),
    *final(self) == (WorkflowsEngine { needs_state_persistence: final(self).needs_state_persistence, state: final(self).state, configs: final(self).configs, current_traversals_count: final(self).current_traversals_count, ..*old(self) }),
    only_workflows(*old(self), WorkflowsEngine { needs_state_persistence: old(self).needs_state_persistence, ..*final(self) }),
    final(self).configs@ == old(self).configs@.remove(workflow_index as int),
    wvs(final(self).state.workflows@) == wvs(old(self).state.workflows@).remove(workflow_index as int),
    // what was saved of it is to go
    final(self).needs_state_persistence == (old(self).needs_state_persistence || active(wvs(old(self).state.workflows@)[workflow_index as int].runs).len() > 0),
@entry
  let ghost g = *self;
  proof {
    let s = wvs(g.state.workflows@);
    l_at_remove(s, workflow_index as int);
    l_active(s[workflow_index as int].runs);
    assert(wvs(g.state.workflows@.remove(workflow_index as int)) =~= s.remove(workflow_index as int));
  }
@text
#[verifier::external_body]
pub fn vx_sub(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { 0int }), { a.saturating_sub(b) }
// ---- Restored workflows: each goes to the first configuration with its identifier, if it fits; of two with the same identifier, the last.
pub open spec fn by_id(s: Seq<Workflow>) -> Map<Seq<char>, Workflow>
  decreases s.len(),
{ if s.len() == 0 { Map::empty() } else { by_id(s.drop_last()).insert(s.last().id@, s.last()) } }
proof fn l_by_id(s: Seq<Workflow>)
  ensures keyed(by_id(s)),
  decreases s.len(),
{ if s.len() > 0 { l_by_id(s.drop_last()); } }
pub open spec fn keyed(m: Map<Seq<char>, Workflow>) -> bool { forall|k: Seq<char>| m.contains_key(k) ==> (#[trigger] m[k]).id@ == k }
pub open spec fn restored(e: Option<Vec<Workflow>>) -> Map<Seq<char>, Workflow> { match e { Some(v) => by_id(v@), None => Map::empty() } }
pub open spec fn taken_before(cs: Seq<Config>, i: int, id: Seq<char>) -> bool { exists|j: int| 0 <= j < i && (#[trigger] cs[j]).id@ == id }
pub open spec fn adopted(m: Map<Seq<char>, Workflow>, cs: Seq<Config>, i: int) -> Wv {
  let id = cs[i].id@;
  Wv { id: id, runs: if m.contains_key(id) && !taken_before(cs, i, id) && fits(cs[i], rvs(m[id].runs@)) { rvs(m[id].runs@) } else { Seq::empty() } }
}
pub open spec fn admitted(base: Seq<Wv>, ws: Seq<Wv>, max: int) -> Seq<Wv>
  decreases ws.len(),
{ if ws.len() == 0 { base } else { admitted1(admitted(base, ws.drop_last(), max), ws.last(), max) } }
pub open spec fn all_adopted(m: Map<Seq<char>, Workflow>, cs: Seq<Config>) -> Seq<Wv> { Seq::new(cs.len(), |i: int| adopted(m, cs, i)) }
pub open spec fn wf_configs(s: Seq<Config>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_config(#[trigger] s[i]) }
pub open spec fn first2<A, B>(s: Seq<(A, B)>) -> Seq<A> { s.map_values(|p: (A, B)| p.0) }
pub open spec fn second2<A, B>(s: Seq<(A, B)>) -> Seq<B> { s.map_values(|p: (A, B)| p.1) }
@fn bd-workflows/src/engine.rs WorkflowsEngine::add_workflows
@frule __o.filter(|workflow| __b) => match __o { Some(vx_v) => { let vx_k = { let workflow = &vx_v; __b }; if vx_k { Some(vx_v) } else { None } } None => None }
@frule __v.into_iter().map(|workflow| (__k, __w)).collect() => vxraw!("{ let ghost l = __v@; let mut vx_o: VMap<Workflow> = VMap::new(); let mut vx_i = vx_into_iter(__v); let ghost mut n: int = 0; proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break 0 <= n <= l.len(), vx_i.rest() =~= l.skip(n), vx_o@ == by_id(l.take(n)), ensures vx_o@ == by_id(l), decreases vx_i.rest().len(), { match vx_i.next() { Some(workflow) => { let vx_id = __k; let vx_w = __w; proof { assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == vx_w); n = n + 1; } vx_o.insert(vx_id, vx_w); } None => { proof { assert(l.take(n) =~= l); } break } } } vx_o }")
@frule __v.into_iter().map(|config| __b) => vxraw!("{ let ghost l = __v@; let ghost m = existing_workflow_ids_to_workflows@; let mut vx_o: Vec<(Workflow, Config)> = Vec::new(); let mut vx_i = vx_into_iter(__v); let ghost mut n: int = 0; loop invariant_except_break 0 <= n <= l.len(), vx_i.rest() =~= l.skip(n), vx_o@.len() == n, invariant keyed(m), 0 <= vx_o@.len() <= l.len(), forall|i: int| 0 <= i < vx_o@.len() ==> (#[trigger] vx_o@[i]).1 == l[i] && wv(vx_o@[i].0) == adopted(m, l, i), forall|k: Seq<char>| #[trigger] existing_workflow_ids_to_workflows@.contains_key(k) <==> m.contains_key(k) && !taken_before(l, vx_o@.len() as int, k), forall|k: Seq<char>| existing_workflow_ids_to_workflows@.contains_key(k) ==> #[trigger] existing_workflow_ids_to_workflows@[k] == m[k], ensures vx_o@.len() == l.len(), decreases vx_i.rest().len(), { match vx_i.next() { Some(config) => { proof { assert(config == l[n]); assert forall|k: Seq<char>| #[trigger] taken_before(l, n + 1, k) == (taken_before(l, n, k) || k == config.id@) by { if k == config.id@ { assert(l[n].id@ == k); } } n = n + 1; } let vx_e = __b; proof { assert(wv(vx_e.0).id == adopted(m, l, n - 1).id); assert(wv(vx_e.0).runs =~= adopted(m, l, n - 1).runs); } vx_o.push(vx_e); } None => { break } } } proof { assert(wvs(first2(vx_o@)) =~= all_adopted(m, l)); assert(second2(vx_o@) =~= l); } vx_o }")
@spec
  requires inv(*old(self)), wf_configs(workflows@),
  ensures
    inv(*final(self)), only_workflows(*old(self), *final(self)),
    final(self).configs@ == old(self).configs@ + workflows@,
    wvs(final(self).state.workflows@) == admitted(wvs(old(self).state.workflows@), all_adopted(restored(existing_workflows), workflows@), old(self).traversals_count_limit as int),
@entry
  let ghost g = *self;
  let ghost cs = workflows@;
  let ghost ws = all_adopted(restored(existing_workflows), workflows@);
  let ghost base = wvs(self.state.workflows@);
  let ghost max = self.traversals_count_limit as int;
  let ghost mut n: int = 0;
  proof { if existing_workflows is Some { l_by_id(existing_workflows->Some_0@); } assert(ws.take(0) =~= Seq::empty()); assert(cs.take(0) =~= Seq::empty()); assert(g.configs@ + Seq::<Config>::empty() =~= g.configs@); assert(Seq::<Wv>::empty() =~= Seq::empty()); }
@loop 0
  invariant_except_break
    0 <= n <= cs.len(), cs.len() == ws.len(), vx_it0.rest().len() == cs.len() - n,
    second2(vx_it0.rest()) =~= cs.skip(n), wvs(first2(vx_it0.rest())) =~= ws.skip(n),
    self.configs@ == g.configs@ + cs.take(n),
    wvs(self.state.workflows@) == admitted(base, ws.take(n), max),
  invariant
    wf_configs(cs), ws == all_adopted(restored(existing_workflows), cs), inv(*self), only_workflows(g, *self), max == g.traversals_count_limit,
  ensures
    self.configs@ == g.configs@ + cs, wvs(self.state.workflows@) == admitted(base, ws, max),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    if n < cs.len() {
      let (w, c) = vx_it0.rest()[0];
      assert(second2(vx_it0.rest())[0] == cs.skip(n)[0]);
      assert(wvs(first2(vx_it0.rest()))[0] == ws.skip(n)[0]);
      assert(c == cs[n] && wv(w) == ws[n]);
      assert(cs.skip(n).drop_first() =~= cs.skip(n + 1));
      assert(ws.skip(n).drop_first() =~= ws.skip(n + 1));
      assert(second2(vx_it0.rest().drop_first()) =~= second2(vx_it0.rest()).drop_first());
      assert(wvs(first2(vx_it0.rest().drop_first())) =~= wvs(first2(vx_it0.rest())).drop_first());
      assert(ws.take(n + 1).drop_last() =~= ws.take(n));
      assert(ws.take(n + 1).last() == ws[n]);
      assert((g.configs@ + cs.take(n)).push(cs[n]) =~= g.configs@ + cs.take(n + 1));
      assert(paired(c, wv(w)));
      n = n + 1;
    } else { assert(cs.take(n) =~= cs); assert(ws.take(n) =~= ws); }
  }
@text
// ---- A new configuration list: a workflow stays, with its progress, iff the list has (as its last with that identifier) the very
// configuration it runs with; those that are new are added, without runs.
pub open spec fn latest(ids: Seq<Seq<char>>, id: Seq<char>) -> Option<int>
  decreases ids.len(),
{ if ids.len() == 0 { None } else if ids.last() == id { Some(ids.len() - 1) } else { latest(ids.drop_last(), id) } }
proof fn l_latest(ids: Seq<Seq<char>>, id: Seq<char>)
  ensures
    latest(ids, id) matches Some(i) ==> 0 <= i < ids.len() && ids[i] == id,
    latest(ids, id) is None <==> !ids.contains(id),
  decreases ids.len(),
{
  if ids.len() > 0 {
    let d = ids.drop_last();
    l_latest(d, id);
    if ids.contains(id) && ids.last() != id { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == id; assert(d[i] == id); }
    if d.contains(id) { let i = choose|i: int| 0 <= i < d.len() && d[i] == id; assert(ids[i] == id); }
    if ids.last() == id { assert(ids[ids.len() - 1] == id); }
  }
}
pub open spec fn c_ids(s: Seq<Config>) -> Seq<Seq<char>> { s.map_values(|c: Config| c.id@) }
pub open spec fn w_ids(s: Seq<Wv>) -> Seq<Seq<char>> { s.map_values(|w: Wv| w.id) }
pub open spec fn indexed(m: Map<Seq<char>, usize>, ids: Seq<Seq<char>>) -> bool {
  forall|k: Seq<char>| (m.dom().contains(k) <==> (#[trigger] latest(ids, k)) is Some) && (m.dom().contains(k) ==> m[k] as int == latest(ids, k)->Some_0)
}
proof fn l_indexed(m: Map<Seq<char>, usize>, ids: Seq<Seq<char>>, id: Seq<char>, n: usize)
  requires indexed(m, ids), n == ids.len(),
  ensures indexed(m.insert(id, n), ids.push(id)),
{
  let t = ids.push(id);
  assert(t.drop_last() =~= ids);
  assert forall|k: Seq<char>| (m.insert(id, n).dom().contains(k) <==> (#[trigger] latest(t, k)) is Some) && (m.insert(id, n).dom().contains(k) ==> m.insert(id, n)[k] as int == latest(t, k)->Some_0) by {
    assert(latest(ids, k) is Some <==> m.dom().contains(k));
  }
}
pub open spec fn stays(new: Seq<Config>, c: Config, w: Wv) -> bool { match latest(c_ids(new), w.id) { Some(i) => same_config(new[i], c), None => false } }
pub open spec fn left_cs(new: Seq<Config>, cs: Seq<Config>, ws: Seq<Wv>) -> Seq<Config>
  decreases cs.len(),
{ if cs.len() == 0 { cs } else { let l = left_cs(new, cs.drop_first(), ws.drop_first()); if stays(new, cs[0], ws[0]) { seq![cs[0]] + l } else { l } } }
pub open spec fn left_ws(new: Seq<Config>, cs: Seq<Config>, ws: Seq<Wv>) -> Seq<Wv>
  decreases cs.len(),
{ if cs.len() == 0 { ws } else { let l = left_ws(new, cs.drop_first(), ws.drop_first()); if stays(new, cs[0], ws[0]) { seq![ws[0]] + l } else { l } } }
pub open spec fn fresh_cs(new: Seq<Config>, old: Seq<Wv>) -> Seq<Config>
  decreases new.len(),
{ if new.len() == 0 { new } else if w_ids(old).contains(new.last().id@) { fresh_cs(new.drop_last(), old) } else { fresh_cs(new.drop_last(), old).push(new.last()) } }
pub open spec fn no_runs(s: Seq<Config>) -> Seq<Wv> { s.map_values(|c: Config| Wv { id: c.id@, runs: Seq::empty() }) }
@fn bd-workflows/src/engine.rs WorkflowsEngine::update
@frule __a != __b => !vx_same_config(&__a, &__b)
@frule __a == __b => vx_same_config(&__a, &__b)
@frule config.workflows_configuration.workflows.iter().enumerate().map(|(index, __p)| (__k, index)).collect() => vxraw!("{ let ghost l = c_ids(config.workflows_configuration.workflows@); let mut vx_o: VMap<usize> = VMap::new(); let mut index: usize = 0; proof { assert(l.take(0) =~= Seq::empty()); } while index < config.workflows_configuration.workflows.len() invariant 0 <= index <= l.len(), l == c_ids(config.workflows_configuration.workflows@), indexed(vx_o@, l.take(index as int)), decreases l.len() - index, { let __p = &config.workflows_configuration.workflows[index]; let vx_k = __k; proof { l_indexed(vx_o@, l.take(index as int), vx_k@, index); assert(l.take(index + 1) =~= l.take(index as int).push(vx_k@)); } vx_o.insert(vx_k.vx_string(), index); index = index + 1; } proof { assert(l.take(l.len() as int) =~= l); } vx_o }")
@frule self.state.workflows.iter().enumerate().map(|(index, __p)| (__k, index)).collect() => vxraw!("{ let ghost l = w_ids(wvs(self.state.workflows@)); let mut vx_o: VMap<usize> = VMap::new(); let mut index: usize = 0; proof { assert(l.take(0) =~= Seq::empty()); } while index < self.state.workflows.len() invariant 0 <= index <= l.len(), l == w_ids(wvs(self.state.workflows@)), indexed(vx_o@, l.take(index as int)), decreases l.len() - index, { let __p = &self.state.workflows[index]; let vx_k = __k; proof { l_indexed(vx_o@, l.take(index as int), vx_k@, index); assert(wvs(self.state.workflows@)[index as int] == wv(*__p)); assert(l.take(index + 1) =~= l.take(index as int).push(vx_k@)); } vx_o.insert(vx_k.vx_string(), index); index = index + 1; } proof { assert(l.take(l.len() as int) =~= l); } vx_o }")
@spec
  requires inv(*old(self)), wf_configs(config.workflows_configuration.workflows@),
  ensures
    inv(*final(self)), updated(*old(self), *final(self), config.workflows_configuration.workflows@),
@entry
  let ghost g = *self;
  let ghost new = config.workflows_configuration.workflows@;
  let ghost (cs, ws) = (self.configs@, wvs(self.state.workflows@));
  let ghost mut m: int = cs.len() as int;
  let ghost (lc, lw) = (left_cs(new, cs, ws), left_ws(new, cs, ws));
  let ghost mut n: int = 0;
  proof { assert(g.configs.len() == cs.len()); assert(new.take(0) =~= Seq::empty()); assert(no_runs(Seq::<Config>::empty()) =~= Seq::<Wv>::empty()); assert(lc + Seq::<Config>::empty() =~= lc); assert(lw + Seq::<Wv>::empty() =~= lw); assert(cs.take(m) =~= cs); assert(ws.take(m) =~= ws); assert(cs.skip(m) =~= Seq::empty()); assert(ws.skip(m) =~= Seq::empty()); assert(cs + Seq::<Config>::empty() =~= cs); assert(ws + Seq::<Wv>::empty() =~= ws); }
@loop 0
  invariant
    lc == left_cs(new, cs, ws), lw == left_ws(new, cs, ws),
    0 <= m <= cs.len(), cs.len() == ws.len(), cs.len() <= usize::MAX, new == config.workflows_configuration.workflows@, indexed(latest_workflow_ids_to_index@, c_ids(new)),
    vx_it0.rest() == down(m), vx_it0.rest().len() == m,
    inv(*self),
    cs == g.configs@, ws == wvs(g.state.workflows@),
    only_workflows(g, WorkflowsEngine { needs_state_persistence: g.needs_state_persistence, ..*self }),
    self.configs@ == cs.take(m) + left_cs(new, cs.skip(m), ws.skip(m)),
    wvs(self.state.workflows@) == ws.take(m) + left_ws(new, cs.skip(m), ws.skip(m)),
    g.needs_state_persistence ==> self.needs_state_persistence,
    forall|i: int| m <= i < cs.len() && !stays(new, cs[i], #[trigger] ws[i]) && active(ws[i].runs).len() > 0 ==> self.needs_state_persistence,
  ensures self.configs@ == lc, wvs(self.state.workflows@) == lw, m == 0,
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost b = *self;
  proof {
    if m > 0 {
      assert(vx_it0.rest()[0] == (m - 1) as usize);
      assert(vx_it0.rest().drop_first() =~= down(m - 1));
      l_left(new, cs.skip(m - 1), ws.skip(m - 1));
      assert(cs.skip(m - 1).drop_first() =~= cs.skip(m)); assert(ws.skip(m - 1).drop_first() =~= ws.skip(m));
      assert(self.configs@[m - 1] == cs[m - 1]);
      assert(wvs(self.state.workflows@)[m - 1] == ws[m - 1]);
      assert(wv(self.state.workflows@[m - 1]) == ws[m - 1]);
      let (kc, kw) = (left_cs(new, cs.skip(m), ws.skip(m)), left_ws(new, cs.skip(m), ws.skip(m)));
      assert((cs.take(m) + kc).remove(m - 1) =~= cs.take(m - 1) + kc);
      assert((ws.take(m) + kw).remove(m - 1) =~= ws.take(m - 1) + kw);
      assert(cs.take(m) + kc =~= cs.take(m - 1) + (seq![cs[m - 1]] + kc));
      assert(ws.take(m) + kw =~= ws.take(m - 1) + (seq![ws[m - 1]] + kw));
      l_latest(c_ids(new), ws[m - 1].id);
      m = m - 1;
    } else {
      assert(cs.skip(0) =~= cs); assert(ws.skip(0) =~= ws);
      assert(cs.take(0) + lc =~= lc); assert(ws.take(0) + lw =~= lw);
    }
  }
@loop 1
  invariant_except_break
    0 <= n <= new.len(), vx_it1.rest() =~= new.skip(n),
    self.configs@ == lc + fresh_cs(new.take(n), lw),
    wvs(self.state.workflows@) == lw + no_runs(fresh_cs(new.take(n), lw)),
  invariant
    lc == left_cs(new, cs, ws), lw == left_ws(new, cs, ws), cs == g.configs@, ws == wvs(g.state.workflows@),
    g.needs_state_persistence ==> self.needs_state_persistence,
    forall|i: int| 0 <= i < cs.len() && !stays(new, cs[i], #[trigger] ws[i]) && active(ws[i].runs).len() > 0 ==> self.needs_state_persistence,
    wf_configs(new), inv(*self), only_workflows(g, WorkflowsEngine { needs_state_persistence: g.needs_state_persistence, ..*self }),
    indexed(existing_workflow_ids_to_index@, w_ids(lw)),
  ensures
    self.configs@ == lc + fresh_cs(new, lw),
    wvs(self.state.workflows@) == lw + no_runs(fresh_cs(new, lw)),
  decreases vx_it1.rest().len(),
@loop_entry 1
  proof {
    if n < new.len() {
      let (w2, c) = (lw, new[n]);
      assert(new.take(n + 1).drop_last() =~= new.take(n));
      assert(new.take(n + 1).last() == c);
      assert(new.skip(n).drop_first() =~= new.skip(n + 1));
      l_latest(w_ids(w2), c.id@);
      let f = fresh_cs(new.take(n), w2);
      assert((lc + f).push(c) =~= lc + f.push(c));
      let w = Wv { id: c.id@, runs: Seq::empty() };
      assert((w2 + no_runs(f)).push(w) =~= w2 + no_runs(f.push(c)));
      assert forall|x: Workflow| x.id@ == c.id@ && x.runs@.len() == 0 implies #[trigger] wv(x) == w by { assert(rvs(x.runs@) =~= Seq::<Rv>::empty()); }
      assert(cut(Seq::<Rv>::empty(), g.traversals_count_limit - all_total(w2 + no_runs(f))) =~= Seq::<Rv>::empty());
      n = n + 1;
    } else { assert(new.take(n) =~= new); }
  }
@text
pub open spec fn updated(o: WorkflowsEngine, n: WorkflowsEngine, new: Seq<Config>) -> bool {
  let (cs, ws) = (o.configs@, wvs(o.state.workflows@));
  let (lc, lw) = (left_cs(new, cs, ws), left_ws(new, cs, ws));
  &&& n.configs@ == lc + fresh_cs(new, lw)
  &&& wvs(n.state.workflows@) == lw + no_runs(fresh_cs(new, lw))
  // what is on disk of those that go is to go
  &&& o.needs_state_persistence ==> n.needs_state_persistence
  &&& forall|i: int| 0 <= i < cs.len() && !stays(new, cs[i], #[trigger] ws[i]) && active(ws[i].runs).len() > 0 ==> n.needs_state_persistence
  &&& n.state.session_id == o.state.session_id
  &&& n.state.pending_actions == standard_pending(n.flush_buffers_actions_resolver, o.state.pending_actions)
  &&& n.state.streaming_actions@ == standard_streaming(n.flush_buffers_actions_resolver, o.state.streaming_actions@)
  &&& n.state_store == o.state_store && n.traversals_count_limit == o.traversals_count_limit
}
proof fn l_left(new: Seq<Config>, cs: Seq<Config>, ws: Seq<Wv>)
  requires cs.len() == ws.len(),
  ensures left_cs(new, cs, ws).len() == left_ws(new, cs, ws).len(),
  decreases cs.len(),
{ if cs.len() > 0 { l_left(new, cs.drop_first(), ws.drop_first()); } }

// ---- Logs.
pub open spec fn logged1(l: LogRef, max: int, c: Config, w: Wv, cur: int) -> Wv {
  let x = Lim { c: c, l: l, max: max };
  let s = renewed(x, w.runs, cur);
  Wv { id: w.id, runs: out(x, s, cur - total(w.runs) + total(s)) }
}
// the first n workflows have seen the log, in order, each with what the ones before it left of the limit
pub open spec fn logged(l: LogRef, max: int, cs: Seq<Config>, ws: Seq<Wv>, n: int) -> Seq<Wv>
  decreases n,
{
  if n <= 0 { Seq::empty() } else {
    let b = logged(l, max, cs, ws, n - 1);
    b.push(logged1(l, max, cs[n - 1], ws[n - 1], all_total(b + ws.skip(n - 1))))
  }
}
pub open spec fn same_saved(a: Seq<Wv>, b: Seq<Wv>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).id == b[i].id && active(a[i].runs) == active(b[i].runs) }
@map workflows
@macro inc_by => drop
@known clean_state, prepare_actions
@fn bd-workflows/src/engine.rs WorkflowsEngine::clean_state
@spec
  requires all_paired(old(self).configs@, wvs(old(self).state.workflows@)), old(self).traversals_count_limit < u32::MAX,
  ensures cleaned(*old(self), *final(self)), inv(*final(self)),
@entry
  let ghost g = *self;
  proof {
    let e = emptied(wvs(g.state.workflows@));
    l_at_empty(e);
    assert forall|i: int| 0 <= i < g.configs@.len() implies paired(#[trigger] g.configs@[i], e[i]) by { assert(paired(g.configs@[i], wvs(g.state.workflows@)[i])); }
  }
@text
pub open spec fn cleaned(o: WorkflowsEngine, n: WorkflowsEngine) -> bool {
  &&& n.state.session_id@ == Seq::<char>::empty()
  &&& wvs(n.state.workflows@) == emptied(wvs(o.state.workflows@))
  &&& n.needs_state_persistence
  &&& n == (WorkflowsEngine { current_traversals_count: 0, needs_state_persistence: true, state: WorkflowsState { session_id: n.state.session_id, workflows: n.state.workflows, ..o.state }, ..o })
}
proof fn l_at_empty(s: Seq<Wv>)
  requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).runs.len() == 0,
  ensures all_total(s) == 0,
  decreases s.len(),
{ if s.len() > 0 { l_at_empty(s.drop_last()); assert(s[s.len() - 1].runs.len() == 0); } }
@known maybe_store, load
@fn bd-workflows/src/engine.rs WorkflowsEngine::maybe_persist
@spec
  ensures
    *final(self) == (WorkflowsEngine { needs_state_persistence: final(self).needs_state_persistence, state_store: final(self).state_store, ..*old(self) }),
    !old(self).needs_state_persistence ==> *final(self) == *old(self),
    // it is saved now, or it is still to be saved and only because it was saved too recently, or writing failed
    old(self).needs_state_persistence ==> exists|now: Instant| #[trigger] is_now(now) && {
      let (o, n) = (*old(self), *final(self));
      if !force && too_soon(o.state_store, now) { n == o }
      else { !n.needs_state_persistence && (n.state_store.state_path@ == Some(encoded(saved(sv(o.state)))) || n.state_store.last_persisted == o.state_store.last_persisted) }
    },
@text
// ---- What a restored state gives: each configuration takes up the (last) workflow saved under its identifier, if that fits.
pub open spec fn restored1(ws: Seq<Wv>, cs: Seq<Config>, i: int) -> Wv {
  let id = cs[i].id@;
  let none = Wv { id: id, runs: Seq::empty() };
  match latest(w_ids(ws), id) { Some(j) => if !taken_before(cs, i, id) && fits(cs[i], ws[j].runs) { Wv { id: id, runs: ws[j].runs } } else { none }, None => none }
}
pub open spec fn all_restored(ws: Seq<Wv>, cs: Seq<Config>) -> Seq<Wv> { Seq::new(cs.len(), |i: int| restored1(ws, cs, i)) }
proof fn l_by_id2(s: Seq<Workflow>, k: Seq<char>)
  ensures
    by_id(s).contains_key(k) <==> latest(w_ids(wvs(s)), k) is Some,
    latest(w_ids(wvs(s)), k) matches Some(j) ==> 0 <= j < s.len() && by_id(s)[k] == s[j],
  decreases s.len(),
{
  if s.len() > 0 {
    l_by_id2(s.drop_last(), k);
    assert(w_ids(wvs(s)).drop_last() =~= w_ids(wvs(s.drop_last())));
    assert(w_ids(wvs(s)).last() == s.last().id@);
  }
}
proof fn l_restored(s: Seq<Workflow>, cs: Seq<Config>)
  ensures all_adopted(by_id(s), cs) == all_restored(wvs(s), cs), all_adopted(Map::empty(), cs) == no_runs(cs),
{
  let (a, b) = (all_adopted(by_id(s), cs), all_restored(wvs(s), cs));
  assert forall|i: int| 0 <= i < cs.len() implies a[i] == #[trigger] b[i] by {
    l_by_id2(s, cs[i].id@);
    if latest(w_ids(wvs(s)), cs[i].id@) is Some { let j = latest(w_ids(wvs(s)), cs[i].id@)->Some_0; assert(wvs(s)[j] == wv(s[j])); }
  }
  assert(a =~= b);
  assert(all_adopted(Map::empty(), cs) =~= no_runs(cs));
}
// whatever is within the limit is taken up as it is
proof fn l_admitted(ws: Seq<Wv>, max: int)
  requires all_total(ws) <= max,
  ensures admitted(Seq::empty(), ws, max) == ws,
  decreases ws.len(),
{
  if ws.len() > 0 {
    let d = ws.drop_last();
    l_total(ws.last().runs, Seq::empty());
    l_admitted(d, max);
    assert(d.push(ws.last()) =~= ws);
  } else { assert(ws =~= Seq::empty()); }
}
pub open spec fn on_disk(e: WorkflowsEngine) -> Option<Sv> { match e.state_store.state_path@ { Some(b) => decoded(b), None => None } }
pub open spec fn started(o: WorkflowsEngine, n: WorkflowsEngine, new: Seq<Config>, d: Option<Sv>) -> bool {
  &&& inv(n) && n.configs@ == new && n.needs_state_persistence == o.needs_state_persistence && n.traversals_count_limit == o.traversals_count_limit
  &&& match d {
    Some(s) => {
      &&& n.state.session_id@ == s.session
      &&& wvs(n.state.workflows@) == admitted(Seq::empty(), all_restored(s.ws, new), o.traversals_count_limit as int)
      &&& n.state.pending_actions == standard_pending(n.flush_buffers_actions_resolver, s.pending)
      &&& n.state.streaming_actions@ == standard_streaming(n.flush_buffers_actions_resolver, s.streaming)
      &&& n.state_store.state_path@ == o.state_store.state_path@
    },
    None => {
      &&& n.state.session_id@ == o.state.session_id@ && n.state.pending_actions == o.state.pending_actions && n.state.streaming_actions@ == o.state.streaming_actions@
      &&& wvs(n.state.workflows@) == no_runs(new)
      &&& n.state_store.state_path@ is None || io_fails()
    },
  }
}
@fn bd-workflows/src/engine.rs WorkflowsEngine::start
@frule __a.clone_from(&__b) => __a = __b.vx_clone()
@spec
  requires old(self).configs@.len() == 0, inv(*old(self)), wf_configs(config.workflows_configuration.workflows@),
  ensures
    started(*old(self), *final(self), config.workflows_configuration.workflows@, on_disk(*old(self)))
      || io_fails() && started(*old(self), *final(self), config.workflows_configuration.workflows@, None),
@entry
  let ghost g = *self;
  let ghost new = config.workflows_configuration.workflows@;
  let ghost d = on_disk(g);
  proof {
    assert(wvs(g.state.workflows@) =~= Seq::<Wv>::empty());
    assert(g.configs@ + new =~= new);
    assert forall|s: Seq<Workflow>| all_adopted(#[trigger] by_id(s), new) == all_restored(wvs(s), new) by { l_restored(s, new); }
    l_restored(Seq::empty(), new);
    l_at_empty(no_runs(new));
    l_admitted(no_runs(new), g.traversals_count_limit as int);
  }
@loop 0
  invariant started(g, *self, new, d) || io_fails() && started(g, *self, new, None),
  decreases vx_it0.rest().len(),
@text
// A restart in the same place: what has progressed is there again, as it was, and nothing else is.
pub open spec fn distinct(ids: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ids.len() ==> ids[i] != ids[j] }
proof fn l_saved(ws: Seq<Wv>, i: int)
  requires distinct(w_ids(ws)), 0 <= i < ws.len(),
  ensures ({
    let s = saved_ws(ws);
    let j = latest(w_ids(s), ws[i].id);
    let a = active(ws[i].runs);
    if a.len() == 0 { j is None } else { j is Some && 0 <= j->Some_0 < s.len() && s[j->Some_0].runs == a }
  }),
  decreases ws.len(),
{
  let d = ws.drop_last();
  let s = saved_ws(ws);
  assert(distinct(w_ids(d))) by { assert forall|a: int, b: int| 0 <= a < b < d.len() implies w_ids(d)[a] != w_ids(d)[b] by { assert(w_ids(ws)[a] != w_ids(ws)[b]); } }
  if i < ws.len() - 1 {
    l_saved(d, i);
    assert(w_ids(ws)[i] != w_ids(ws)[ws.len() - 1]);
    if active(ws.last().runs).len() > 0 { assert(w_ids(s).drop_last() =~= w_ids(saved_ws(d))); assert(w_ids(s).last() == ws.last().id); }
  } else {
    assert(w_ids(d).push(ws[i].id) =~= w_ids(ws));
    l_saved_other(d, ws[i].id);
    if active(ws.last().runs).len() > 0 { assert(w_ids(s).last() == ws.last().id); }
  }
}
proof fn l_saved_other(ws: Seq<Wv>, id: Seq<char>)
  requires !w_ids(ws).contains(id) || distinct(w_ids(ws).push(id)),
  ensures latest(w_ids(saved_ws(ws)), id) is None,
  decreases ws.len(),
{
  if ws.len() > 0 {
    let d = ws.drop_last();
    let s = saved_ws(ws);
    if w_ids(ws).contains(id) { let k = choose|k: int| 0 <= k < ws.len() && w_ids(ws)[k] == id; let p = w_ids(ws).push(id); assert(p[k] != p[ws.len() as int]); }
    assert(!w_ids(ws).contains(id));
    assert(w_ids(ws)[ws.len() - 1] == ws.last().id);
    assert(!w_ids(d).contains(id)) by { if w_ids(d).contains(id) { let k = choose|k: int| 0 <= k < d.len() && w_ids(d)[k] == id; assert(w_ids(ws)[k] == id); } }
    l_saved_other(d, id);
    if active(ws.last().runs).len() > 0 { assert(w_ids(s).drop_last() =~= w_ids(saved_ws(d))); assert(w_ids(s).last() == ws.last().id); }
  }
}
proof fn l_active_fits(c: Config, s: Seq<Rv>)
  requires wf_workflow(c, s),
  ensures fits(c, active(s)), total(active(s)) <= total(s), active(s).len() <= s.len(),
  decreases s.len(),
{
  if s.len() > 0 {
    let d = s.drop_last();
    assert(wf_workflow(c, d)) by { assert forall|i: int| 0 <= i < d.len() implies wfs(c, (#[trigger] d[i]).ts) by { assert(wfs(c, s[i].ts)); } }
    l_active_fits(c, d);
    l_total_last(s);
    assert(wfs(c, s[s.len() - 1].ts));
    if !run_at_start(s.last().ts) {
      let a = active(s);
      l_total_last(a);
      assert(a.drop_last() =~= active(d));
      assert forall|i: int| 0 <= i < a.len() implies wfs(c, (#[trigger] a[i]).ts) && !run_at_start(a[i].ts) by { if i < active(d).len() { assert(a[i] == active(d)[i]); } }
      if c.execution is Exclusive && s.len() == 2 { assert(run_at_start(s[0].ts)); assert(d[0] == s[0]); assert(d.drop_last() =~= Seq::<Rv>::empty()); assert(run_at_start(d.last().ts)); assert(active(d.drop_last()) =~= Seq::<Rv>::empty()); assert(active(d) =~= Seq::<Rv>::empty()); }
      assert(!any_at_start(a));
    }
  }
}
pub open spec fn actives(ws: Seq<Wv>) -> Seq<Wv> { Seq::new(ws.len(), |i: int| Wv { id: ws[i].id, runs: active(ws[i].runs) }) }
proof fn l_actives(cs: Seq<Config>, ws: Seq<Wv>)
  requires all_paired(cs, ws),
  ensures all_total(actives(ws)) <= all_total(ws),
  decreases ws.len(),
{
  if ws.len() > 0 {
    let n = ws.len() - 1;
    assert(all_paired(cs.drop_last(), ws.drop_last())) by { assert forall|i: int| 0 <= i < n implies paired(#[trigger] cs.drop_last()[i], ws.drop_last()[i]) by { assert(paired(cs[i], ws[i])); } }
    l_actives(cs.drop_last(), ws.drop_last());
    assert(actives(ws).drop_last() =~= actives(ws.drop_last()));
    assert(paired(cs[n], ws[n]));
    l_active_fits(cs[n], ws[n].runs);
  }
}
proof fn theorem_restart(e: WorkflowsEngine, s: StateStore, o: WorkflowsEngine, n: WorkflowsEngine)
  requires
    inv(e), distinct(c_ids(e.configs@)),
    s.state_path@ == Some(encoded(saved(sv(e.state)))), // maybe_persist
    o.state_store == s, o.traversals_count_limit == e.traversals_count_limit,
    started(o, n, e.configs@, on_disk(o)), // start
  ensures
    wvs(n.state.workflows@) == actives(wvs(e.state.workflows@)),
    n.state.session_id@ == e.state.session_id@,
    n.state.pending_actions == standard_pending(n.flush_buffers_actions_resolver, e.state.pending_actions),
    n.state.streaming_actions@ == standard_streaming(n.flush_buffers_actions_resolver, e.state.streaming_actions@),
{
  axiom_round_trip(saved(sv(e.state)));
  let (cs, ws) = (e.configs@, wvs(e.state.workflows@));
  let r = all_restored(saved_ws(ws), cs);
  assert forall|i: int| 0 <= i < ws.len() implies ws[i].id == (#[trigger] cs[i]).id@ by { assert(paired(cs[i], ws[i])); }
  assert(w_ids(ws) =~= c_ids(cs));
  assert forall|i: int| 0 <= i < ws.len() implies r[i] == #[trigger] actives(ws)[i] by {
    l_saved(ws, i);
    assert(paired(cs[i], ws[i]));
    l_active_fits(cs[i], ws[i].runs);
    assert(!taken_before(cs, i, cs[i].id@)) by {
      if taken_before(cs, i, cs[i].id@) { let j = choose|j: int| 0 <= j < i && (#[trigger] cs[j]).id@ == cs[i].id@; assert(c_ids(cs)[j] != c_ids(cs)[i]); }
    }
    if active(ws[i].runs).len() == 0 { assert(active(ws[i].runs) =~= Seq::empty()); }
  }
  assert(r =~= actives(ws));
  l_actives(cs, ws);
  l_admitted(r, e.traversals_count_limit as int);
}
@fn bd-workflows/src/engine.rs WorkflowsEngine::process_log
@frule log.session_id => vx_session(log)
@frule __a.is_empty() => __a.vx_none()
@frule __a != vx_session(log) => !vx_same_text(&__a, vx_session(log))
@frule WorkflowsEngineResult { log_destination_buffer_ids: __a, triggered_flush_buffers_action_ids: __b, triggered_flushes_buffer_ids: __c, capture_screenshot: __d } => vx_result()
@frule Self::prepare_actions(actions) => vx_prepare(actions)
@frule self.state.streaming_actions.drain(..).map(|action| __c).collect() => vx_streams(&mut self.state.streaming_actions, &mut self.pending_buffer_flushes)
@frule self.needs_state_persistence |= __b => self.needs_state_persistence = vx_either(self.needs_state_persistence, __b)
@frule __a.into() => __a
@spec
  requires inv(*old(self)),
  ensures inv(*final(self)), seen(*old(self), *log, *final(self)),
@entry
  let ghost g = *self;
  let ghost l = *log;
  let ghost ws = wvs(g.state.workflows@);
  let ghost cs = g.configs@;
  let ghost max = g.traversals_count_limit as int;
  let ghost base = at_hand(g, l);
  proof { assert(emptied(ws).len() == ws.len()); assert(base.skip(0) =~= base); assert(Seq::<Wv>::empty() + base =~= base); if ws.len() == 0 { assert(base =~= Seq::empty()); } }
@loop 0
  invariant
    0 <= vx_it0 <= self.state.workflows@.len(), self.state.workflows@.len() == base.len() == cs.len(),
    all_paired(cs, ws), ws == wvs(g.state.workflows@), cs == g.configs@, max == g.traversals_count_limit, base == at_hand(g, l), l == *log,
    inv(*self), rest_same(g, l, *self), self.state.pending_actions == g.state.pending_actions, self.state.streaming_actions@ == g.state.streaming_actions@,
    wvs(self.state.workflows@) == logged(l, max, cs, base, vx_it0 as int) + base.skip(vx_it0 as int),
    logged(l, max, cs, base, vx_it0 as int).len() == vx_it0,
    self.needs_state_persistence || base == ws && forall|i: int| 0 <= i < vx_it0 ==> active(logged(l, max, cs, base, vx_it0 as int)[i].runs) == active(#[trigger] base[i].runs),
    vx_it0 == cs.len() ==> seen(g, l, *self),
  decreases self.state.workflows@.len() - vx_it0,
@loop_entry 0
  let ghost pre = *self;
  let ghost k = vx_it0 as int;
  proof {
    let (a, b) = (logged(l, max, cs, base, k), base.skip(k));
    let wo = wv(self.state.workflows@[k]);
    assert(wvs(self.state.workflows@)[k] == (a + b)[k]);
    assert(b[0] == wo);
    l_swap(a, b, wo);
    assert(paired(cs[k], wvs(self.state.workflows@)[k]));
  }
@loop_exit 0
  proof {
    let (a, b) = (logged(l, max, cs, base, k), base.skip(k));
    let (wo, wn) = (wv(pre.state.workflows@[k]), wv(self.state.workflows@[k]));
    assert((a + b)[k] == b[0]);
    assert(wvs(pre.state.workflows@)[k] == wo);
    assert(base[k] == wo);
    assert(wvs(self.state.workflows@) =~= wvs(pre.state.workflows@).update(k, wn));
    assert((a + b).update(k, wn) =~= a.push(wn) + base.skip(k + 1));
    l_swap(a, b, wn);
    assert(b.drop_first() =~= base.skip(k + 1));
    assert(paired(cs[k], wvs(pre.state.workflows@)[k]));
    assert(wn == logged1(l, max, cs[k], base[k], all_total(a + b)));
    assert(logged(l, max, cs, base, k + 1) =~= a.push(wn));
    assert forall|i: int| 0 <= i < cs.len() implies paired(#[trigger] cs[i], wvs(self.state.workflows@)[i]) by { assert(paired(cs[i], wvs(pre.state.workflows@)[i])); }
    l_active(wo.runs); l_active(wn.runs);
    if all_at_start(wo.runs) && all_at_start(wn.runs) { assert(active(wo.runs) =~= active(wn.runs)); }
    if k + 1 == cs.len() {
      let now = wvs(self.state.workflows@);
      assert(a.push(wn) + base.skip(k + 1) =~= a.push(wn));
      if !self.needs_state_persistence {
        assert forall|i: int| 0 <= i < now.len() implies (#[trigger] now[i]).id == ws[i].id && active(now[i].runs) == active(ws[i].runs) by {
          assert(paired(cs[i], now[i])); assert(paired(cs[i], ws[i])); assert(active(logged(l, max, cs, base, k + 1)[i].runs) == active(base[i].runs));
        }
      }
    }
  }
@loop 1
  invariant inv(*self), seen(g, l, *self),
  decreases vx_it1.rest().len(),
@loop 2
  invariant inv(*self), seen(g, l, *self),
  decreases vx_it2.rest().len(),
@text
proof fn l_swap(a: Seq<Wv>, b: Seq<Wv>, w: Wv)
  requires b.len() > 0,
  ensures all_total(a.push(w) + b.drop_first()) == all_total(a + b) - total(b[0].runs) + total(w.runs), 0 <= total(b[0].runs) <= all_total(a + b),
{
  assert(a + b =~= a.push(b[0]) + b.drop_first());
  l_at_cat(a.push(b[0]), b.drop_first()); l_at_cat(a.push(w), b.drop_first());
  l_at(a, b[0]); l_at(a, w); l_at(b.drop_first(), w); l_total(b[0].runs, Seq::empty());
}
// the workflows the log meets: those of its session
pub open spec fn at_hand(o: WorkflowsEngine, l: LogRef) -> Seq<Wv> {
  let ws = wvs(o.state.workflows@);
  if o.state.session_id@ == Seq::<char>::empty() || o.state.session_id@ == session_of(l) { ws } else { emptied(ws) }
}
pub open spec fn rest_same(o: WorkflowsEngine, l: LogRef, n: WorkflowsEngine) -> bool {
  &&& n.state.session_id@ == session_of(l)
  &&& n.configs == o.configs && n.traversals_count_limit == o.traversals_count_limit && n.state_store == o.state_store
  &&& o.needs_state_persistence ==> n.needs_state_persistence
}
pub open spec fn seen(o: WorkflowsEngine, l: LogRef, n: WorkflowsEngine) -> bool {
  let ws = wvs(o.state.workflows@);
  &&& rest_same(o, l, n)
  &&& wvs(n.state.workflows@) == logged(l, o.traversals_count_limit as int, o.configs@, at_hand(o, l), ws.len() as int)
  // whatever changes is to be saved
  &&& n.needs_state_persistence || same_saved(wvs(n.state.workflows@), ws) && n.state.pending_actions == o.state.pending_actions && n.state.streaming_actions@ == o.state.streaming_actions@
}
// As long as nothing is to be saved, what is on disk is what would be saved: the workflows saved are the same after a log, and after
// an update.
proof fn l_same_saved(a: Seq<Wv>, b: Seq<Wv>)
  requires same_saved(a, b),
  ensures saved_ws(a) == saved_ws(b),
  decreases a.len(),
{
  if a.len() > 0 {
    let (c, d) = (a.drop_last(), b.drop_last());
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).id == d[i].id && active(c[i].runs) == active(d[i].runs) by { assert(a[i].id == b[i].id); }
    l_same_saved(c, d);
    assert(a[a.len() - 1].id == b[a.len() - 1].id);
  } else { assert(a =~= b); }
}
proof fn l_saved_cat(a: Seq<Wv>, b: Seq<Wv>)
  ensures saved_ws(a + b) == saved_ws(a) + saved_ws(b),
  decreases b.len(),
{
  if b.len() > 0 {
    l_saved_cat(a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert(saved_ws(a + b) =~= saved_ws(a) + saved_ws(b));
  } else { assert(a + b =~= a); assert(saved_ws(a) + saved_ws(b) =~= saved_ws(a)); }
}
proof fn l_saved_left(new: Seq<Config>, cs: Seq<Config>, ws: Seq<Wv>)
  requires cs.len() == ws.len(), forall|i: int| 0 <= i < cs.len() && !stays(new, cs[i], #[trigger] ws[i]) ==> active(ws[i].runs).len() == 0,
  ensures saved_ws(left_ws(new, cs, ws)) == saved_ws(ws),
  decreases cs.len(),
{
  if cs.len() > 0 {
    let (c, w) = (cs.drop_first(), ws.drop_first());
    assert forall|i: int| 0 <= i < c.len() && !stays(new, c[i], #[trigger] w[i]) implies active(w[i].runs).len() == 0 by { assert(w[i] == ws[i + 1]); }
    l_saved_left(new, c, w);
    let l = left_ws(new, c, w);
    assert(seq![ws[0]] + w =~= ws);
    l_saved_cat(seq![ws[0]], w);
    l_saved_cat(seq![ws[0]], l);
    if !stays(new, cs[0], ws[0]) {
      assert(seq![ws[0]].drop_last() =~= Seq::<Wv>::empty());
      assert(seq![ws[0]].last() == ws[0]);
      assert(stays(new, cs[0], ws[0]) || active(ws[0].runs).len() == 0);
      assert(saved_ws(seq![ws[0]].drop_last()) =~= Seq::<Wv>::empty());
      assert(saved_ws(seq![ws[0]]) =~= Seq::<Wv>::empty());
      assert(saved_ws(seq![ws[0]]) + saved_ws(w) =~= saved_ws(w));
    }
  }
}
proof fn l_saved_none(s: Seq<Wv>)
  requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).runs.len() == 0,
  ensures saved_ws(s) == Seq::<Wv>::empty(),
  decreases s.len(),
{ if s.len() > 0 { l_saved_none(s.drop_last()); assert(s[s.len() - 1].runs.len() == 0); } }
proof fn theorem_clean_update(o: WorkflowsEngine, n: WorkflowsEngine, new: Seq<Config>)
  requires inv(o), updated(o, n, new), !n.needs_state_persistence,
  ensures saved_ws(wvs(n.state.workflows@)) == saved_ws(wvs(o.state.workflows@)),
{
  let (cs, ws) = (o.configs@, wvs(o.state.workflows@));
  assert forall|i: int| 0 <= i < cs.len() && !stays(new, cs[i], #[trigger] ws[i]) implies active(ws[i].runs).len() == 0 by {}
  l_saved_left(new, cs, ws);
  let lw = left_ws(new, cs, ws);
  let f = no_runs(fresh_cs(new, lw));
  l_saved_cat(lw, f);
  l_saved_none(f);
  assert(saved_ws(lw) + saved_ws(f) =~= saved_ws(lw));
}
proof fn theorem_clean_log(o: WorkflowsEngine, n: WorkflowsEngine, l: LogRef)
  requires inv(o), seen(o, l, n), !n.needs_state_persistence,
  ensures
    saved_ws(wvs(n.state.workflows@)) == saved_ws(wvs(o.state.workflows@)),
    n.state.pending_actions == o.state.pending_actions, n.state.streaming_actions@ == o.state.streaming_actions@,
{ l_same_saved(wvs(n.state.workflows@), wvs(o.state.workflows@)); }
