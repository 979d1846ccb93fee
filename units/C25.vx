@include prelude.inc
@include iter.inc
@include vmap.inc
@text
// ---- LabelTracker: admitted (name, value) pairs. One thread at a time (the code documents the race on
// the count as accepted).
#[verifier::external_body]
pub struct KeySet {}
impl KeySet {
  pub uninterp spec fn view(&self) -> Set<Seq<char>>;
  #[verifier::external_body]
  pub fn entry(&self, k: String) -> (r: Entry)
    ensures
      r is Vacant <==> !self@.contains(k@),
      r is Vacant ==> r->Vacant_0.key@ == k@,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn occupy(&mut self, e: VacantEntry)
    ensures final(self)@ == old(self)@.insert(e.key@),
  { unimplemented!() }
}
pub struct VacantEntry { pub key: String }
pub enum Entry { Vacant(VacantEntry), Occupied(VacantEntry) }
// A prometheus counter handle.
pub struct OverflowCounter { pub v: u64 }
impl OverflowCounter {
  pub fn inc(&mut self)
    ensures final(self).v == (old(self).v + 1) % 0x1_0000_0000_0000_0000,
  { self.v = self.v.wrapping_add(1); }
}
pub fn vx_fetch_add(x: &mut u64, n: u64) -> (r: u64)
  ensures r == *old(x), *final(x) == (*old(x) + n) % 0x1_0000_0000_0000_0000,
{ let r = *x; *x = r.wrapping_add(n); r }
#[verifier::external_body]
pub struct DynLabelProvider {}
impl DynLabelProvider {
  pub uninterp spec fn given(&self) -> Seq<&str>;
  #[verifier::external_body]
  pub fn labels(&self) -> (r: Vec<&str>) ensures r@ == self.given() { unimplemented!() }
}
pub open spec fn key(n: Seq<char>, l: Seq<char>) -> Seq<char> { n + "_"@ + l }
#[verifier::external_body]
pub fn vx_concat3(a: &str, b: &str, c: &str) -> (r: String)
  ensures r@ == a@ + b@ + c@,
{ unimplemented!() }
@macro concat_string::concat_string => callall vx_concat3
@type_rule DashMap<String, ()> => KeySet
@type_rule AtomicU64 => u64
@rule __e.insert(()) => self.labels.occupy(__e)
@rule __c.load(__o) => __c
@rule __c.fetch_add(__n, __o) => vx_fetch_add(&mut __c, __n)
@type bd-server-stats/src/stats.rs LabelTracker
@field label_overflow: OverflowCounter
@text
impl LabelTracker {
  pub open spec fn wf(&self) -> bool {
    &&& self.label_count == self.labels@.len()
    &&& self.label_count <= self.max_labels
  }
}
@fn bd-server-stats/src/stats.rs LabelTracker::track_labels
@self mut
@param label_provider: &'a DynLabelProvider
@spec
  requires
    old(self).wf(),
    label_names@.len() == label_provider.given().len(),
  ensures
    final(self).wf(),
    final(self).max_labels == old(self).max_labels,
    // admitted once, admitted for ever
    old(self).labels@.subset_of(final(self).labels@),
    // either every label is admitted and used as given ...
    (r@ == label_provider.given() && final(self).label_overflow == old(self).label_overflow
      && forall|i: int| 0 <= i < label_names@.len() ==> #[trigger] final(self).labels@.contains(key(label_names@[i]@, label_provider.given()[i]@)))
    // ... or the set is full, one label is not in it, and every label becomes the overflow label
    || (r@.len() == label_provider.given().len() && (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == "label_overflow"@)
      && final(self).label_overflow.v == (old(self).label_overflow.v + 1) % 0x1_0000_0000_0000_0000
      && final(self).label_count == final(self).max_labels
      && exists|i: int| 0 <= i < label_names@.len() && !#[trigger] final(self).labels@.contains(key(label_names@[i]@, label_provider.given()[i]@))),
@entry
  let ghost l0 = self.labels@;
  let ghost ov0 = self.label_overflow;
  let ghost max0 = self.max_labels;
@loop 0
  invariant_except_break
    !use_fallback_labels,
    self.label_overflow == ov0,
  invariant
    self.wf(), self.max_labels == max0,
    l0.subset_of(self.labels@),
    label_names@.len() == label_provider.given().len(),
    provided_labels@ == label_provider.given(),
    label_names@.len() <= usize::MAX,
    vx_it0.rest().len() <= label_names@.len(),
    vx_it0.rest() == numbered(label_names@).skip(label_names@.len() - vx_it0.rest().len()),
    !use_fallback_labels ==> forall|i: int| 0 <= i < label_names@.len() - vx_it0.rest().len() ==> #[trigger] self.labels@.contains(key(label_names@[i]@, label_provider.given()[i]@)),
  ensures
    !use_fallback_labels ==> self.label_overflow == ov0
      && forall|i: int| 0 <= i < label_names@.len() ==> #[trigger] self.labels@.contains(key(label_names@[i]@, label_provider.given()[i]@)),
    use_fallback_labels ==> self.label_overflow.v == (ov0.v + 1) % 0x1_0000_0000_0000_0000 && self.label_count == self.max_labels
      && exists|i: int| 0 <= i < label_names@.len() && !#[trigger] self.labels@.contains(key(label_names@[i]@, label_provider.given()[i]@)),
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost n = label_names@.len() - vx_it0.rest().len();
  proof {
    if vx_it0.rest().len() > 0 {
      assert(numbered(label_names@).skip(n)[0] == numbered(label_names@)[n]);
      assert(numbered(label_names@).skip(n).drop_first() =~= numbered(label_names@).skip(n + 1));
    }
  }
@after self.label_overflow.inc()
  assert(!self.labels@.contains(key(label_names@[n as int]@, label_provider.given()[n as int]@)));

//@ ---- metric identity
@text
#[verifier::external_body]
pub struct IntCounter {}
impl Clone for IntCounter { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct IntGauge {}
impl Clone for IntGauge { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Histogram {}
impl Clone for Histogram { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Registry {}
#[verifier::external_body]
pub struct Opts {}
impl Opts {
  #[verifier::external_body]
  pub fn const_labels(self, l: VMap<String>) -> Opts { self }
}
#[verifier::external_body]
pub fn vx_opts(name: String, help: &str) -> Opts { unimplemented!() }
#[verifier::external_body]
pub struct HistogramOpts {}
impl HistogramOpts {
  #[verifier::external_body]
  pub fn new(name: String, help: &str) -> HistogramOpts { unimplemented!() }
  #[verifier::external_body]
  pub fn const_labels(self, l: VMap<String>) -> HistogramOpts { self }
  #[verifier::external_body]
  pub fn buckets(self, b: Vec<f64>) -> HistogramOpts { self }
}
// Registration makes a new metric; that the registry accepts it is assumed.
#[verifier::external_body]
pub fn vx_reg_counter(o: Opts, r: &Registry) -> (h: Result<IntCounter, AnyErr>) ensures h is Ok { unimplemented!() }
#[verifier::external_body]
pub fn vx_reg_gauge(o: Opts, r: &Registry) -> (h: Result<IntGauge, AnyErr>) ensures h is Ok { unimplemented!() }
#[verifier::external_body]
pub fn vx_reg_histogram(o: HistogramOpts, r: &Registry) -> (h: Result<Histogram, AnyErr>) ensures h is Ok { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec(b: &[f64]) -> Vec<f64> { b.to_vec() }
pub open spec fn texts(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
pub open spec fn idv(id: Id) -> (Seq<char>, Map<Seq<char>, Seq<char>>) { (id.name@, texts(id.labels@)) }
#[verifier::external_body]
#[verifier::accept_recursive_types(M)]
pub struct MetricMap<M> { m: Vec<M> }
impl<M> MetricMap<M> {
  pub uninterp spec fn view(&self) -> Map<(Seq<char>, Map<Seq<char>, Seq<char>>), M>;
  #[verifier::external_body]
  pub fn find(&self, k: &Id) -> (r: Option<M>)
    ensures r == (if self@.dom().contains(idv(*k)) { Some(self@[idv(*k)]) } else { None::<M> }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn put(&mut self, k: Id, v: M)
    ensures final(self)@ == old(self)@.insert(idv(k), v),
  { unimplemented!() }
}
@macro opts => callall vx_opts
@macro register_int_counter_with_registry => callall vx_register_counter
@macro register_int_gauge_with_registry => callall vx_register_gauge
@macro register_histogram_with_registry => callall vx_register_histogram
@rule vx_register_counter(__o, __r) => vx_reg_counter(__o, &__r)
@rule vx_register_gauge(__o, __r) => vx_reg_gauge(__o, &__r)
@rule vx_register_histogram(__o, __r) => vx_reg_histogram(__o, &__r)
@rule __b.to_vec() => vx_to_vec(__b)
@rule HashMap::new() => VMap::<String>::new()
@rule __m.entry(__k).or_insert_with(|| __b).vx_clone() => { let vx_k = __k; match __m.find(&vx_k) { Some(vx_h) => vx_h, None => { let vx_h = __b; __m.put(vx_k, vx_h.vx_clone()); vx_h } } }
@type_rule DashMap<Id, __M> => MetricMap<__M>
@type_rule Arc<CollectorInner> => CollectorInner
@type_rule Arc<LabelTracker> => LabelTracker
@type bd-stats-common/src/lib.rs Id
@type bd-server-stats/src/stats.rs SEP
@type bd-server-stats/src/stats.rs CollectorInner
@dropfield chained_collectors on_gather_callbacks label_tracker
@type bd-server-stats/src/stats.rs Collector
@type bd-server-stats/src/stats.rs Scope
@text
impl Scope {
  pub open spec fn full_name(&self, name: Seq<char>) -> Seq<char> {
    if self.scope@.len() == 0 { name } else { self.scope@ + ":"@ + name }
  }
  // Scope labels, overridden by the metric's own.
  pub open spec fn all_labels(&self, l: Map<Seq<char>, String>) -> Map<Seq<char>, String> { self.labels@.union_prefer_right(l) }
  pub open spec fn id(&self, name: Seq<char>, l: Map<Seq<char>, String>) -> (Seq<char>, Map<Seq<char>, Seq<char>>) {
    (self.full_name(name), texts(self.all_labels(l)))
  }
}
// One handle per identity: the one already there, or a new one.
pub open spec fn served<M>(before: Map<(Seq<char>, Map<Seq<char>, Seq<char>>), M>, after: Map<(Seq<char>, Map<Seq<char>, Seq<char>>), M>, id: (Seq<char>, Map<Seq<char>, Seq<char>>), r: M) -> bool {
  if before.dom().contains(id) { after == before && r == before[id] } else { after == before.insert(id, r) }
}
#[verifier::external_body]
pub fn vx_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
@rule self.scope.is_empty() => vx_is_empty(&self.scope)
@fn bd-stats-common/src/lib.rs Id::new
@spec
  ensures r.name == name, r.labels == labels,
@fn bd-server-stats/src/stats.rs Scope::metric_name
@spec
  ensures r@ == self.full_name(name@),
@entry
  proof { assert(""@ + self.scope@ =~= self.scope@) by { reveal_strlit(""); } assert(Seq::<char>::empty() + self.scope@ =~= self.scope@); }
@fn bd-server-stats/src/stats.rs Scope::final_labels
@spec
  ensures r@ == self.all_labels(labels@),
@fn bd-server-stats/src/stats.rs Scope::counter_with_labels
@self mut
@spec
  ensures
    served(old(self).collector.inner.counters@, final(self).collector.inner.counters@, old(self).id(name@, labels@), r),
    final(self).collector.inner.gauges == old(self).collector.inner.gauges,
    final(self).collector.inner.histograms == old(self).collector.inner.histograms,
    final(self).scope == old(self).scope, final(self).labels == old(self).labels,
@fn bd-server-stats/src/stats.rs Scope::counter
@self mut
@spec
  ensures
    served(old(self).collector.inner.counters@, final(self).collector.inner.counters@, old(self).id(name@, Map::empty()), r),
@fn bd-server-stats/src/stats.rs Scope::gauge
@self mut
@spec
  ensures
    served(old(self).collector.inner.gauges@, final(self).collector.inner.gauges@, (old(self).full_name(name@), texts(old(self).labels@)), r),
    final(self).collector.inner.counters == old(self).collector.inner.counters,
    final(self).collector.inner.histograms == old(self).collector.inner.histograms,
@fn bd-server-stats/src/stats.rs Scope::histogram_ex
@self mut
@spec
  ensures
    served(old(self).collector.inner.histograms@, final(self).collector.inner.histograms@, (old(self).full_name(name@), texts(old(self).labels@)), r),
    final(self).collector.inner.counters == old(self).collector.inner.counters,
    final(self).collector.inner.gauges == old(self).collector.inner.gauges,
