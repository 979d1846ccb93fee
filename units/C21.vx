@include prelude.inc
@include iter.inc
@text
// ---- A counter's cell, shared by its handles. Every thread's operations on it take effect one at a time, in
// some order: a read may see anything the others left, so of the cell only what this side itself added to it
// (or took from it) is known. Its value is the sum of what all sides added. (2^64 is assumed not to be reached.)
pub struct Cell { pub id: Ghost<int>, pub mine: Ghost<int> }
impl Cell {
  pub open spec fn name(&self) -> int { self.id@ }
  pub open spec fn mine(&self) -> int { self.mine@ }
  #[verifier::external_body]
  pub fn new(n: u64) -> (r: Self)
    ensures r.mine() == n,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_add(&mut self, n: u64) -> (r: u64)
    ensures final(self).mine() == old(self).mine() + n, final(self).name() == old(self).name(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_sub(&mut self, n: u64) -> (r: u64)
    ensures final(self).mine() == old(self).mine() - n, final(self).name() == old(self).name(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&mut self) -> (r: u64)
    ensures *final(self) == *old(self),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&mut self, n: u64) -> (r: u64)
    ensures final(self).mine() == old(self).mine() + n - r, final(self).name() == old(self).name(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&mut self, n: u64)
    ensures final(self).name() == old(self).name(),
  { unimplemented!() }
}
// ---- A sketch, by the observations in it (the sketches-rust crate approximates their distribution).
#[verifier::external_body]
pub struct DDSketch {}
#[verifier::external_body]
#[derive(Debug)]
pub struct SketchError {}
impl DDSketch {
  pub uninterp spec fn seen(&self) -> Seq<f64>;
  #[verifier::external_body]
  pub fn accept(&mut self, v: f64) ensures final(self).seen() == old(self).seen().push(v) { unimplemented!() }
  #[verifier::external_body]
  pub fn merge_with(&mut self, o: &DDSketch) -> (r: Result<(), SketchError>)
    ensures r is Ok, final(self).seen() == old(self).seen() + o.seen(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.seen().len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self).seen().len() == 0 { unimplemented!() }
}
impl Clone for DDSketch { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn make_sketch() -> (r: DDSketch) ensures r.seen().len() == 0 { unimplemented!() }
impl<'a, T> VxIterable for &'a mut Vec<T> {
  type It = &'a T;
  open spec fn items(&self) -> Seq<&'a T> { refs((**self)@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
@known make_sketch
@known vx_few
@rule MAX_INLINE_HISTOGRAM_VALUES => vx_few()
@type_rule Arc<__T> => __T
@type_rule Mutex<__T> => __T
@type_rule AtomicU64 => Cell
@rule Arc::new(__x) => __x
@rule Mutex::new(__x) => __x
@rule AtomicU64::new(__n) => Cell::new(__n)
@rule __c.fetch_add(__n, __o) => __c.fetch_add(__n)
@rule __c.fetch_sub(__n, __o) => __c.fetch_sub(__n)
@rule __c.swap(__n, __o) => __c.swap(__n)
@rule __c.load(__o) => __c.load()
@rule __c.store(__n, __o) => __c.store(__n)
@guard __p.lock()
@type bd-client-stats-store/src/lib.rs Counter
@type bd-client-stats-store/src/lib.rs HistogramInner
@type bd-client-stats-store/src/lib.rs Histogram
@type bd-client-stats-store/src/lib.rs MetricData
@type bd-client-stats-store/src/lib.rs Error
@text
impl Clone for Counter { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for Histogram { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
// how many observations are kept as they are: the constant of the code
pub uninterp spec fn few() -> nat;
#[verifier::external_body]
pub fn vx_few() -> (r: usize) ensures r == few() { unimplemented!() }
impl HistogramInner {
  // the observations in it
  pub open spec fn seen(&self) -> Seq<f64> { match self { HistogramInner::Inline(v) => v@, HistogramInner::DDSketch(s) => s.seen() } }
}
impl Histogram { pub open spec fn seen(&self) -> Seq<f64> { self.inner.seen() } }
@fn bd-client-stats-store/src/lib.rs Counter::inc
@self mut
@spec
  ensures final(self).value.mine() == old(self).value.mine() + 1, final(self).value.name() == old(self).value.name(),
@fn bd-client-stats-store/src/lib.rs Counter::inc_by
@self mut
@spec
  ensures final(self).value.mine() == old(self).value.mine() + value, final(self).value.name() == old(self).value.name(),
@fn bd-client-stats-store/src/lib.rs Counter::get
@self mut
@spec
  ensures *final(self) == *old(self),
@fn bd-client-stats-store/src/lib.rs Counter::snap
@self mut
@spec
  // what leaves the counter is what the snapshot holds
  ensures
    final(self).value.name() == old(self).value.name(),
    match r {
      Some(MetricData::Counter(c)) => c.value.mine() > 0 && final(self).value.mine() == old(self).value.mine() - c.value.mine(),
      Some(MetricData::Histogram(_)) => false,
      None => final(self).value.mine() == old(self).value.mine(),
    },
@fn bd-client-stats-store/src/lib.rs Default for HistogramInner::default
@spec
  ensures r is Inline, r.seen().len() == 0,
@fn bd-client-stats-store/src/lib.rs HistogramInner::accept
@spec
  ensures
    final(self).seen() == old(self).seen().push(value),
    // exact while small; once a sketch, always a sketch
    *final(self) is Inline <==> *old(self) is Inline && old(self).seen().len() < few(),
@fn bd-client-stats-store/src/lib.rs HistogramInner::switch_to_sketch
@spec
  ensures
    *final(self) is DDSketch,
    *old(self) is DDSketch ==> *final(self) == *old(self),
    *old(self) is Inline ==> final(self).seen() == (match additional_value { Some(v) => old(self).seen().push(v), None => old(self).seen() }),
@entry
  let ghost all = self.seen();
@loop 0
  invariant
    vx_it0.rest().len() <= all.len(),
    vx_it0.rest() == refs(all.skip(all.len() - vx_it0.rest().len())),
    sketch.seen() == all.take(all.len() - vx_it0.rest().len()),
  ensures
    sketch.seen() == all,
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    let m = all.len() - vx_it0.rest().len();
    assert(all.take(all.len() as int) =~= all);
    if vx_it0.rest().len() > 0 {
      assert(all.skip(m)[0] == all[m]);
      assert(refs(all.skip(m)).drop_first() =~= refs(all.skip(m + 1)));
      assert(all.take(m).push(all[m]) =~= all.take(m + 1));
    }
  }
@fn bd-client-stats-store/src/lib.rs Histogram::observe
@self mut
@spec
  ensures
    final(self).seen() == old(self).seen().push(value),
    final(self).inner is Inline <==> old(self).inner is Inline && old(self).seen().len() < few(),
@fn bd-client-stats-store/src/lib.rs Histogram::snap
@self mut
@spec
  ensures
    final(self).seen().len() == 0,
    match r {
      Some(MetricData::Histogram(h)) => h.seen().len() > 0 && h.seen() == old(self).seen() && (h.inner is Inline <==> old(self).inner is Inline),
      Some(MetricData::Counter(_)) => false,
      None => old(self).seen().len() == 0,
    },
@fn bd-client-stats-store/src/lib.rs Histogram::merge_from
@self mut
@spec
  ensures final(self).seen() == old(self).seen() + other.seen(),
@entry
  let ghost mine = self.seen();
  let ghost all = other.seen();
@loop 0
  invariant
    vx_it0.rest().len() <= all.len(),
    vx_it0.rest() == refs(all.skip(all.len() - vx_it0.rest().len())),
    self.seen() == mine + all.take(all.len() - vx_it0.rest().len()),
  ensures
    self.seen() == mine + all,
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    let m = all.len() - vx_it0.rest().len();
    assert(all.take(all.len() as int) =~= all);
    if vx_it0.rest().len() > 0 {
      assert(all.skip(m)[0] == all[m]);
      assert(refs(all.skip(m)).drop_first() =~= refs(all.skip(m + 1)));
      assert((mine + all.take(m)).push(all[m]) =~= mine + all.take(m + 1));
    }
  }

//@ ---- registration
@type_rule BTreeMap<String, String> => Labels
@type_rule HashMap<Id, MetricData> => Metrics
@type_rule watch::Receiver<u32> => LimitWatch
@type_rule Result<&mut MetricData> => Result<MetricData, Error>
@type_rule Result<__T> => Result<__T, Error>
@type_rule impl FnOnce() -> MetricData => MetricData
@rule constructor() => constructor
@rule Self::get_common(__a, __b, __c, || __d) => { let vx_b = __b; Self::get_common(__a, vx_b, __c, __d) }
@rule (*__l.borrow()).try_into().unwrap() => __l.vx_now()
@rule Histogram::default() => Histogram { inner: HistogramInner::default() }
@rule BTreeMap::new() => Labels::new()
@rule HashMap::new() => Metrics::new()
@type bd-stats-common/src/lib.rs Id
@text
// ---- A set of labels, a collector's metrics by their identity (std's maps), the limit at one moment.
#[verifier::external_body]
pub struct Labels {}
impl Labels {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
}
impl Clone for Labels { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct LimitWatch {}
impl LimitWatch {
  // what the watch holds (it is read once per call)
  pub uninterp spec fn now(&self) -> nat;
  #[verifier::external_body]
  pub fn vx_now(&self) -> (r: usize) ensures r == self.now() { unimplemented!() }
}
pub ghost struct Key { pub name: Seq<char>, pub labels: Map<Seq<char>, Seq<char>> }
pub open spec fn key(i: Id) -> Key { Key { name: i.name@, labels: i.labels@ } }
#[verifier::external_body]
pub struct Metrics {}
pub struct Occupied { pub k: Ghost<Key>, pub v: MetricData }
pub struct Vacant { pub k: Ghost<Key> }
pub enum Entry { Occupied(Occupied), Vacant(Vacant) }
impl Metrics {
  pub uninterp spec fn view(&self) -> Map<Key, MetricData>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<Key, MetricData>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &Id) -> (r: Option<&MetricData>)
    ensures r is Some <==> self@.dom().contains(key(*k)), r is Some ==> *r->Some_0 == self@[key(*k)],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: Id, v: MetricData) -> (r: Option<MetricData>)
    ensures final(self)@ == old(self)@.insert(key(k), v), r is Some <==> old(self)@.dom().contains(key(k)),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &Id) -> (r: Option<MetricData>)
    ensures final(self)@ == old(self)@.remove(key(*k)), r is Some <==> old(self)@.dom().contains(key(*k)),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn entry(&self, k: Id) -> (r: Entry)
    ensures match r {
      Entry::Occupied(e) => e.k@ == key(k) && self@.dom().contains(key(k)) && e.v == self@[key(k)],
      Entry::Vacant(e) => e.k@ == key(k) && !self@.dom().contains(key(k)),
    },
  { unimplemented!() }
  // puts it there, and hands out a handle to it
  #[verifier::external_body]
  pub fn occupy(&mut self, e: Vacant, v: MetricData) -> (r: MetricData)
    ensures final(self)@ == old(self)@.insert(e.k@, v), r == v,
  { unimplemented!() }
}
pub open spec fn lim(l: Option<LimitWatch>) -> Option<nat> { match l { Some(w) => Some(w.now()), None => None } }
// Asking for the metric of that name: the one there is, or a new one if there is room.
pub open spec fn looked_up(old: BoundedCollectorInner, new: BoundedCollectorInner, k: Key, found: Option<MetricData>) -> bool {
  &&& new.limit == old.limit
  &&& old.metrics@.dom().contains(k) ==> new.metrics@ == old.metrics@ && found == Some(old.metrics@[k])
  &&& !old.metrics@.dom().contains(k) && found is Some ==> new.metrics@ == old.metrics@.insert(k, found->Some_0)
  &&& found is None <==> !old.metrics@.dom().contains(k) && lim(old.limit) is Some && old.metrics@.len() >= lim(old.limit)->Some_0
  &&& found is None ==> new.metrics@ == old.metrics@
}
pub open spec fn there(i: BoundedCollectorInner, k: Key) -> Option<MetricData> { if i.metrics@.dom().contains(k) { Some(i.metrics@[k]) } else { None } }
pub open spec fn asked(old: BoundedCollectorInner, new: BoundedCollectorInner, k: Key) -> bool { looked_up(old, new, k, there(new, k)) }
pub open spec fn is_new(old: BoundedCollectorInner, new: BoundedCollectorInner, k: Key) -> bool { !old.metrics@.dom().contains(k) && new.metrics@.dom().contains(k) }
pub open spec fn joined(scope: Seq<char>, name: Seq<char>) -> Seq<char> { if scope.len() == 0 { name } else { scope + ":"@ + name } }
pub open spec fn counter_of(m: Option<MetricData>) -> Result<Counter, Error> {
  match m { Some(MetricData::Counter(c)) => Ok(c), Some(MetricData::Histogram(_)) => Err(Error::ChangedType), None => Err(Error::Overflow) }
}
pub open spec fn histogram_of(m: Option<MetricData>) -> Result<Histogram, Error> {
  match m { Some(MetricData::Histogram(h)) => Ok(h), Some(MetricData::Counter(_)) => Err(Error::ChangedType), None => Err(Error::Overflow) }
}
// The number of metrics never grows past the limit.
proof fn l_bounded(a: BoundedCollectorInner, b: BoundedCollectorInner, k: Key, found: Option<MetricData>)
  requires looked_up(a, b, k, found),
  ensures
    lim(a.limit) is Some ==> b.metrics@.len() <= if a.metrics@.len() > lim(a.limit)->Some_0 { a.metrics@.len() } else { lim(a.limit)->Some_0 },
    // a name keeps its first type
    forall|j: Key| #[trigger] a.metrics@.dom().contains(j) ==> b.metrics@.dom().contains(j) && b.metrics@[j] == a.metrics@[j],
{}
@type bd-client-stats-store/src/lib.rs BoundedCollectorInner
@type bd-client-stats-store/src/lib.rs BoundedCollector
@type bd-client-stats-store/src/lib.rs BoundedScope
@fn bd-client-stats-store/src/lib.rs BoundedScope::metric_name
@rule SEP => ":"
@spec
  ensures r@ == joined(self.name@, name@),
@fn bd-client-stats-store/src/lib.rs BoundedScope::get_common
@frule __e.into_mut() => __e.v
@frule __e.insert(__v) => inner.metrics.occupy(__e, __v)
@spec
  ensures
    asked(*old(inner), *final(inner), Key { name: name@, labels: labels@ }),
    there(*final(inner), Key { name: name@, labels: labels@ }) == (match r { Ok(m) => Some(m), Err(_) => None }),
    r is Ok && !old(inner).metrics@.dom().contains(Key { name: name@, labels: labels@ }) ==> r->Ok_0 == constructor,
    r is Err ==> r->Err_0 is Overflow,
@fn bd-stats-common/src/lib.rs Id::new
@spec
  ensures r.name == name, r.labels == labels,
@fn bd-client-stats-store/src/lib.rs BoundedScope::counter_with_labels
@self mut
@spec
  ensures
    asked(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ }),
    r == counter_of(there(final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ })),
    is_new(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ }) ==> r is Ok && r->Ok_0.value.mine() == 0,
    final(self).name == old(self).name,
@fn bd-client-stats-store/src/lib.rs BoundedScope::counter
@self mut
@spec
  ensures
    asked(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() }),
    r == counter_of(there(final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() })),
    is_new(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() }) ==> r is Ok && r->Ok_0.value.mine() == 0,
    final(self).name == old(self).name,
@fn bd-client-stats-store/src/lib.rs BoundedScope::histogram_with_labels
@self mut
@spec
  ensures
    asked(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ }),
    r == histogram_of(there(final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ })),
    is_new(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: labels@ }) ==> r is Ok && r->Ok_0.seen().len() == 0,
    final(self).name == old(self).name,
@fn bd-client-stats-store/src/lib.rs BoundedScope::histogram
@self mut
@spec
  ensures
    asked(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() }),
    r == histogram_of(there(final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() })),
    is_new(old(self).collector.inner, final(self).collector.inner, Key { name: joined(old(self).name@, name@), labels: Map::empty() }) ==> r is Ok && r->Ok_0.seen().len() == 0,
    final(self).name == old(self).name,
@fn bd-client-stats-store/src/lib.rs BoundedCollector::new
@spec
  ensures r.inner.limit == limit, r.inner.metrics@ == Map::<Key, MetricData>::empty(),
@fn bd-client-stats-store/src/lib.rs BoundedCollector::find_counter
@spec
  ensures r == (match counter_of(if self.inner.metrics@.dom().contains(Key { name: name@, labels: labels@ }) { Some(self.inner.metrics@[Key { name: name@, labels: labels@ }]) } else { None }) { Ok(c) => Some(c), Err(_) => None }),
@fn bd-client-stats-store/src/lib.rs BoundedCollector::find_histogram
@spec
  ensures r == (match histogram_of(if self.inner.metrics@.dom().contains(Key { name: name@, labels: labels@ }) { Some(self.inner.metrics@[Key { name: name@, labels: labels@ }]) } else { None }) { Ok(c) => Some(c), Err(_) => None }),
@fn bd-client-stats-store/src/lib.rs MetricData::snap
@self mut
@spec
  ensures match *old(self) {
    MetricData::Counter(a) => *final(self) is Counter && final(self)->Counter_0.value.name() == a.value.name() && match r {
      Some(MetricData::Counter(c)) => c.value.mine() > 0 && final(self)->Counter_0.value.mine() == a.value.mine() - c.value.mine(),
      Some(MetricData::Histogram(_)) => false,
      None => final(self)->Counter_0.value.mine() == a.value.mine(),
    },
    MetricData::Histogram(a) => *final(self) is Histogram && final(self)->Histogram_0.seen().len() == 0 && match r {
      Some(MetricData::Histogram(h)) => h.seen().len() > 0 && h.seen() == a.seen(),
      Some(MetricData::Counter(_)) => false,
      None => a.seen().len() == 0,
    },
  },
