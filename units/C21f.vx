@include prelude.inc
@include iter.inc
@text
// ---- The flusher's side of the metrics. A metric's handles record to it at any moment, as long as there are any
// besides the collector's own; no new handle can appear while the collector is locked.
// Here a metric is known by what it holds once nobody else can record to it.
pub ghost enum Held { Amount(nat), Seen(Seq<f64>) }
pub open spec fn nothing(h: Held) -> bool { match h { Held::Amount(n) => n == 0, Held::Seen(s) => s.len() == 0 } }
pub struct Counter { pub n: Ghost<nat> }
impl Counter {
  // (the counters of a snapshot, which have one owner)
  #[verifier::external_body]
  pub fn get(&self) -> (r: u64) ensures r == self.n@ { unimplemented!() }
  #[verifier::external_body]
  pub fn inc_by(&mut self, v: u64) ensures final(self).n@ == old(self).n@ + v { unimplemented!() }
  #[verifier::external_body]
  pub fn inc(&mut self) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
}
pub struct Histogram { pub s: Ghost<Seq<f64>> }
impl Histogram {
  // proved in unit C21
  #[verifier::external_body]
  pub fn merge_from(&mut self, o: &Histogram) ensures final(self).s@ == old(self).s@ + o.s@ { unimplemented!() }
}
pub enum MetricData { Counter(Counter), Histogram(Histogram) }
impl MetricData {
  pub open spec fn held(&self) -> Held { match self { MetricData::Counter(c) => Held::Amount(c.n@), MetricData::Histogram(h) => Held::Seen(h.s@) } }
}
// a registered metric, while the collector is locked
#[verifier::external_body]
pub struct Live {}
impl Live {
  // nobody but the collector holds it; that stays so while the collector is locked
  pub uninterp spec fn sole(&self) -> bool;
  // what is in it: of meaning once nobody else can record to it
  pub uninterp spec fn left(&self) -> Held;
  // what this snapshot took out of it
  pub uninterp spec fn took(&self) -> Option<MetricData>;
  #[verifier::external_body]
  pub fn multiple_references(&mut self) -> (r: bool)
    ensures !r ==> final(self).sole(), old(self).sole() ==> !r && *final(self) == *old(self), final(self).took() == old(self).took(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn snap(&mut self) -> (r: Option<MetricData>)
    requires old(self).took() is None,
    ensures
      old(self).sole() ==> final(self).sole() && nothing(final(self).left()) && (r is None ==> nothing(old(self).left())),
      final(self).took() == r,
  { unimplemented!() }
}
#[verifier::external_body]
pub struct Id {}
impl Clone for Id { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Metrics {}
impl Metrics {
  pub uninterp spec fn view(&self) -> Map<Id, MetricData>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<Id, MetricData>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<Id>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &Id) -> (r: Option<&mut MetricData>)
    ensures
      r is Some <==> old(self)@.dom().contains(*k),
      match r { Some(m) => *m == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(m)), None => final(self)@ == old(self)@ },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: Id, v: MetricData) -> (r: Option<MetricData>)
    ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.dom().contains(k),
  { unimplemented!() }
  // every entry once
  pub uninterp spec fn listed(&self) -> Seq<(Id, MetricData)>;
}
#[verifier::external_body]
broadcast proof fn a_listed(m: Metrics)
  ensures
    #[trigger] lists(m.listed(), m@),
{}
pub open spec fn lists(l: Seq<(Id, MetricData)>, m: Map<Id, MetricData>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() ==> m.dom().contains(#[trigger] l[i].0) && m[l[i].0] == l[i].1
  &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i].0 != #[trigger] l[j].0
  &&& forall|k: Id| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < l.len() && l[i].0 == k
}
impl VxIterable for Metrics {
  type It = (Id, MetricData);
  open spec fn items(&self) -> Seq<(Id, MetricData)> { self.listed() }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<(Id, MetricData)>) { unimplemented!() }
}
// The collector's `retain` under its lock: the closure decides on each metric by itself, so what holds for one holds for all.
#[verifier::external_body]
pub struct BoundedCollector {}
#[verifier::external_body]
pub fn vx_any(c: &BoundedCollector) -> (r: (Id, Live)) ensures r.1.took() is None { unimplemented!() }
pub fn vx_forget(keep: bool, i: &Id, m: &Live, s: &SnapshotHelper)
  requires
    // a metric is forgotten only with nothing left in it, and when nobody can record to it any more
    !keep ==> m.sole() && nothing(m.left()),
    // what was taken out of it is in the snapshot
    m.took() is Some ==> s.metrics@.dom().contains(*i) && s.metrics@[*i] == m.took()->Some_0,
{}
// The files, by what is in them.
#[verifier::external_body]
pub struct StatsSnapshot {}
impl StatsSnapshot { pub uninterp spec fn metrics(&self) -> Map<Id, MetricData>; }
pub struct Handle { pub had: Option<StatsSnapshot> }
impl Handle {
  #[verifier::external_body]
  pub fn snapshot(&mut self) -> (r: Option<StatsSnapshot>) ensures r == old(self).had { unimplemented!() }
}
#[verifier::external_body]
pub struct FileManager {}
impl FileManager {
  // the content of the file being filled; none: nothing was written to it, or it could not be read
  pub uninterp spec fn current(&self) -> Map<Id, MetricData>;
  // what it held when it was last looked at
  pub uninterp spec fn had(&self) -> Map<Id, MetricData>;
  #[verifier::external_body]
  pub fn get_or_create_snapshot(&mut self) -> (r: Result<Handle, AnyErr>)
    ensures r is Ok ==> final(self).had() == content(r->Ok_0.had) && final(self).current() == final(self).had(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove_empty_snapshot(&mut self) -> (r: Result<(), AnyErr>)
    requires old(self).current() == Map::<Id, MetricData>::empty(),
    ensures final(self).current() == old(self).current(), final(self).had() == old(self).had(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn write_snapshot(&mut self, h: Handle, s: StatsSnapshot) -> (r: Result<(), AnyErr>)
    ensures final(self).had() == old(self).had(), r is Ok ==> final(self).current() == s.metrics(),
  { unimplemented!() }
}
pub open spec fn content(s: Option<StatsSnapshot>) -> Map<Id, MetricData> { match s { Some(s) => s.metrics(), None => Map::empty() } }
#[verifier::external_body]
pub fn vx_metrics(s: Option<StatsSnapshot>) -> (r: Metrics) ensures r@ == content(s) { unimplemented!() }
#[verifier::external_body]
pub fn vx_proto(s: SnapshotHelper) -> (r: StatsSnapshot) ensures r.metrics() == s.metrics@ { unimplemented!() }
pub struct Flusher { pub file_manager: FileManager }
@known metrics_from_snapshot
@known into_proto
@rule __x.await => __x
@rule bd_client_common::error::handle_unexpected::<(), anyhow::Error>(__a, __b) => ()
@rule handle_unexpected::<(), anyhow::Error>(__a, __b) => ()
@type_rule HashMap<Id, MetricData> => Metrics
@rule HashMap::new() => Metrics::new()
@type bd-client-stats/src/stats.rs SnapshotHelper
@fn bd-client-stats/src/stats.rs SnapshotHelper::add_metric
@spec
  ensures final(self).metrics@ == old(self).metrics@.insert(id, metric),
@fn bd-client-stats/src/stats.rs SnapshotHelper::mut_metric
@spec
  ensures
    r is Some <==> old(self).metrics@.dom().contains(*id),
    match r { Some(m) => *m == old(self).metrics@[*id] && final(self).metrics@ == old(self).metrics@.insert(*id, *final(m)), None => final(self).metrics@ == old(self).metrics@ },
@fn bd-client-stats/src/stats.rs Flusher::snap_collector_to_snapshot
@frule __c.retain(|__i, __m| __b) => { let (vx_i, mut vx_m) = vx_any(__c); let vx_keep = { let __i = &vx_i; let __m = &mut vx_m; __b }; vx_forget(vx_keep, &vx_i, &vx_m, &*snapshot); }
@text
// Two amounts of one metric together; of different kinds: the one there was.
pub open spec fn joined(a: MetricData, b: MetricData, r: MetricData) -> bool {
  match (a, b) {
    (MetricData::Counter(x), MetricData::Counter(y)) => r is Counter && r->Counter_0.n@ == x.n@ + y.n@,
    (MetricData::Histogram(x), MetricData::Histogram(y)) => r is Histogram && r->Histogram_0.s@ == x.s@ + y.s@,
    _ => r == a,
  }
}
pub open spec fn merged_at(a: Map<Id, MetricData>, d: Map<Id, MetricData>, r: Map<Id, MetricData>, k: Id) -> bool {
  &&& r.dom().contains(k) <==> a.dom().contains(k) || d.dom().contains(k)
  &&& a.dom().contains(k) && d.dom().contains(k) ==> joined(a[k], d[k], r[k])
  &&& a.dom().contains(k) && !d.dom().contains(k) ==> r[k] == a[k]
  &&& !a.dom().contains(k) && d.dom().contains(k) ==> r[k] == d[k]
}
pub open spec fn merged(a: Map<Id, MetricData>, d: Map<Id, MetricData>, r: Map<Id, MetricData>) -> bool { forall|k: Id| #[trigger] merged_at(a, d, r, k) }
// the entries listed so far, as a map
pub open spec fn first(l: Seq<(Id, MetricData)>, n: nat) -> Map<Id, MetricData>
  decreases n,
{ if n == 0 { Map::empty() } else { first(l, (n - 1) as nat).insert(l[n - 1].0, l[n - 1].1) } }
proof fn l_first(l: Seq<(Id, MetricData)>, m: Map<Id, MetricData>, n: nat)
  requires lists(l, m), n <= l.len(),
  ensures
    forall|k: Id| #[trigger] first(l, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && l[i].0 == k,
    forall|k: Id| first(l, n).dom().contains(k) ==> #[trigger] first(l, n)[k] == m[k],
    n == l.len() ==> first(l, n) =~= m,
    n < l.len() ==> !first(l, n).dom().contains(l[n as int].0),
  decreases n,
{
  if n > 0 { l_first(l, m, (n - 1) as nat); }
  assert forall|k: Id| #[trigger] first(l, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && l[i].0 == k by {
    if n > 0 {
      if exists|i: int| 0 <= i < n && l[i].0 == k {
        let i = choose|i: int| 0 <= i < n && l[i].0 == k;
        if i < n - 1 { assert(0 <= i < n - 1 && l[i].0 == k); }
      }
      if l[n - 1].0 == k { assert(0 <= n - 1 < n && l[n - 1].0 == k); }
      if exists|i: int| 0 <= i < n - 1 && l[i].0 == k {
        let i = choose|i: int| 0 <= i < n - 1 && l[i].0 == k;
        assert(0 <= i < n && l[i].0 == k);
      }
    }
  }
}
broadcast proof fn l_empty(a: Map<Id, MetricData>, d: Map<Id, MetricData>, r: Map<Id, MetricData>)
  requires #[trigger] merged(a, d, r),
  ensures r.dom() == Set::<Id>::empty() ==> a == Map::<Id, MetricData>::empty() && r == a,
{
  if r.dom() == Set::<Id>::empty() {
    assert forall|k: Id| !a.dom().contains(k) by { assert(merged_at(a, d, r, k)); assert(!r.dom().contains(k)); }
    assert(a =~= Map::<Id, MetricData>::empty());
    assert(r =~= a);
  }
}
// One more entry taken in.
proof fn l_one(a: Map<Id, MetricData>, f: Map<Id, MetricData>, r: Map<Id, MetricData>, k: Id, v: MetricData)
  requires merged(a, f, r), !f.dom().contains(k),
  ensures
    r.dom().contains(k) <==> a.dom().contains(k),
    r.dom().contains(k) ==> r[k] == a[k],
    forall|w: MetricData| (if a.dom().contains(k) { joined(a[k], v, w) } else { w == v }) ==> merged(a, f.insert(k, v), #[trigger] r.insert(k, w)),
    // of different kinds: as it was
    a.dom().contains(k) && joined(a[k], v, a[k]) ==> merged(a, f.insert(k, v), r),
{
  assert(merged_at(a, f, r, k));
  assert forall|w: MetricData| (if a.dom().contains(k) { joined(a[k], v, w) } else { w == v }) implies merged(a, f.insert(k, v), #[trigger] r.insert(k, w)) by {
    assert forall|j: Id| #[trigger] merged_at(a, f.insert(k, v), r.insert(k, w), j) by { assert(merged_at(a, f, r, j)); }
  }
  if a.dom().contains(k) && joined(a[k], v, a[k]) {
    assert forall|j: Id| #[trigger] merged_at(a, f.insert(k, v), r, j) by { assert(merged_at(a, f, r, j)); }
  }
}
@fn bd-client-stats/src/stats.rs SnapshotHelper::new
@frule Self::metrics_from_snapshot(__s).unwrap_or_default() => vx_metrics(__s)
@spec
  ensures r.metrics@ == content(snapshot),
@fn bd-client-stats/src/stats.rs Flusher::merge_delta_snapshot_to_disk
@self mut
@frule __s.into_proto() => vx_proto(__s)
@frule (&metric, &__b) => (&metric, &mut *__b)
@spec
  ensures
    // the file then holds what it held and what was taken
    r is Ok ==> merged(final(self).file_manager.had(), delta_snapshot.metrics@, final(self).file_manager.current()),
@entry
  broadcast use {a_listed, l_empty};
  let ghost d = delta_snapshot.metrics@;
  let ghost l = delta_snapshot.metrics.listed();
@loop 0
  invariant
    lists(l, d),
    vx_it0.rest().len() <= l.len(),
    vx_it0.rest() == l.skip(l.len() - vx_it0.rest().len()),
    merged(self.file_manager.had(), first(l, (l.len() - vx_it0.rest().len()) as nat), new_or_existing_snapshot.metrics@),
    self.file_manager.current() == self.file_manager.had(),
  ensures
    merged(self.file_manager.had(), d, new_or_existing_snapshot.metrics@),
    self.file_manager.current() == self.file_manager.had(),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    let m = (l.len() - vx_it0.rest().len()) as nat;
    l_first(l, d, m);
    if vx_it0.rest().len() > 0 {
      assert(l.skip(m as int)[0] == l[m as int]);
      assert(l.skip(m as int).drop_first() =~= l.skip((m + 1) as int));
      l_first(l, d, m + 1);
      l_one(self.file_manager.had(), first(l, m), new_or_existing_snapshot.metrics@, l[m as int].0, l[m as int].1);
    }
  }
