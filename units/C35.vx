// C35: the buffer manager, over stand-ins for the ring buffers, the uploader's channel and the flush requests.
@include prelude.inc
@include iter.inc
@include vmap.inc
@rule __x.await => __x
@rule __x.lock() => __x
@type_rule Arc<__T> => __T
@rule Arc::new(__x) => __x
@type_rule dyn buffer::RingBuffer => VolatileRingBuffer
@type_rule buffer::VolatileRingBuffer => VolatileRingBuffer
@type_rule tokio::sync::oneshot::Receiver<()> => Ack
@type_rule Sender<BufferEventWithResponse> => EventTx
@type_rule Receiver<BuffersWithAck> => FlushRx
@type_rule Option<bd_completion::Sender<()>> => Option<Done>
@type_rule parking_lot::Mutex<AllBuffers> => (VMap<(Kind, RingBuffer)>, Option<VolatileRingBuffer>)
@type_rule bd_runtime::runtime::IntWatch<__T> => IntWatch
@rule __x.cloned() => vx_cloned(__x)
@rule anyhow!(__x) => vx_err()
@text
pub mod buffer_config {
  #[derive(Clone, Copy, PartialEq, Eq)]
  pub enum Type { CONTINUOUS, TRIGGER }
}
pub use buffer_config::Type as Kind;
pub struct IntWatch { pub v: u32 }
impl IntWatch { pub fn read(&self) -> (r: u32) ensures r == self.v { self.v } }
#[verifier::external_body]
pub struct Scope {}
// A buffer: which one (`no`), and what it was made with.
pub struct RingBuffer { pub no: Ghost<int>, pub volatile: Ghost<u32>, pub file: Ghost<u32>, pub overwrites: Ghost<bool>, pub path: Ghost<Seq<char>> }
impl Clone for RingBuffer { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub struct VolatileRingBuffer { pub no: Ghost<int> }
impl Clone for VolatileRingBuffer { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@type bd-buffer/src/ring_buffer.rs BufferEvent
@text
// What the uploader has been told, each with its receipt; which receipts came back; whose files go with their last
// user; whether the uploader is gone; the flush request at hand and what has been flushed for it.
pub struct World {
  pub told: Ghost<Seq<BufferEvent>>, pub receipts: Ghost<Seq<int>>, pub acked: Ghost<Set<int>>, pub doomed: Ghost<Set<int>>, pub gone: Ghost<bool>,
  pub names: Ghost<Seq<String>>, pub asked: Ghost<bool>, pub answered: Ghost<bool>, pub flushed: Ghost<Set<int>>, pub closed: Ghost<bool>,
}
pub struct Ack { pub no: Ghost<int> }
pub struct BufferEventWithResponse { pub event: BufferEvent, pub no: Ghost<int> }
impl BufferEventWithResponse {
  #[verifier::external_body]
  pub fn new(event: BufferEvent) -> (r: (Self, Ack)) ensures r.0.event == event, r.1.no == r.0.no { unimplemented!() }
}
#[verifier::external_body]
pub struct EventTx {}
impl EventTx {
  #[verifier::external_body]
  pub fn send(&self, e: BufferEventWithResponse, w: &mut World) -> (r: Result<(), AnyErr>)
    ensures
      r is Ok ==> *final(w) == (World { told: final(w).told, receipts: final(w).receipts, ..*old(w) }) && final(w).told@ == old(w).told@.push(e.event) && final(w).receipts@ == old(w).receipts@.push(e.no@),
      r is Err ==> *final(w) == (World { gone: final(w).gone, ..*old(w) }) && final(w).gone@,
  { unimplemented!() }
}
pub fn handle_unexpected(r: Result<(), AnyErr>, what: &str) { }
pub open spec fn receipts(a: Seq<Ack>) -> Seq<int> { a.map_values(|x: Ack| x.no@) }
#[verifier::external_body]
pub fn join_all(a: Vec<Ack>, w: &mut World)
  ensures *final(w) == (World { acked: final(w).acked, ..*old(w) }), final(w).acked@ == old(w).acked@.union(receipts(a@).to_set()),
{ unimplemented!() }
impl RingBuffer {
  #[verifier::external_body]
  pub fn vx_doom(&self, w: &mut World)
    ensures *final(w) == (World { doomed: final(w).doomed, ..*old(w) }), final(w).doomed@ == old(w).doomed@.insert(self.no@),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn flush(&self, w: &mut World)
    ensures *final(w) == (World { flushed: final(w).flushed, ..*old(w) }), final(w).flushed@ == old(w).flushed@.insert(self.no@),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_new(volatile: u32, path: Path, file: u32, overwrites: bool) -> (r: Result<(RingBuffer, bool), AnyErr>)
    ensures r is Ok ==> ({ let b = r->Ok_0.0; b.volatile@ == volatile && b.file@ == file && b.overwrites@ == overwrites && b.path@ == path.p@ }),
  { unimplemented!() }
}
impl VolatileRingBuffer {
  #[verifier::external_body]
  pub fn flush(&self, w: &mut World)
    ensures *final(w) == (World { flushed: final(w).flushed, ..*old(w) }), final(w).flushed@ == old(w).flushed@.insert(self.no@),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_new(size: u32) -> (r: VolatileRingBuffer) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cloned<T: Clone>(x: Option<&T>) -> (r: Option<T>)
  ensures r is Some <==> x is Some, r is Some ==> r->0 == *x->0,
{ unimplemented!() }
pub struct Path { pub p: Ghost<Seq<char>> }
impl Path {
  #[verifier::external_body]
  pub fn join(&self, f: &str) -> (r: Path) ensures r.p@ == under(self.p@, f@) { unimplemented!() }
}
pub uninterp spec fn under(d: Seq<char>, f: Seq<char>) -> Seq<char>;
@type_rule PathBuf => Path
@text
// The configuration, as far as it is read.
pub struct BufferConfigList { pub buffer_config: Vec<BufferConfig> }
pub struct BufferSizes { pub volatile_buffer_size_bytes: u32, pub non_volatile_buffer_size_bytes: u32 }
pub struct MessageField { pub m: Option<BufferSizes> }
impl MessageField {
  pub fn as_ref(&self) -> (r: Option<&BufferSizes>) ensures r is Some <==> self.m is Some, r is Some ==> *r->0 == self.m->0 { self.m.as_ref() }
}
#[derive(Clone, Copy)]
pub struct KindOrUnknown { pub k: Option<Kind> }
pub fn vx_is_trigger(k: KindOrUnknown) -> (r: bool) ensures r == (k.k == Some(Kind::TRIGGER)) { match k.k { Some(Kind::TRIGGER) => true, _ => false } }
pub fn vx_kind(k: KindOrUnknown) -> (r: Result<Kind, AnyErr>) ensures r is Ok <==> k.k is Some, r is Ok ==> r->Ok_0 == k.k->0 { match k.k { Some(k) => Ok(k), None => Err(vx_err()) } }
pub struct BufferConfig { pub id: String, pub name: String, pub type_: KindOrUnknown, pub buffer_sizes: MessageField }
// ---- The entries of a map, one by one, in some order.
pub uninterp spec fn entries<V>(m: VMap<V>) -> Seq<(String, V)>;
impl<V> VxIterable for VMap<V> {
  type It = (String, V);
  open spec fn items(&self) -> Seq<(String, V)> { entries(*self) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<(String, V)>) { unimplemented!() }
}
pub open spec fn distinct<V>(s: Seq<(String, V)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0@ == (#[trigger] s[j]).0@ ==> i == j }
#[verifier::external_body]
pub proof fn entries_of<V>(m: VMap<V>)
  ensures
    distinct(entries(m)),
    forall|i: int| 0 <= i < entries(m).len() ==> m@.dom().contains((#[trigger] entries(m)[i]).0@) && m@[entries(m)[i].0@] == entries(m)[i].1,
    forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < entries(m).len() && (#[trigger] entries(m)[i]).0@ == k,
{}
#[verifier::external_body]
pub fn vx_keys<V>(m: &VMap<V>) -> (r: Vec<String>)
  ensures
    forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i])@),
    forall|k: Seq<char>| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
{ unimplemented!() }
// ---- What is told.
pub type Held = (Kind, RingBuffer);
pub open spec fn addition(s: (String, Held)) -> BufferEvent {
  match s.1.0 { Kind::CONTINUOUS => BufferEvent::ContinuousBufferCreated(s.0, s.1.1), Kind::TRIGGER => BufferEvent::TriggerBufferCreated(s.0, s.1.1) }
}
#[verifier::opaque]
pub open spec fn removals(s: Seq<(String, Held)>) -> Seq<BufferEvent> { s.map_values(|x: (String, Held)| BufferEvent::BufferRemoved(x.0)) }
#[verifier::opaque]
pub open spec fn additions(s: Seq<(String, Held)>) -> Seq<BufferEvent> { s.map_values(|x: (String, Held)| addition(x)) }
#[verifier::opaque]
pub open spec fn numbers(s: Seq<(String, Held)>) -> Set<int> { s.map_values(|x: (String, Held)| x.1.1.no@).to_set() }
pub proof fn lemma_removals(t: Seq<BufferEvent>, s: Seq<(String, Held)>)
  requires s.len() > 0,
  ensures (t + removals(s)) == t.push(BufferEvent::BufferRemoved(s[0].0)) + removals(s.drop_first()),
{ reveal(removals); assert(t + removals(s) =~= t.push(BufferEvent::BufferRemoved(s[0].0)) + removals(s.drop_first())); }
pub proof fn lemma_additions(t: Seq<BufferEvent>, s: Seq<(String, Held)>)
  requires s.len() > 0,
  ensures (t + additions(s)) == t.push(addition(s[0])) + additions(s.drop_first()),
{ reveal(additions); assert(t + additions(s) =~= t.push(addition(s[0])) + additions(s.drop_first())); }
pub proof fn lemma_numbers(t: Set<int>, s: Seq<(String, Held)>)
  requires s.len() > 0,
  ensures t.union(numbers(s)) =~= t.insert(s[0].1.1.no@).union(numbers(s.drop_first())),
{
  reveal(numbers);
  let a = s.map_values(|x: (String, Held)| x.1.1.no@);
  let b = s.drop_first().map_values(|x: (String, Held)| x.1.1.no@);
  assert forall|n: int| a.to_set().contains(n) <==> n == s[0].1.1.no@ || b.to_set().contains(n) by {
    if a.contains(n) { let i = choose|i: int| 0 <= i < a.len() && a[i] == n; if i > 0 { assert(b[i - 1] == n); } }
    if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(a[i + 1] == n); }
    if n == s[0].1.1.no@ { assert(a[0] == n); }
  }
}
pub proof fn lemma_none(t: Seq<BufferEvent>, d: Set<int>, s: Seq<(String, Held)>)
  requires s.len() == 0,
  ensures (t + removals(s)) == t, (t + additions(s)) == t, d.union(numbers(s)) == d,
{ reveal(removals); reveal(additions); reveal(numbers); assert(t + removals(s) =~= t); assert(t + additions(s) =~= t); assert(d.union(numbers(s)) =~= d); }
pub broadcast proof fn lemma_receipt(t: Seq<int>, a: Seq<Ack>, x: Ack)
  ensures #[trigger] (t + receipts(a.push(x))) == (t + receipts(a)).push(x.no@),
{ assert(t + receipts(a.push(x)) =~= (t + receipts(a)).push(x.no@)); }
@type bd-buffer/src/ring_buffer.rs Manager
@fn bd-buffer/src/ring_buffer.rs Manager::resolve_buffer_updates
@extra_param vx_w: &mut World
@frule self.buffer_event_tx.send(__e) => self.buffer_event_tx.send(__e, vx_w)
@frule __b.delete_on_drop.store(true, __o) => __b.vx_doom(vx_w)
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  ensures
    *final(vx_w) == (World { told: final(vx_w).told, receipts: final(vx_w).receipts, doomed: final(vx_w).doomed, gone: final(vx_w).gone, ..*old(vx_w) }),
    old(vx_w).gone@ ==> final(vx_w).gone@,
    // the files of the removed ones go with their last user, and of no other
    final(vx_w).doomed@ == old(vx_w).doomed@.union(numbers(entries(current_buffers))),
    // the uploader is told of each removal, then of each addition
    final(vx_w).gone@ || final(vx_w).told@ == old(vx_w).told@ + removals(entries(current_buffers)) + additions(new_buffers@),
    final(vx_w).gone@ || final(vx_w).receipts@ == old(vx_w).receipts@ + receipts(r@),
@entry
  broadcast use lemma_receipt;
  proof { assert(vx_w.receipts@ + receipts(Seq::<Ack>::empty()) =~= vx_w.receipts@); }
  let ghost vx_o = *vx_w;
  let ghost vx_t = vx_w.told@ + removals(entries(current_buffers));
@loop 0
  invariant
    *vx_w == (World { told: vx_w.told, receipts: vx_w.receipts, doomed: vx_w.doomed, gone: vx_w.gone, ..vx_o }), vx_o.gone@ ==> vx_w.gone@,
    vx_w.doomed@.union(numbers(vx_it0.rest())) == vx_o.doomed@.union(numbers(entries(current_buffers))),
    vx_w.gone@ || vx_w.told@ + removals(vx_it0.rest()) == vx_t,
    vx_w.gone@ || vx_w.receipts@ == vx_o.receipts@ + receipts(update_acks@),
@loop_entry 0
  proof { if vx_it0.rest().len() > 0 { lemma_removals(vx_w.told@, vx_it0.rest()); lemma_numbers(vx_w.doomed@, vx_it0.rest()); } else { lemma_none(vx_w.told@, vx_w.doomed@, vx_it0.rest()); } }
@loop 1
  invariant
    *vx_w == (World { told: vx_w.told, receipts: vx_w.receipts, doomed: vx_w.doomed, gone: vx_w.gone, ..vx_o }), vx_o.gone@ ==> vx_w.gone@,
    vx_w.doomed@ == vx_o.doomed@.union(numbers(entries(current_buffers))),
    vx_w.gone@ || vx_w.told@ + additions(vx_it1.rest()) == vx_t + additions(new_buffers@),
    vx_w.gone@ || vx_w.receipts@ == vx_o.receipts@ + receipts(update_acks@),
@loop_entry 1
  proof { if vx_it1.rest().len() > 0 { lemma_additions(vx_w.told@, vx_it1.rest()); } else { lemma_none(vx_w.told@, vx_w.doomed@, vx_it1.rest()); } }
@fn bd-buffer/src/ring_buffer.rs Manager::resolve_stream_buffer_update
@extra_param vx_w: &mut World
@frule self.buffer_event_tx.send(__e) => self.buffer_event_tx.send(__e, vx_w)
@frule buffer::VolatileRingBuffer::new(__n, __s, __t) => VolatileRingBuffer::vx_new(__s)
@spec
  ensures
    *final(vx_w) == (World { told: final(vx_w).told, receipts: final(vx_w).receipts, gone: final(vx_w).gone, ..*old(vx_w) }),
    old(vx_w).gone@ ==> final(vx_w).gone@,
    // nothing to do: it is there, or not, as wanted
    r is None <==> streaming == (stream_buffer is Some), r is None ==> *final(vx_w) == *old(vx_w),
    r is Some ==> ((r->0).1 is Some) == streaming,
    r is Some ==> final(vx_w).gone@ || final(vx_w).receipts@ == old(vx_w).receipts@.push((r->0).0.no@),
    r is Some ==> final(vx_w).gone@ || final(vx_w).told@ == old(vx_w).told@.push(match stream_buffer { Some(b) => BufferEvent::StreamBufferRemoved(b), None => BufferEvent::StreamBufferAdded((r->0).1->0) }),
@text
// ---- An update.
pub type Buffers = Map<Seq<char>, Held>;
pub open spec fn named(c: Seq<BufferConfig>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] c[j]).id@ == k }
pub open spec fn made(c: BufferConfig, b: Held, dir: Path) -> bool {
  &&& c.type_.k == Some(b.0)
  // only a trigger buffer loses old logs to new ones
  &&& b.1.overwrites@ == (b.0 is TRIGGER)
  &&& b.1.volatile@ == (match c.buffer_sizes.m { Some(s) => s.volatile_buffer_size_bytes, None => 10_000 })
  &&& b.1.file@ == (match c.buffer_sizes.m { Some(s) => s.non_volatile_buffer_size_bytes, None => 100_000 })
  &&& b.1.path@ == under(dir.p@, c.id@)
}
// What became of the buffers `o` by the first n entries of a configuration: `u` are those there are to be, `c` those
// not named yet, `n_` the new ones.
pub open spec fn sorted_out(o: Buffers, cfg: Seq<BufferConfig>, n: int, u: Buffers, c: Buffers, n_: Seq<(String, Held)>, dir: Path) -> bool {
  &&& forall|k: Seq<char>| #[trigger] u.dom().contains(k) <==> named(cfg, n, k)
  &&& forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> o.dom().contains(k) && !named(cfg, n, k)
  &&& forall|k: Seq<char>| #[trigger] c.dom().contains(k) ==> c[k] == o[k]
  // a buffer that stays is the same
  &&& forall|k: Seq<char>| #[trigger] u.dom().contains(k) && o.dom().contains(k) ==> u[k] == o[k]
  &&& forall|j: int| 0 <= j < n && !o.dom().contains((#[trigger] cfg[j]).id@) ==> made(cfg[j], u[cfg[j].id@], dir)
  // each new one once
  &&& distinct(n_)
  &&& forall|a: int| 0 <= a < n_.len() ==> !o.dom().contains((#[trigger] n_[a]).0@) && u.dom().contains(n_[a].0@) && u[n_[a].0@] == n_[a].1
  &&& forall|k: Seq<char>| #[trigger] u.dom().contains(k) && !o.dom().contains(k) ==> exists|a: int| 0 <= a < n_.len() && (#[trigger] n_[a]).0@ == k
}
pub open spec fn once(cfg: Seq<BufferConfig>) -> bool { forall|i: int, j: int| 0 <= i < cfg.len() && 0 <= j < cfg.len() && (#[trigger] cfg[i]).id@ == (#[trigger] cfg[j]).id@ ==> i == j }
pub proof fn lemma_step(o: Buffers, cfg: Seq<BufferConfig>, n: int, u: Buffers, c: Buffers, w: Seq<(String, Held)>, dir: Path, u2: Buffers, c2: Buffers, w2: Seq<(String, Held)>)
  requires
    once(cfg), 0 <= n < cfg.len(), sorted_out(o, cfg, n, u, c, w, dir), c2 == c.remove(cfg[n].id@),
    c.dom().contains(cfg[n].id@) ==> u2 == u.insert(cfg[n].id@, c[cfg[n].id@]) && w2 == w,
    !c.dom().contains(cfg[n].id@) ==> w2.len() == w.len() + 1 && w2 == w.push(w2.last()) && w2.last().0@ == cfg[n].id@ && made(cfg[n], w2.last().1, dir) && u2 == u.insert(cfg[n].id@, w2.last().1),
  ensures sorted_out(o, cfg, n + 1, u2, c2, w2, dir),
{
  let id = cfg[n].id@;
  assert(!named(cfg, n, id));
  assert forall|k: Seq<char>| named(cfg, n + 1, k) <==> named(cfg, n, k) || k == id by {
    if named(cfg, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] cfg[j]).id@ == k; assert(cfg[j].id@ == k); }
    if k == id { assert(cfg[n].id@ == k); }
  }
  assert(c.dom().contains(id) <==> o.dom().contains(id));
  assert forall|j: int| 0 <= j < n implies (#[trigger] cfg[j]).id@ != id by { }
  if !c.dom().contains(id) {
    assert forall|a: int| 0 <= a < w2.len() implies !o.dom().contains((#[trigger] w2[a]).0@) && u2.dom().contains(w2[a].0@) && u2[w2[a].0@] == w2[a].1 by {
      if a < w.len() { assert(w2[a] == w[a]); assert(u.dom().contains(w[a].0@)); assert(w[a].0@ != id); } else { assert(w2[a] == w2.last()); }
    }
    assert forall|k: Seq<char>| #[trigger] u2.dom().contains(k) && !o.dom().contains(k) implies exists|a: int| 0 <= a < w2.len() && (#[trigger] w2[a]).0@ == k by {
      if k == id { assert(w2[w2.len() - 1].0@ == k); } else { assert(u.dom().contains(k)); let a = choose|a: int| 0 <= a < w.len() && (#[trigger] w[a]).0@ == k; assert(w2[a].0@ == k); }
    }
    assert forall|i: int, j: int| 0 <= i < w2.len() && 0 <= j < w2.len() && (#[trigger] w2[i]).0@ == (#[trigger] w2[j]).0@ implies i == j by {
      if i < w.len() { assert(w2[i] == w[i]); assert(u.dom().contains(w[i].0@)); }
      if j < w.len() { assert(w2[j] == w[j]); assert(u.dom().contains(w[j].0@)); }
    }
  } else {
    assert forall|a: int| 0 <= a < w2.len() implies !o.dom().contains((#[trigger] w2[a]).0@) && u2.dom().contains(w2[a].0@) && u2[w2[a].0@] == w2[a].1 by { assert(w[a].0@ != id); }
    assert forall|k: Seq<char>| #[trigger] u2.dom().contains(k) && !o.dom().contains(k) implies exists|a: int| 0 <= a < w2.len() && (#[trigger] w2[a]).0@ == k by { assert(u.dom().contains(k)); }
  }
  assert forall|j: int| 0 <= j < n + 1 && !o.dom().contains((#[trigger] cfg[j]).id@) implies made(cfg[j], u2[cfg[j].id@], dir) by { }
}
pub proof fn lemma_join(a: Seq<int>, b: Seq<Ack>, t: Seq<int>)
  requires t == a + receipts(b),
  ensures forall|i: int| a.len() <= i < t.len() ==> receipts(b).to_set().contains(#[trigger] t[i]),
{
  assert forall|i: int| a.len() <= i < t.len() implies receipts(b).to_set().contains(#[trigger] t[i]) by { assert(receipts(b)[i - a.len()] == t[i]); }
}
pub open spec fn streams(o: Option<VolatileRingBuffer>, s: Option<VolatileRingBuffer>) -> Seq<BufferEvent> {
  match (o, s) {
    (Some(b), None) => seq![BufferEvent::StreamBufferRemoved(b)],
    (None, Some(b)) => seq![BufferEvent::StreamBufferAdded(b)],
    _ => Seq::empty(),
  }
}
pub open spec fn updated(o: Manager, f: Manager, cfg: Seq<BufferConfig>, ow: World, fw: World, gone: VMap<Held>, news: Seq<(String, Held)>) -> bool {
  &&& sorted_out(o.buffers.0@, cfg, cfg.len() as int, f.buffers.0@, gone@, news, o.buffer_directory)
  // only what is no longer configured is deleted, once nobody uses it
  &&& fw.doomed@ == ow.doomed@.union(numbers(entries(gone)))
  // all of it is told, each once, and received
  &&& fw.gone@ || fw.told@ == ow.told@ + removals(entries(gone)) + additions(news) + streams(o.buffers.1, f.buffers.1)
}
@fn bd-buffer/src/ring_buffer.rs Manager::update_from_config
@self &mut self
@extra_param vx_w: &mut World
@ret r: Result<Option<VolatileRingBuffer>, AnyErr>
@frule self.resolve_buffer_updates(__a, __b) => self.resolve_buffer_updates(__a, __b, vx_w)
@frule self.resolve_stream_buffer_update(__a, __b) => self.resolve_stream_buffer_update(__a, __b, vx_w)
@frule join_all(__a) => join_all(__a, vx_w)
@before join_all(__a)
  let ghost vx_acks = update_acks@;
  proof {
    if vx_acks.len() > vx_p.len() { lemma_receipt(vx_r, vx_p, vx_acks.last()); assert(vx_p.push(vx_acks.last()) =~= vx_acks); }
    let t = old(vx_w).told@ + removals(entries(vx_g)) + additions(vx_a);
    assert(t + streams(old(self).buffers.1, updated_stream_buffer) =~= match (old(self).buffers.1, updated_stream_buffer) {
      (Some(b), None) => t.push(BufferEvent::StreamBufferRemoved(b)), (None, Some(b)) => t.push(BufferEvent::StreamBufferAdded(b)), _ => t });
  }
@frule bd_client_common::error::required_proto_enum(__t, __d) => vx_kind(__t)
@frule buffer.type_ == __k.into() => vx_is_trigger(buffer.type_)
@frule *self.buffers = __x => self.buffers = __x
@frule RingBuffer::new(__a, __b, __c, __d, __e, __f, __g, __h, __i, __j, __k) => RingBuffer::vx_new(__b, __c, __d, __e)
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::spinoff_prover]
@spec
  requires once(config.buffer_config@),
  ensures
    // a configuration that cannot be applied changes nothing
    r is Err ==> *final(self) == *old(self) && *final(vx_w) == *old(vx_w),
    r is Ok ==> exists|gone: VMap<Held>, news: Seq<(String, Held)>| #[trigger] updated(*old(self), *final(self), config.buffer_config@, *old(vx_w), *final(vx_w), gone, news),
    r is Ok ==> final(self).buffers.1 == r->Ok_0 && (r->Ok_0 is Some) == streaming && (streaming && old(self).buffers.1 is Some ==> r->Ok_0 == old(self).buffers.1),
    r is Ok ==> *final(self) == (Manager { buffers: final(self).buffers, ..*old(self) }),
    // and it is not over before all of it was acknowledged
    r is Ok && !final(vx_w).gone@ ==> forall|i: int| old(vx_w).receipts@.len() <= i < final(vx_w).receipts@.len() ==> final(vx_w).acked@.contains(#[trigger] final(vx_w).receipts@[i]),
@loop 0
  invariant
    vx_it0.rest() == refs(config.buffer_config@).skip(config.buffer_config@.len() - vx_it0.rest().len()), vx_it0.rest().len() <= config.buffer_config@.len(),
    sorted_out(self.buffers.0@, config.buffer_config@, config.buffer_config@.len() - vx_it0.rest().len(), updated_buffers@, current_buffers@, new_buffers@, self.buffer_directory),
    *self == *old(self), *vx_w == *old(vx_w), stream_buffer == self.buffers.1,
    once(config.buffer_config@),
  ensures vx_it0.rest().len() == 0,
@loop_entry 0
  let ghost vx_u = updated_buffers@; let ghost vx_c = current_buffers@; let ghost vx_n = new_buffers@; let ghost vx_k = config.buffer_config@.len() - vx_it0.rest().len();
  proof { if vx_it0.rest().len() > 0 { assert(vx_it0.rest()[0] == refs(config.buffer_config@)[vx_k]); } }
@loop_exit 0
  proof {
    assert(vx_c.remove(config.buffer_config@[vx_k].id@) =~= current_buffers@);
    lemma_step(self.buffers.0@, config.buffer_config@, vx_k, vx_u, vx_c, vx_n, self.buffer_directory, updated_buffers@, current_buffers@, new_buffers@);
  }
@before self.resolve_buffer_updates(__a, __b)
  let ghost vx_g = current_buffers; let ghost vx_a = new_buffers@; let ghost vx_r = vx_w.receipts@;
@after self.resolve_buffer_updates(__a, __b)
  let ghost vx_p = update_acks@;
@before Ok(updated_stream_buffer)
  proof {
    if !vx_w.gone@ { lemma_join(vx_r, vx_acks, vx_w.receipts@); }
    assert(updated(*old(self), *self, config.buffer_config@, *old(vx_w), *vx_w, vx_g, vx_a));
  }
// ---- Flush requests.
@text
pub struct Done {}
#[verifier::external_body]
pub struct FlushRx {}
// Nothing that was asked to be flushed and is there is left.
pub open spec fn flushed_all(w: World, names: Seq<String>, b: Buffers, s: Option<VolatileRingBuffer>) -> bool {
  &&& names.len() > 0 ==> forall|i: int| 0 <= i < names.len() && b.dom().contains((#[trigger] names[i])@) ==> w.flushed@.contains(b[names[i]@].1.no@)
  &&& names.len() == 0 ==> (forall|k: Seq<char>| #[trigger] b.dom().contains(k) ==> w.flushed@.contains(b[k].1.no@)) && (s is Some ==> w.flushed@.contains(s->0.no@))
}
impl FlushRx {
  // The next request is taken once the one before is dealt with.
  #[verifier::external_body]
  pub fn recv(&mut self, m: &Manager, w: &mut World) -> (r: Option<BuffersWithAck>)
    requires old(w).asked@ ==> old(w).answered@ && flushed_all(*old(w), old(w).names@, m.buffers.0@, m.buffers.1),
    ensures
      r is None ==> *final(w) == (World { closed: final(w).closed, ..*old(w) }) && final(w).closed@,
      r is Some ==> *final(w) == (World { names: final(w).names, asked: final(w).asked, answered: final(w).answered, flushed: final(w).flushed, ..*old(w) }) && final(w).names@ == r->0.buffers@ && final(w).asked@
        && final(w).flushed@ == Set::<int>::empty() && final(w).answered@ == (r->0.completed_tx is None),
  { unimplemented!() }
}
impl Done {
  #[verifier::external_body]
  pub fn send(self, x: (), m: &Manager, w: &mut World)
    requires flushed_all(*old(w), old(w).names@, m.buffers.0@, m.buffers.1),
    ensures *final(w) == (World { answered: final(w).answered, ..*old(w) }), final(w).answered@,
  { unimplemented!() }
}
@type bd-buffer/src/ring_buffer.rs BuffersWithAck
@fn bd-buffer/src/ring_buffer.rs BuffersWithAck::new
@spec
  ensures r.buffers == buffers, r.completed_tx == completed_tx,
@fn bd-buffer/src/ring_buffer.rs BuffersWithAck::new_all_buffers
@spec
  ensures r.buffers@.len() == 0, r.completed_tx == completed_tx,
@fn bd-buffer/src/ring_buffer.rs Manager::process_flushes
@extra_param vx_w: &mut World
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@frule flush_buffer_rx.recv() => flush_buffer_rx.recv(self, vx_w)
@frule completed_tx.send(__x) => completed_tx.send(__x, self, vx_w)
@frule buffer.flush() => buffer.flush(vx_w)
@frule stream_buffer.flush() => stream_buffer.flush(vx_w)
@frule vx_cloned(__m.keys()).collect() => vx_keys(&__m)
@spec
  requires !old(vx_w).asked@, !old(vx_w).closed@,
  ensures
    // it serves every request, until there can be none any more
    r is Ok && final(vx_w).closed@,
    final(vx_w).asked@ ==> final(vx_w).answered@ && flushed_all(*final(vx_w), final(vx_w).names@, self.buffers.0@, self.buffers.1),
@loop 0
  invariant
    vx_w.asked@ ==> vx_w.answered@ && flushed_all(*vx_w, vx_w.names@, self.buffers.0@, self.buffers.1),
@after vx_into_iter(__b)
  let ghost vx_all = vx_it0.rest(); let ghost vx_o = *vx_w;
@loop 1
  invariant
    *vx_w == (World { flushed: vx_w.flushed, ..vx_o }),
    vx_it0.rest() == vx_all.skip(vx_all.len() - vx_it0.rest().len()), vx_it0.rest().len() <= vx_all.len(),
    forall|i: int| 0 <= i < vx_all.len() - vx_it0.rest().len() && self.buffers.0@.dom().contains((#[trigger] vx_all[i])@) ==> vx_w.flushed@.contains(self.buffers.0@[vx_all[i]@].1.no@),
