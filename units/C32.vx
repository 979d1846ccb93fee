@include prelude.inc
@include iter.inc
@include set.inc
@include select.inc
@type_rule String => Id
@type_rule &str => Id
@type_rule &'a str => Id
@type_rule Cow<'static, str> => Id
@type_rule Cow<'a, str> => Id
@type_rule Cow<'_, str> => Id
@text
// An identifier (of an action, a buffer, a session), by which text it is.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Id { pub n: u64 }
impl Id {
  pub fn vx_same(&self) -> (r: Self) ensures r == *self, { *self }
}
@rule __x.as_str() => __x
@rule __x.as_ref() => __x
@rule __x.to_string() => __x.vx_same()
@text
// Statistics: nothing depends on them.
#[verifier::external_body]
pub struct Counter {}
impl Counter {
  #[verifier::external_body]
  pub fn inc(&self) { }
  #[verifier::external_body]
  pub fn inc_by(&self, n: u64) { }
}
@text
// ---- Channels. What a sender put in, in order (`sent`); a refused or failed send puts nothing in.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Tx<T> { t: Option<T> }
pub struct SendError { pub n: u8 }
impl<T> Tx<T> {
  pub uninterp spec fn sent(&self) -> Seq<T>;
  // what was refused
  pub uninterp spec fn lost(&self) -> Seq<T>;
  // nobody receives any more; nobody does, or there is no room
  pub uninterp spec fn broken(&self) -> bool;
  pub uninterp spec fn refuses(&self) -> bool;
  #[verifier::external_body]
  pub fn send(&mut self, m: T) -> (r: Result<(), SendError>)
    ensures r is Ok ==> final(self).sent() == old(self).sent().push(m), r is Err ==> final(self).sent() == old(self).sent() && old(self).broken(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, m: T) -> (r: Result<(), SendError>)
    ensures r is Ok ==> final(self).sent() == old(self).sent().push(m) && final(self).lost() == old(self).lost(), r is Err ==> final(self).sent() == old(self).sent() && final(self).lost() == old(self).lost().push(m) && old(self).refuses(),
  { unimplemented!() }
  // on a shared handle: what is put in is told by the answers to it
  #[verifier::external_body]
  pub fn post(&self, m: T) -> (r: Result<(), SendError>) { unimplemented!() }
}
@type_rule Receiver<__T> => Inbox<__T>
@type_rule Sender<__T> => Tx<__T>
@text
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Inbox<T> { t: Option<T> }
impl<T> Inbox<T> {
  // what was taken out, in order
  pub uninterp spec fn taken(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn recv(&mut self) -> (r: Option<T>)
    ensures r is None ==> final(self).taken() == old(self).taken(), r is Some ==> final(self).taken() == old(self).taken().push(r->Some_0),
  { unimplemented!() }
}
// ---- bd-api: a request for a decision, and who answers it. `answered(q, d)`: the server answered request q with d.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum IntentDecision { UploadImmediately, Drop }
pub struct LogsUploadIntentResponse { pub decision: IntentDecision }
pub struct WorkflowActionUpload { pub workflow_action_ids: Vec<Id> }
pub enum Intent_type { WorkflowActionUpload(WorkflowActionUpload), Other }
pub struct LogUploadIntentRequest { pub log_count: u32, pub byte_count: u32, pub buffer_id: Id, pub intent_uuid: Id, pub intent_type: Option<Intent_type> }
impl LogUploadIntentRequest {
  #[verifier::external_body]
  pub fn vx_same(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
pub uninterp spec fn answered(q: LogUploadIntentRequest, d: IntentDecision) -> bool;
pub struct TrackedLogUploadIntent { pub uuid: Id, pub q: LogUploadIntentRequest }
pub struct Answer { pub q: Ghost<LogUploadIntentRequest> }
impl Answer {
  #[verifier::external_body]
  pub fn wait(self) -> (r: Result<LogsUploadIntentResponse, SendError>)
    ensures r is Ok ==> answered(self.q@, r->Ok_0.decision),
  { unimplemented!() }
}
impl TrackedLogUploadIntent {
  #[verifier::external_body]
  pub fn new(uuid: Id, q: LogUploadIntentRequest) -> (r: (Self, Answer)) ensures r.0.uuid == uuid, r.0.q == q, r.1.q@ == q, { unimplemented!() }
  #[verifier::external_body]
  pub fn upload_uuid() -> (r: Id) { unimplemented!() }
}
pub enum DataUpload { LogsUploadIntentRequest(TrackedLogUploadIntent) }
#[verifier::external_body]
pub fn vx_no_buffer() -> (r: Id) { unimplemented!() }
pub open spec fn asks_for(q: LogUploadIntentRequest, a: PendingFlushBuffersAction) -> bool { match q.intent_type { Some(Intent_type::WorkflowActionUpload(w)) => w.workflow_action_ids@ =~= seq![a.id], _ => false } }
// the server decided so on this action
pub open spec fn decided(a: PendingFlushBuffersAction, d: IntentDecision) -> bool { exists|q: LogUploadIntentRequest| asks_for(q, a) && #[trigger] answered(q, d) }
pub open spec fn named_by(b: bool) -> IntentDecision { if b { IntentDecision::UploadImmediately } else { IntentDecision::Drop } }
@type bd-workflows/src/actions_flush_buffers.rs ResolverStats
@type bd-workflows/src/actions_flush_buffers.rs NegotiatorStats
@type bd-workflows/src/config.rs ActionFlushBuffers
@field streaming: Option<WantedStreaming>
@derive Clone
@type bd-workflows/src/config.rs Streaming
@as WantedStreaming
@derive Clone
@type bd-workflows/src/actions_flush_buffers.rs Streaming
@derive Clone
@type bd-workflows/src/actions_flush_buffers.rs PendingFlushBuffersAction
@derive Clone
@type bd-workflows/src/actions_flush_buffers.rs StreamingBuffersAction
@derive Clone
@type bd-workflows/src/actions_flush_buffers.rs Resolver
@type bd-workflows/src/actions_flush_buffers.rs ResolverConfig
@type bd-workflows/src/actions_flush_buffers.rs FlushBuffersActionsProcessingResult
@nogenerics
@type bd-workflows/src/actions_flush_buffers.rs StreamingBuffersActionsProcessingResult
@nogenerics
@text
// ---- What a flush action becomes, given which buffers there are: the buffers to flush (all, if it names none), and
// where to stream to (the first there is, if it names none), if anywhere.
pub open spec fn chosen(named: Set<Id>, there: Set<Id>, default: Set<Id>) -> Set<Id> { if named == Set::<Id>::empty() { default } else { named.intersect(there) } }
pub open spec fn first_of(s: VSet<Id>) -> Set<Id> { if s@ == Set::<Id>::empty() { Set::empty() } else { Set::<Id>::empty().insert(s.order()[0]) } }
pub open spec fn stream_of(w: Option<WantedStreaming>, cont: VSet<Id>) -> Option<Streaming> {
  match w {
    None => None,
    Some(w) => {
      let to = chosen(w.destination_continuous_buffer_ids@, cont@, first_of(cont));
      if to == Set::<Id>::empty() { None } else { Some(Streaming { destination_continuous_buffer_ids: VSet::mk(to), max_logs_count: w.max_logs_count }) }
    },
  }
}
pub open spec fn pend_of(a: ActionFlushBuffers, session: Id, trig: VSet<Id>, cont: VSet<Id>) -> Option<PendingFlushBuffersAction> {
  let flush = chosen(a.buffer_ids@, trig@, trig@);
  if flush == Set::<Id>::empty() { None }
  else { Some(PendingFlushBuffersAction { id: a.id, session_id: session, trigger_buffer_ids: VSet::mk(flush), streaming: stream_of(a.streaming, cont) }) }
}
// its streaming, once approved
pub open spec fn streaming_of(a: PendingFlushBuffersAction, cont: VSet<Id>) -> Option<StreamingBuffersAction> {
  match a.streaming {
    None => None,
    Some(s) => if s.destination_continuous_buffer_ids@.disjoint(cont@) { None } else {
      Some(StreamingBuffersAction { id: a.id, session_id: a.session_id, source_trigger_buffer_ids: a.trigger_buffer_ids,
        destination_continuous_buffer_ids: s.destination_continuous_buffer_ids, max_logs_count: s.max_logs_count, logs_count: 0 })
    },
  }
}
pub open spec fn keeping(l: Seq<Id>, n: int, keep: Set<Id>, o: Set<Id>) -> bool {
  &&& 0 <= n <= l.len()
  &&& forall|x: Id| #[trigger] o.contains(x) <==> keep.contains(x) && l.take(n).contains(x)
}
pub proof fn lemma_keeping(l: Seq<Id>, n: int, keep: Set<Id>, o: Set<Id>)
  requires keeping(l, n, keep, o),
  ensures
    n < l.len() && keep.contains(l[n]) ==> keeping(l, n + 1, keep, o.insert(l[n])),
    n < l.len() && !keep.contains(l[n]) ==> keeping(l, n + 1, keep, o),
    n == l.len() ==> (forall|x: Id| #[trigger] o.contains(x) <==> keep.contains(x) && l.contains(x)),
{
  if n < l.len() {
    assert(l.take(n + 1) =~= l.take(n).push(l[n]));
    assert forall|x: Id| #[trigger] l.take(n + 1).contains(x) <==> l.take(n).contains(x) || x == l[n] by {
      let (t, u) = (l.take(n), l.take(n + 1));
      if u.contains(x) { let i = u.index_of(x); assert(u[i] == x); if i < n { assert(t[i] == x); } }
      if t.contains(x) { let i = t.index_of(x); assert(u[i] == x); }
      assert(u[n] == l[n]);
    }
  } else { assert(l.take(n) =~= l); }
}
@fn bd-workflows/src/actions_flush_buffers.rs PendingFlushBuffersAction::new
@ret r: Option<PendingFlushBuffersAction>
@spec
  ensures r == pend_of(action, session_id, *trigger_buffer_ids, *continuous_buffer_ids),
@frule __s.iter().filter(|id| __c).cloned().collect() => vxraw!("{ let mut vx_o: VSet<Id> = VSet::new(); let mut vx_i = vx_into_iter(__s); let ghost l = __s.order(); let ghost mut n: int = 0; proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break l == __s.order(), vx_i.rest() =~= refs(l.skip(n)), keeping(l, n, streaming_proto.destination_continuous_buffer_ids@, vx_o@), ensures forall|x: Id| #[trigger] vx_o@.contains(x) <==> streaming_proto.destination_continuous_buffer_ids@.contains(x) && __s@.contains(x), decreases vx_i.rest().len(), { proof { lemma_keeping(l, n, streaming_proto.destination_continuous_buffer_ids@, vx_o@); } match vx_i.next() { Some(id) => { if __c { vx_o.insert(*id); } proof { n = n + 1; } } None => { proof { assert(n == l.len()); assert(l.take(n) =~= l); } break } } } proof { assert(vx_o@ =~= chosen(streaming_proto.destination_continuous_buffer_ids@, __s@, first_of(*__s))); } vx_o }")
@frule __s.into_iter().filter(|id| __c).map(Into::into).collect() => vxraw!("{ let vx_s = __s; let ghost vx_s0 = vx_s; let mut vx_o: VSet<Id> = VSet::new(); let ghost l = vx_s.order(); let ghost k = trigger_buffer_ids@; let mut vx_i = vx_into_iter(vx_s); let ghost mut n: int = 0; proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break l == vx_s0.order(), k == trigger_buffer_ids@, vx_i.rest() =~= l.skip(n), keeping(l, n, k, vx_o@), ensures forall|x: Id| #[trigger] vx_o@.contains(x) <==> k.contains(x) && vx_s0@.contains(x), decreases vx_i.rest().len(), { proof { lemma_keeping(l, n, k, vx_o@); } match vx_i.next() { Some(id) => { let vx_k = { let id = &id; __c }; if vx_k { vx_o.insert(id); } proof { n = n + 1; } } None => { proof { assert(n == l.len()); assert(l.take(n) =~= l); } break } } } proof { assert(vx_o@ =~= chosen(action.buffer_ids@, k, k)); } vx_o }")
@fn bd-workflows/src/actions_flush_buffers.rs StreamingBuffersAction::new
@spec
  ensures r == streaming_of(action, *continuous_buffer_ids),
@fn bd-workflows/src/actions_flush_buffers.rs StreamingBuffersAction::meets_termination_criteria
@spec
  ensures r == used_up(*self),
@text
pub open spec fn used_up(a: StreamingBuffersAction) -> bool { a.max_logs_count is Some && a.logs_count >= a.max_logs_count->Some_0 }
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::update
@self &mut self
@spec
  ensures final(self).trigger_buffer_ids == config.trigger_buffer_ids, final(self).continuous_buffer_ids == config.continuous_buffer_ids,
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::make_streaming_action
@spec
  ensures r == streaming_of(pending_action, self.continuous_buffer_ids),
@text
// Is there one with this identifier?
pub open spec fn streams(l: Seq<StreamingBuffersAction>, k: Id) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).id == k }
pub trait HasId {
  spec fn has(&self, k: Id) -> bool;
  fn vx_has(&self, k: Id) -> (r: bool)
    ensures r == self.has(k);
}
impl HasId for VSet<PendingFlushBuffersAction> {
  open spec fn has(&self, k: Id) -> bool { exists|p: PendingFlushBuffersAction| #[trigger] self@.contains(p) && p.id == k }
  #[verifier::external_body]
  fn vx_has(&self, k: Id) -> (r: bool) { unimplemented!() }
}
impl HasId for [StreamingBuffersAction] {
  open spec fn has(&self, k: Id) -> bool { streams(self@, k) }
  fn vx_has(&self, k: Id) -> (r: bool) {
    let mut i: usize = 0;
    while i < self.len()
      invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).id != k,
      decreases self@.len() - i,
    { if self[i].id == k { return true; } i = i + 1; }
    false
  }
}
// What a triggered action asks the server for: nothing while one with its identifier is undecided or streaming.
pub open spec fn asks(a: ActionFlushBuffers, session: Id, trig: VSet<Id>, cont: VSet<Id>, pending: VSet<PendingFlushBuffersAction>, streaming: Seq<StreamingBuffersAction>, p: PendingFlushBuffersAction) -> bool {
  pend_of(a, session, trig, cont) == Some(p) && !pending.has(p.id) && !streams(streaming, p.id)
}
pub open spec fn flushes(a: ActionFlushBuffers, session: Id, trig: VSet<Id>, cont: VSet<Id>, b: Id) -> bool {
  pend_of(a, session, trig, cont) is Some && pend_of(a, session, trig, cont)->Some_0.trigger_buffer_ids@.contains(b)
}
pub open spec fn named(a: ActionFlushBuffers, k: Id) -> bool { a.id == k }
pub ghost struct Cx { pub session: Id, pub trig: VSet<Id>, pub cont: VSet<Id> }
pub open spec fn asked(l: Seq<&ActionFlushBuffers>, x: Cx, pending: VSet<PendingFlushBuffersAction>, streaming: Seq<StreamingBuffersAction>) -> Set<PendingFlushBuffersAction>
  decreases l.len(),
{
  if l.len() == 0 { Set::empty() } else {
    let r = asked(l.drop_last(), x, pending, streaming);
    match pend_of(*l.last(), x.session, x.trig, x.cont) { Some(p) => if !pending.has(p.id) && !streams(streaming, p.id) { r.insert(p) } else { r }, None => r }
  }
}
pub open spec fn names(l: Seq<&ActionFlushBuffers>) -> Set<Id>
  decreases l.len(),
{ if l.len() == 0 { Set::empty() } else { names(l.drop_last()).insert(l.last().id) } }
pub open spec fn flushed(l: Seq<&ActionFlushBuffers>, x: Cx) -> Set<Id>
  decreases l.len(),
{ if l.len() == 0 { Set::empty() } else { let r = flushed(l.drop_last(), x); match pend_of(*l.last(), x.session, x.trig, x.cont) { Some(p) => r.union(p.trigger_buffer_ids@), None => r } } }
pub proof fn lemma_in<T>(l: Seq<T>, a: T)
  ensures l.len() > 0 ==> (l.contains(a) <==> l.drop_last().contains(a) || a == l.last()),
{
  if l.len() > 0 {
    let k = l.drop_last();
    assert(l =~= k.push(l.last()));
    if l.contains(a) { let i = l.index_of(a); assert(l[i] == a); if i < k.len() { assert(k[i] == a); } }
    if k.contains(a) { let i = k.index_of(a); assert(l[i] == a); }
    assert(l[l.len() - 1] == l.last());
  }
}
pub open spec fn some_asks(l: Seq<&ActionFlushBuffers>, x: Cx, pending: VSet<PendingFlushBuffersAction>, streaming: Seq<StreamingBuffersAction>, p: PendingFlushBuffersAction) -> bool {
  exists|a: &ActionFlushBuffers| l.contains(a) && #[trigger] asks(*a, x.session, x.trig, x.cont, pending, streaming, p)
}
pub open spec fn some_named(l: Seq<&ActionFlushBuffers>, k: Id) -> bool { exists|a: &ActionFlushBuffers| l.contains(a) && #[trigger] named(*a, k) }
pub open spec fn some_flushes(l: Seq<&ActionFlushBuffers>, x: Cx, b: Id) -> bool { exists|a: &ActionFlushBuffers| l.contains(a) && #[trigger] flushes(*a, x.session, x.trig, x.cont, b) }
pub proof fn lemma_asked(l: Seq<&ActionFlushBuffers>, x: Cx, pending: VSet<PendingFlushBuffersAction>, streaming: Seq<StreamingBuffersAction>)
  ensures
    forall|p: PendingFlushBuffersAction| #[trigger] asked(l, x, pending, streaming).contains(p) <==> some_asks(l, x, pending, streaming, p),
    forall|k: Id| #[trigger] names(l).contains(k) <==> some_named(l, k),
    forall|b: Id| #[trigger] flushed(l, x).contains(b) <==> some_flushes(l, x, b),
  decreases l.len(),
{
  if l.len() > 0 {
    let k = l.drop_last();
    let z = l.last();
    lemma_asked(k, x, pending, streaming);
    assert forall|a: &ActionFlushBuffers| #[trigger] l.contains(a) <==> k.contains(a) || a == z by { lemma_in(l, a); }
    assert forall|p: PendingFlushBuffersAction| some_asks(l, x, pending, streaming, p) <==> some_asks(k, x, pending, streaming, p) || #[trigger] asks(*z, x.session, x.trig, x.cont, pending, streaming, p) by {
      if some_asks(k, x, pending, streaming, p) { let a = choose|a: &ActionFlushBuffers| k.contains(a) && #[trigger] asks(*a, x.session, x.trig, x.cont, pending, streaming, p); assert(l.contains(a)); }
      assert(l.contains(z));
    }
    assert forall|p: PendingFlushBuffersAction| #[trigger] asked(l, x, pending, streaming).contains(p) <==> some_asks(l, x, pending, streaming, p) by {
      assert(asked(k, x, pending, streaming).contains(p) <==> some_asks(k, x, pending, streaming, p));
      assert(asked(l, x, pending, streaming).contains(p) <==> asked(k, x, pending, streaming).contains(p) || asks(*z, x.session, x.trig, x.cont, pending, streaming, p));
    }
    assert forall|n: Id| #[trigger] names(l).contains(n) <==> some_named(l, n) by {
      assert(names(k).contains(n) <==> some_named(k, n));
      assert(names(l) == names(k).insert(z.id));
      assert(named(*z, n) <==> z.id == n);
      assert(names(l).contains(n) <==> some_named(k, n) || named(*z, n));
      if some_named(k, n) { let a = choose|a: &ActionFlushBuffers| k.contains(a) && #[trigger] named(*a, n); assert(l.contains(a)); }
      assert(l.contains(z));
    }
    assert forall|b: Id| #[trigger] flushed(l, x).contains(b) <==> some_flushes(l, x, b) by {
      assert(flushed(k, x).contains(b) <==> some_flushes(k, x, b));
      assert(flushes(*z, x.session, x.trig, x.cont, b) || !flushes(*z, x.session, x.trig, x.cont, b));
      assert(flushed(l, x).contains(b) <==> some_flushes(k, x, b) || flushes(*z, x.session, x.trig, x.cont, b));
      if some_flushes(k, x, b) { let a = choose|a: &ActionFlushBuffers| k.contains(a) && #[trigger] flushes(*a, x.session, x.trig, x.cont, b); assert(l.contains(a)); }
      assert(l.contains(z));
    }
  }
}
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::process_flush_buffer_actions
@generics <'a>
@ret r: FlushBuffersActionsProcessingResult
@spec
  ensures ({
    let (l, x) = (actions.order(), Cx { session: session_id, trig: self.trigger_buffer_ids, cont: self.continuous_buffer_ids });
    &&& lists(l, actions@)
    &&& forall|p: PendingFlushBuffersAction| #[trigger] r.new_pending_actions_to_add@.contains(p) <==> some_asks(l, x, *pending_actions, streaming_actions@, p)
    &&& forall|k: Id| #[trigger] r.triggered_flush_buffers_action_ids@.contains(k) <==> some_named(l, k)
    &&& forall|b: Id| #[trigger] r.triggered_flushes_buffer_ids@.contains(b) <==> some_flushes(l, x, b)
  }),
@frule __x.iter().any(|a| a.id == action.id) => __x.vx_has(action.id)
@entry
  let ghost l = actions.order();
  let ghost mut n: int = 0;
  let ghost x = Cx { session: session_id, trig: self.trigger_buffer_ids, cont: self.continuous_buffer_ids };
  assert(lists(l, actions@));
  assert(l.take(0) =~= Seq::empty());
@loop 0
  invariant_except_break
    0 <= n <= l.len(), vx_it0.rest() =~= l.skip(n),
    x == (Cx { session: session_id, trig: self.trigger_buffer_ids, cont: self.continuous_buffer_ids }),
    created_actions@ =~= asked(l.take(n), x, *pending_actions, streaming_actions@),
    triggered_flush_buffers_action_ids@ =~= names(l.take(n)),
    triggered_flushes_buffer_ids@ =~= flushed(l.take(n), x),
  ensures
    forall|p: PendingFlushBuffersAction| #[trigger] created_actions@.contains(p) <==> some_asks(l, x, *pending_actions, streaming_actions@, p),
    forall|k: Id| #[trigger] triggered_flush_buffers_action_ids@.contains(k) <==> some_named(l, k),
    forall|b: Id| #[trigger] triggered_flushes_buffer_ids@.contains(b) <==> some_flushes(l, x, b),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]); n = n + 1; }
    else { assert(l.take(n) =~= l); lemma_asked(l, x, *pending_actions, streaming_actions@); }
  }
@text
// ---- Streaming. An action ends with its session or its limit, and not before its buffers have been flushed.
pub open spec fn ended(e: (StreamingBuffersAction, bool), session: Id) -> bool { (used_up(e.0) || e.0.session_id != session) && e.1 }
pub open spec fn going(l: Seq<(StreamingBuffersAction, bool)>, session: Id) -> Seq<(StreamingBuffersAction, bool)>
  decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { let r = going(l.drop_last(), session); if ended(l.last(), session) { r } else { r.push(l.last()) } } }
pub proof fn lemma_going(l: Seq<(StreamingBuffersAction, bool)>, session: Id, n: int)
  requires 0 <= n <= l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0.logs_count < u64::MAX,
  ensures
    going(l.take(n), session).len() <= n,
    forall|i: int| 0 <= i < going(l.take(n), session).len() ==> (#[trigger] going(l.take(n), session)[i]).0.logs_count < u64::MAX,
    n < l.len() ==> going(l.take(n + 1), session) == (if ended(l[n], session) { going(l.take(n), session) } else { going(l.take(n), session).push(l[n]) }),
  decreases n,
{
  if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]); }
  if n > 0 { lemma_going(l, session, n - 1); }
}
// does it redirect a log meant for these buffers?
pub open spec fn redirects(a: StreamingBuffersAction, dest: Set<Id>) -> bool { a.source_trigger_buffer_ids@.intersect(dest) != Set::<Id>::empty() }
pub open spec fn counted(a: StreamingBuffersAction, dest: Set<Id>) -> StreamingBuffersAction {
  if redirects(a, dest) { StreamingBuffersAction { logs_count: (a.logs_count + 1) as u64, ..a } } else { a }
}
pub open spec fn any_redirects(l: Seq<(StreamingBuffersAction, bool)>, dest: Set<Id>) -> bool { exists|i: int| 0 <= i < l.len() && redirects((#[trigger] l[i]).0, dest) }
// the buffers it goes to instead, and the ones it goes to instead of
pub open spec fn redirected_to(l: Seq<(StreamingBuffersAction, bool)>, dest: Set<Id>, x: Id) -> bool { exists|i: int| 0 <= i < l.len() && redirects((#[trigger] l[i]).0, dest) && l[i].0.destination_continuous_buffer_ids@.contains(x) }
pub open spec fn redirected_from(l: Seq<(StreamingBuffersAction, bool)>, x: Id) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.source_trigger_buffer_ids@.contains(x) }
pub proof fn lemma_redirect(l: Seq<(StreamingBuffersAction, bool)>, dest: Set<Id>, n: int)
  requires 0 <= n < l.len(),
  ensures
    any_redirects(l.take(n + 1), dest) == (any_redirects(l.take(n), dest) || redirects(l[n].0, dest)),
    forall|x: Id| #[trigger] redirected_to(l.take(n + 1), dest, x) == (redirected_to(l.take(n), dest, x) || (redirects(l[n].0, dest) && l[n].0.destination_continuous_buffer_ids@.contains(x))),
    forall|x: Id| #[trigger] redirected_from(l.take(n + 1), x) == (redirected_from(l.take(n), x) || l[n].0.source_trigger_buffer_ids@.contains(x)),
{
  let (t, u) = (l.take(n), l.take(n + 1));
  assert(u =~= t.push(l[n]));
  assert(u[n] == l[n]);
  assert forall|i: int| 0 <= i < n implies t[i] == #[trigger] u[i] by {}
  if any_redirects(t, dest) { let i = choose|i: int| 0 <= i < t.len() && redirects((#[trigger] t[i]).0, dest); assert(redirects(u[i].0, dest)); }
  assert forall|x: Id| #[trigger] redirected_to(u, dest, x) == (redirected_to(t, dest, x) || (redirects(l[n].0, dest) && l[n].0.destination_continuous_buffer_ids@.contains(x))) by {
    if redirected_to(t, dest, x) { let i = choose|i: int| 0 <= i < t.len() && redirects((#[trigger] t[i]).0, dest) && t[i].0.destination_continuous_buffer_ids@.contains(x); assert(redirects(u[i].0, dest)); }
  }
  assert forall|x: Id| #[trigger] redirected_from(u, x) == (redirected_from(t, x) || l[n].0.source_trigger_buffer_ids@.contains(x)) by {
    if redirected_from(t, x) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.source_trigger_buffer_ids@.contains(x); assert(u[i].0.source_trigger_buffer_ids@.contains(x)); }
  }
}
// Where a log goes: with no buffer taken over, where it was meant to; buffers which do not exist are left out.
pub open spec fn goes_to(l: Seq<(StreamingBuffersAction, bool)>, dest: Set<Id>, trig: Set<Id>, cont: Set<Id>, x: Id) -> bool {
  redirected_to(l, dest, x) || (dest.contains(x) && (trig.contains(x) || cont.contains(x)) && !redirected_from(l, x))
}
pub open spec fn firsts(l: Seq<(StreamingBuffersAction, bool)>) -> Seq<StreamingBuffersAction> { Seq::new(l.len(), |i: int| l[i].0) }
pub open spec fn all_counted(l: Seq<(StreamingBuffersAction, bool)>, dest: Set<Id>) -> Seq<StreamingBuffersAction> { Seq::new(l.len(), |i: int| counted(l[i].0, dest)) }
pub fn vx_firsts(v: Vec<(StreamingBuffersAction, bool)>) -> (r: Vec<StreamingBuffersAction>)
  ensures r@ == firsts(v@),
{
  let mut v = v;
  let mut r: Vec<StreamingBuffersAction> = Vec::new();
  let ghost v0 = v@;
  let mut it = vx_into_iter(v);
  let ghost mut n: int = 0;
  loop
    invariant_except_break 0 <= n <= v0.len(), it.rest() =~= v0.skip(n), r@ =~= firsts(v0.take(n)),
    ensures r@ =~= firsts(v0),
    decreases it.rest().len(),
  {
    proof { if n < v0.len() { assert(v0.take(n + 1) =~= v0.take(n).push(v0[n])); } else { assert(v0.take(n) =~= v0); } }
    match it.next() { Some(e) => { r.push(e.0); proof { n = n + 1; } } None => break }
  }
  r
}
pub fn vx_either(a: bool, b: bool) -> (r: bool) ensures r == (a || b), { a || b }
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::process_streaming_actions
@generics <'a>
@ret r: StreamingBuffersActionsProcessingResult
@spec
  requires forall|i: int| 0 <= i < streaming_actions@.len() ==> (#[trigger] streaming_actions@[i]).0.logs_count < u64::MAX,
  ensures ({
    let (l, dest) = (going(streaming_actions@, session_id), log_destination_buffer_ids@);
    &&& r.updated_streaming_actions@ == all_counted(l, dest)
    &&& r.has_changed_streaming_actions == (l.len() < streaming_actions@.len() || any_redirects(l, dest))
    &&& forall|x: Id| #[trigger] r.log_destination_buffer_ids@.contains(x) <==> goes_to(l, dest, self.trigger_buffer_ids@, self.continuous_buffer_ids@, x)
  }),
@entry
  let ghost old0 = streaming_actions@;
  let ghost dest = log_destination_buffer_ids@;
  let ghost kept = going(old0, session_id);
  let ghost existing = dest.intersect(self.trigger_buffer_ids@.union(self.continuous_buffer_ids@));
@frule __s.retain_mut(|(a, flush_completed)| __c) => vxraw!("{ let ghost l = __s@; let ghost mut n: int = 0; let mut vx_o: Vec<(StreamingBuffersAction, bool)> = Vec::new(); let mut vx_i = vx_into_iter(__s); proof { assert(l.take(0) =~= Seq::empty()); lemma_going(l, session_id, 0); } loop invariant_except_break 0 <= n <= l.len(), l == old0, kept == going(old0, session_id), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0.logs_count < u64::MAX, vx_i.rest() =~= l.skip(n), vx_o@ =~= going(l.take(n), session_id), going(l.take(n), session_id).len() <= n, has_changed_streaming_actions == (vx_o@.len() < n), ensures vx_o@ == kept, has_changed_streaming_actions == (kept.len() < old0.len()), forall|i: int| 0 <= i < kept.len() ==> (#[trigger] kept[i]).0.logs_count < u64::MAX, decreases vx_i.rest().len(), { proof { lemma_going(l, session_id, n); if n < l.len() { lemma_going(l, session_id, n + 1); } } match vx_i.next() { Some(vx_e) => { let mut vx_e = vx_e; let vx_k = { let a = &mut vx_e.0; let flush_completed = &vx_e.1; __c }; if vx_k { vx_o.push(vx_e); } proof { n = n + 1; } } None => { proof { assert(l.take(n) =~= l); } break } } } __s = vx_o; }")
@frule __s.vx_clone().into_iter().filter(|id| __c).collect() => vxraw!("{ let mut vx_o: VSet<Id> = VSet::new(); let vx_s = __s.vx_clone(); let ghost l = vx_s.order(); let ghost k = self.trigger_buffer_ids@.union(self.continuous_buffer_ids@); let mut vx_i = vx_into_iter(vx_s); let ghost mut n: int = 0; proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break l == __s.order(), k == self.trigger_buffer_ids@.union(self.continuous_buffer_ids@), vx_i.rest() =~= l.skip(n), keeping(l, n, k, vx_o@), ensures forall|x: Id| #[trigger] vx_o@.contains(x) <==> k.contains(x) && __s@.contains(x), decreases vx_i.rest().len(), { proof { lemma_keeping(l, n, k, vx_o@); } match vx_i.next() { Some(id) => { let vx_k = { let id = &id; __c }; if vx_k { vx_o.insert(id); } proof { n = n + 1; } } None => { proof { assert(n == l.len()); assert(l.take(n) =~= l); } break } } } vx_o }")
@frule __s.into_iter().map(|(a, _)| a).collect() => vx_firsts(__s)
@loop 0
  invariant
    0 <= vx_it0 <= kept.len(), streaming_actions@.len() == kept.len(), dest == log_destination_buffer_ids@,
    forall|i: int| 0 <= i < kept.len() ==> (#[trigger] kept[i]).0.logs_count < u64::MAX,
    forall|i: int| 0 <= i < vx_it0 ==> (#[trigger] streaming_actions@[i]).0 == counted(kept[i].0, dest),
    forall|i: int| vx_it0 <= i < kept.len() ==> #[trigger] streaming_actions@[i] == kept[i],
    has_been_rerouted == any_redirects(kept.take(vx_it0 as int), dest),
    forall|x: Id| #[trigger] final_log_destination_buffer_ids@.contains(x) <==> redirected_to(kept.take(vx_it0 as int), dest, x),
    forall|x: Id| #[trigger] not_rerouted_buffer_ids@.contains(x) <==> dest.contains(x) && (self.trigger_buffer_ids@.contains(x) || self.continuous_buffer_ids@.contains(x)) && !redirected_from(kept.take(vx_it0 as int), x),
  decreases kept.len() - vx_it0,
@loop_entry 0
  proof { lemma_redirect(kept, dest, vx_it0 as int); let both = kept[vx_it0 as int].0.source_trigger_buffer_ids@.intersect(dest); if both == Set::<Id>::empty() { assert forall|x: Id| #[trigger] dest.contains(x) implies !kept[vx_it0 as int].0.source_trigger_buffer_ids@.contains(x) by { assert(!both.contains(x)); } } }
@frule has_changed_streaming_actions |= __b => has_changed_streaming_actions = vx_either(has_changed_streaming_actions, __b)
@after final_log_destination_buffer_ids.append(__a)
  proof {
    assert(kept.take(kept.len() as int) =~= kept);
    assert(firsts(streaming_actions@) =~= all_counted(kept, dest));
    assert(has_changed_streaming_actions == (kept.len() < old0.len()));
    assert(has_been_rerouted == any_redirects(kept, dest));
    assert(forall|x: Id| #[trigger] final_log_destination_buffer_ids@.contains(x) <==> goes_to(kept, dest, self.trigger_buffer_ids@, self.continuous_buffer_ids@, x));
  }
@text
// ---- A new configuration: only the buffers there are; an action left with none is gone.
pub open spec fn std_pending(a: PendingFlushBuffersAction, trig: Set<Id>) -> Option<PendingFlushBuffersAction> {
  if a.trigger_buffer_ids@.disjoint(trig) { None } else { Some(PendingFlushBuffersAction { trigger_buffer_ids: VSet::mk(a.trigger_buffer_ids@.intersect(trig)), ..a }) }
}
pub open spec fn from_one(l: Seq<PendingFlushBuffersAction>, trig: Set<Id>, b: PendingFlushBuffersAction) -> bool { exists|i: int| 0 <= i < l.len() && std_pending(#[trigger] l[i], trig) == Some(b) }
pub proof fn lemma_from_one(l: Seq<PendingFlushBuffersAction>, trig: Set<Id>, n: int)
  requires 0 <= n < l.len(),
  ensures forall|b: PendingFlushBuffersAction| #[trigger] from_one(l.take(n + 1), trig, b) == (from_one(l.take(n), trig, b) || std_pending(l[n], trig) == Some(b)),
{
  let (t, u) = (l.take(n), l.take(n + 1));
  assert(u[n] == l[n]);
  assert forall|b: PendingFlushBuffersAction| #[trigger] from_one(u, trig, b) == (from_one(t, trig, b) || std_pending(l[n], trig) == Some(b)) by {
    if from_one(t, trig, b) { let i = choose|i: int| 0 <= i < t.len() && std_pending(#[trigger] t[i], trig) == Some(b); assert(std_pending(u[i], trig) == Some(b)); }
    if from_one(u, trig, b) { let i = choose|i: int| 0 <= i < u.len() && std_pending(#[trigger] u[i], trig) == Some(b); if i < n { assert(std_pending(t[i], trig) == Some(b)); } }
  }
}
pub open spec fn std_streaming(a: StreamingBuffersAction, trig: Set<Id>, cont: Set<Id>) -> Option<StreamingBuffersAction> {
  let (from, to) = (a.source_trigger_buffer_ids@.intersect(trig), a.destination_continuous_buffer_ids@.intersect(cont));
  if from == Set::<Id>::empty() || to == Set::<Id>::empty() { None }
  else { Some(StreamingBuffersAction { source_trigger_buffer_ids: VSet::mk(from), destination_continuous_buffer_ids: VSet::mk(to), ..a }) }
}
pub open spec fn all_std(l: Seq<StreamingBuffersAction>, trig: Set<Id>, cont: Set<Id>) -> Seq<StreamingBuffersAction>
  decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { let r = all_std(l.drop_last(), trig, cont); match std_streaming(l.last(), trig, cont) { Some(b) => r.push(b), None => r } } }
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::standardize_pending_actions
@spec
  ensures forall|b: PendingFlushBuffersAction| #[trigger] r@.contains(b) <==> from_one(pending_actions.order(), self.trigger_buffer_ids@, b),
@frule __s.into_iter().filter_map(|action| __c).collect() => vxraw!("{ let ghost l = __s.order(); let ghost k = self.trigger_buffer_ids@; let ghost mut n: int = 0; let mut vx_o: VSet<PendingFlushBuffersAction> = VSet::new(); let mut vx_i = vx_into_iter(__s); proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break 0 <= n <= l.len(), k == self.trigger_buffer_ids@, vx_i.rest() =~= l.skip(n), forall|b: PendingFlushBuffersAction| #[trigger] vx_o@.contains(b) <==> from_one(l.take(n), k, b), ensures forall|b: PendingFlushBuffersAction| #[trigger] vx_o@.contains(b) <==> from_one(l, k, b), decreases vx_i.rest().len(), { proof { if n < l.len() { lemma_from_one(l, k, n); } else { assert(l.take(n) =~= l); } } match vx_i.next() { Some(action) => { let vx_k: Option<PendingFlushBuffersAction> = __c; proof { assert(vx_k == std_pending(l[n], k)); } if let Some(vx_e) = vx_k { vx_o.insert(vx_e); } proof { n = n + 1; } } None => break } } vx_o }")
@fn bd-workflows/src/actions_flush_buffers.rs Resolver::standardize_streaming_buffers
@spec
  ensures r@ == all_std(streaming_buffers@, self.trigger_buffer_ids@, self.continuous_buffer_ids@),
@frule __s.into_iter().filter_map(|action| __c).collect() => vxraw!("{ let ghost l = __s@; let ghost k = self.trigger_buffer_ids@; let ghost k2 = self.continuous_buffer_ids@; let ghost mut n: int = 0; let mut vx_o: Vec<StreamingBuffersAction> = Vec::new(); let mut vx_i = vx_into_iter(__s); proof { assert(l.take(0) =~= Seq::empty()); } loop invariant_except_break 0 <= n <= l.len(), k == self.trigger_buffer_ids@, k2 == self.continuous_buffer_ids@, vx_i.rest() =~= l.skip(n), vx_o@ =~= all_std(l.take(n), k, k2), ensures vx_o@ =~= all_std(l, k, k2), decreases vx_i.rest().len(), { proof { if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]); } else { assert(l.take(n) =~= l); } } match vx_i.next() { Some(action) => { let vx_k: Option<StreamingBuffersAction> = __c; proof { assert(vx_k == std_streaming(l[n], k, k2)); } if let Some(vx_e) = vx_k { vx_o.push(vx_e); } proof { n = n + 1; } } None => break } } vx_o }")
@type bd-workflows/src/actions_flush_buffers.rs NegotiatorOutput
@type bd-workflows/src/actions_flush_buffers.rs Negotiator
@rule __x.await => __x
@fn bd-workflows/src/actions_flush_buffers.rs Negotiator::perform_intent_negotiation
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r: Result<bool, AnyErr>
@spec
  ensures r is Ok ==> answered(intent_request, named_by(r->Ok_0)),
@frule __x.vx_clone() => __x.vx_same()
@frule self.data_upload_tx.send(__m).await => self.data_upload_tx.post(__m)
@frule response.await => response.wait()
@loop 0
  invariant true,
@fn bd-workflows/src/actions_flush_buffers.rs Negotiator::perform_action_intent_negotiation
@ret r: Result<bool, AnyErr>
@spec
  ensures r is Ok ==> decided(*action, named_by(r->Ok_0)),
@frule __x.intent_uuid.vx_clone() => __x.intent_uuid.vx_same()
@frule intent_uuid.vx_clone() => intent_uuid.vx_same()
@frule action.id.vx_clone() => action.id.vx_same()
@frule intent_request.vx_clone() => intent_request.vx_same()
@frule bd_api::upload::WorkflowActionUpload { workflow_action_ids: __i, ..Default::default() } => WorkflowActionUpload { workflow_action_ids: __i }
@frule LogUploadIntentRequest { log_count: __a, byte_count: __b, buffer_id: __c, intent_uuid: __d, intent_type: __e, ..Default::default() } => LogUploadIntentRequest { log_count: __a, byte_count: __b, buffer_id: vx_no_buffer(), intent_uuid: __d, intent_type: __e }
@entry
  assert(forall|q: LogUploadIntentRequest, d: IntentDecision| asks_for(q, *action) && #[trigger] answered(q, d) ==> decided(*action, d));
@text
// The verdict on one action: the outcome it sends must have been decided so by the server, or (for a refusal) the
// action refused before, or its negotiation failed.
pub open spec fn verdict(o: NegotiatorOutput, a: PendingFlushBuffersAction) -> bool {
  match o { NegotiatorOutput::UploadApproved(b) => b == a && decided(a, IntentDecision::UploadImmediately), NegotiatorOutput::UploadRejected(b) => b == a }
}
pub open spec fn told(l: Tx<NegotiatorOutput>, m: Tx<NegotiatorOutput>, a: PendingFlushBuffersAction) -> bool {
  (l.broken() && m.sent() == l.sent()) || (m.sent().len() > 0 && m.sent() == l.sent().push(m.sent().last()) && verdict(m.sent().last(), a))
}
@fn bd-workflows/src/actions_flush_buffers.rs Negotiator::process_pending_action
@spec
  ensures
    told(old(self).output_tx, final(self).output_tx, pending_action),
    // once refused, refused without asking; only the server's refusals are remembered
    old(self).rejected_intent_action_ids@.contains(pending_action.id) ==> final(self).rejected_intent_action_ids == old(self).rejected_intent_action_ids && (final(self).output_tx.sent() == old(self).output_tx.sent() || final(self).output_tx.sent() == old(self).output_tx.sent().push(NegotiatorOutput::UploadRejected(pending_action))),
    final(self).rejected_intent_action_ids == old(self).rejected_intent_action_ids || (final(self).rejected_intent_action_ids@ == old(self).rejected_intent_action_ids@.insert(pending_action.id) && decided(pending_action, IntentDecision::Drop)),
@frule pending_action.id.vx_clone() => pending_action.id.vx_same()
@text
// ---- tokio's oneshot channel. `waiting`: the other end is still there and has not answered.
pub struct OnceTx { pub id: Ghost<int> }
pub struct OnceRx { pub id: Ghost<int> }
pub enum TryRecvError { Empty, Closed }
impl OnceRx {
  pub uninterp spec fn waiting(&self) -> bool;
  #[verifier::external_body]
  pub fn try_recv(&mut self) -> (r: Result<(), TryRecvError>)
    ensures r == Err::<(), TryRecvError>(TryRecvError::Empty) <==> old(self).waiting(), final(self).id == old(self).id, old(self).waiting() ==> final(self).waiting(),
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_oneshot() -> (r: (OnceTx, OnceRx)) ensures r.0.id == r.1.id { unimplemented!() }
// ---- The workflows themselves (C18 to C20, C34): they see the log and give the actions it triggered. Metrics and
// diagrams: C21, C20.
#[verifier::external_body]
pub struct Workflows { s: u8 }
#[verifier::external_body]
pub struct Workflow { s: u8 }
#[verifier::external_body]
pub struct Configs { s: u8 }
#[verifier::external_body]
pub struct Outcome { s: u8 }
#[verifier::external_body]
pub struct OutcomeStats { s: u8 }
#[verifier::external_body]
pub struct Histogram { s: u8 }
#[verifier::external_body]
pub struct MetricsCollector { s: u8 }
#[verifier::external_body]
pub struct SankeyPath { s: u8 }
#[verifier::external_body]
pub struct ActionEmitMetric { s: u8 }
#[verifier::external_body]
pub struct ActionTakeScreenshot { s: u8 }
pub struct TriggeredActionEmitSankey<'a> { pub path: SankeyPath, pub p: core::marker::PhantomData<&'a u8> }
impl Histogram {
  #[verifier::external_body]
  pub fn start_timer(&self) -> (r: u8) { unimplemented!() }
  #[verifier::external_body]
  pub fn observe(&self, n: u32) { unimplemented!() }
}
impl Workflows {
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_each(&mut self) -> (r: Vec<(usize, Workflow)>) { unimplemented!() }
}
impl Workflow {
  #[verifier::external_body]
  pub fn is_in_initial_state(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn process_log(&self, c: &Configs, log: &LogRef, n: &mut u32, limit: u32) -> (r: Outcome) { unimplemented!() }
}
impl Outcome {
  #[verifier::external_body]
  pub fn stats(&self) -> (r: OutcomeStats) { unimplemented!() }
  #[verifier::external_body]
  pub fn triggered_actions<'a>(self) -> (r: Vec<TriggeredAction<'a>>) { unimplemented!() }
}
impl OutcomeStats {
  #[verifier::external_body]
  pub fn did_make_progress(&self) -> (r: bool) { unimplemented!() }
}
impl MetricsCollector {
  #[verifier::external_body]
  pub fn emit_metrics(&self, a: &VSet<&ActionEmitMetric>, log: &LogRef) { }
  #[verifier::external_body]
  pub fn emit_sankeys<'a>(&self, a: &VSet<TriggeredActionEmitSankey<'a>>, log: &LogRef) { }
}
pub struct LogRef<'a> { pub session_id: Id, pub p: core::marker::PhantomData<&'a u8> }
// ---- The state's file: C34.
#[verifier::external_body]
pub struct StateStore { s: u8 }
impl StateStore {
  #[verifier::external_body]
  pub fn maybe_store(&mut self, s: &WorkflowsState, force: bool) -> (r: bool) { unimplemented!() }
}
// ---- HashMap<String, Receiver<()>>
#[verifier::external_body]
pub struct Flushes { v: Vec<OnceRx> }
impl Flushes {
  pub uninterp spec fn view(&self) -> Map<Id, OnceRx>;
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &Id) -> (r: Option<&mut OnceRx>)
    ensures
      r is Some <==> old(self)@.contains_key(*k),
      r is None ==> final(self)@ == old(self)@,
      r matches Some(x) ==> *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &Id) -> (r: Option<OnceRx>) ensures final(self)@ == old(self)@.remove(*k), { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: Id, v: OnceRx) -> (r: Option<OnceRx>) ensures final(self)@ == old(self)@.insert(k, v), { unimplemented!() }
}
@type_rule tokio::sync::oneshot::Sender<()> => OnceTx
@type_rule tokio::sync::oneshot::Receiver<()> => OnceRx
@rule tokio::sync::oneshot::channel() => vx_oneshot()
@rule self.remove_pending_action(&__x) => self.remove_pending_action(__x)
@type bd-workflows/src/actions_flush_buffers.rs BuffersToFlush
@type bd-workflows/src/engine.rs WorkflowsState
@field workflows: Workflows
@type bd-workflows/src/engine.rs WorkflowsEngineStats
@type bd-workflows/src/engine.rs WorkflowsEngine
@dropfield state_periodic_write_interval
@dropfield flush_buffers_negotiator_join_handle
@dropfield sankey_processor_join_handle
@field pending_buffer_flushes: Flushes
@field configs: Configs
@fn bd-workflows/src/actions_flush_buffers.rs BuffersToFlush::new
@ret r: (BuffersToFlush, OnceRx)
@spec
  ensures r.0.buffer_ids == action.trigger_buffer_ids, r.0.response_tx.id == r.1.id,
@fn bd-workflows/src/engine.rs WorkflowsEngine::remove_pending_action
@spec
  ensures
    forall|a: PendingFlushBuffersAction| #[trigger] final(self).state.pending_actions@.contains(a) <==> old(self).state.pending_actions@.contains(a) && a.id != action_id,
    *final(self) == (WorkflowsEngine { state: WorkflowsState { pending_actions: final(self).state.pending_actions, ..old(self).state }, ..*old(self) }),
@frule __s.retain(|action| action.id != action_id) => __s.vx_drop_id(action_id)
@text
impl VSet<PendingFlushBuffersAction> {
  // retain(|a| a.id != k)
  #[verifier::external_body]
  pub fn vx_drop_id(&mut self, k: Id)
    ensures forall|a: PendingFlushBuffersAction| #[trigger] final(self)@.contains(a) <==> old(self)@.contains(a) && a.id != k,
  { unimplemented!() }
}
pub open spec fn in_flight(f: Map<Id, OnceRx>, k: Id) -> bool { f.contains_key(k) && f[k].waiting() }
// told to flush: these buffers, and to report to a receiver we keep under the action
pub open spec fn flush_told(o: WorkflowsEngine, n: WorkflowsEngine, a: PendingFlushBuffersAction) -> bool {
  let (s, t) = (o.buffers_to_flush_tx.sent(), n.buffers_to_flush_tx.sent());
  t.len() > 0 && t == s.push(t.last()) && t.last().buffer_ids == a.trigger_buffer_ids
    && n.pending_buffer_flushes@.contains_key(a.id) && n.pending_buffer_flushes@[a.id].id == t.last().response_tx.id
}
@text
pub open spec fn no_longer(o: VSet<PendingFlushBuffersAction>, n: VSet<PendingFlushBuffersAction>, k: Id) -> bool {
  forall|a: PendingFlushBuffersAction| #[trigger] n@.contains(a) <==> o@.contains(a) && a.id != k
}
pub open spec fn approved(o: WorkflowsEngine, n: WorkflowsEngine, a: PendingFlushBuffersAction) -> bool {
  // no longer pending
  &&& no_longer(o.state.pending_actions, n.state.pending_actions, a.id)
  // streaming, if it asked for that
  &&& n.state.streaming_actions@ == (match streaming_of(a, o.flush_buffers_actions_resolver.continuous_buffer_ids) { Some(s) => o.state.streaming_actions@.push(s), None => o.state.streaming_actions@ })
  // flushed, unless its previous flush is still going on
  &&& in_flight(o.pending_buffer_flushes@, a.id) ==> n.buffers_to_flush_tx.sent() == o.buffers_to_flush_tx.sent() && in_flight(n.pending_buffer_flushes@, a.id)
  &&& !in_flight(o.pending_buffer_flushes@, a.id) ==> flush_told(o, n, a) || (o.buffers_to_flush_tx.refuses() && n.buffers_to_flush_tx.sent() == o.buffers_to_flush_tx.sent() && !n.pending_buffer_flushes@.contains_key(a.id))
  &&& forall|k: Id| k != a.id ==> (#[trigger] n.pending_buffer_flushes@.contains_key(k) <==> o.pending_buffer_flushes@.contains_key(k)) && n.pending_buffer_flushes@[k] == o.pending_buffer_flushes@[k]
  &&& n.needs_state_persistence
  &&& n.flush_buffers_actions_resolver == o.flush_buffers_actions_resolver
  &&& n.state.session_id == o.state.session_id
}
pub open spec fn refused(o: WorkflowsEngine, n: WorkflowsEngine, a: PendingFlushBuffersAction) -> bool {
  &&& no_longer(o.state.pending_actions, n.state.pending_actions, a.id)
  &&& n.state.streaming_actions == o.state.streaming_actions
  &&& n.state.session_id == o.state.session_id
  &&& n.buffers_to_flush_tx == o.buffers_to_flush_tx
  &&& n.pending_buffer_flushes == o.pending_buffer_flushes
  &&& n.flush_buffers_actions_resolver == o.flush_buffers_actions_resolver
  &&& n.needs_state_persistence
}
@fn bd-workflows/src/engine.rs WorkflowsEngine::on_log_upload_approved
@spec
  ensures approved(*old(self), *final(self), action), final(self).flush_buffers_negotiator_output_rx == old(self).flush_buffers_negotiator_output_rx,
@fn bd-workflows/src/engine.rs WorkflowsEngine::maybe_persist
@spec
  ensures
    *final(self) == (WorkflowsEngine { needs_state_persistence: final(self).needs_state_persistence, state_store: final(self).state_store, ..*old(self) }),
    !old(self).needs_state_persistence ==> *final(self) == *old(self),
@fn bd-workflows/src/engine.rs WorkflowsEngine::run_once
@frule self.state_periodic_write_interval.sleep() => ()
@spec
  ensures ({
    let (s, t) = (old(self).flush_buffers_negotiator_output_rx.taken(), final(self).flush_buffers_negotiator_output_rx.taken());
    if t == s { *final(self) == (WorkflowsEngine { needs_state_persistence: final(self).needs_state_persistence, state_store: final(self).state_store, flush_buffers_negotiator_output_rx: final(self).flush_buffers_negotiator_output_rx, ..*old(self) }) }
    else { t.len() > 0 && t == s.push(t.last()) && (match t.last() { NegotiatorOutput::UploadApproved(a) => approved(*old(self), *final(self), a), NegotiatorOutput::UploadRejected(a) => refused(*old(self), *final(self), a) }) }
  }),
@text
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> { pub open spec fn val(&self) -> T { match self { Cow::Borrowed(x) => **x, Cow::Owned(x) => *x } } }
@type bd-workflows/src/engine.rs WorkflowsEngineResult
@type bd-workflows/src/workflow.rs TriggeredAction
@text
// ---- The actions a log triggered, of which the flushes.
pub open spec fn is_flush<'a>(a: TriggeredAction<'a>, f: &'a ActionFlushBuffers) -> bool { a == TriggeredAction::FlushBuffers(f) }
pub open spec fn some_flush<'a>(l: Seq<TriggeredAction<'a>>, f: &'a ActionFlushBuffers) -> bool { exists|i: int| 0 <= i < l.len() && is_flush(#[trigger] l[i], f) }
pub proof fn lemma_flush<'a>(l: Seq<TriggeredAction<'a>>, n: int)
  requires 0 <= n < l.len(),
  ensures forall|f: &'a ActionFlushBuffers| #[trigger] some_flush(l.take(n + 1), f) == (some_flush(l.take(n), f) || is_flush(l[n], f)),
{
  let (t, u) = (l.take(n), l.take(n + 1));
  assert(u[n] == l[n]);
  assert forall|f: &'a ActionFlushBuffers| #[trigger] some_flush(u, f) == (some_flush(t, f) || is_flush(l[n], f)) by {
    if some_flush(t, f) { let i = choose|i: int| 0 <= i < t.len() && is_flush(#[trigger] t[i], f); assert(is_flush(u[i], f)); }
    if some_flush(u, f) { let i = choose|i: int| 0 <= i < u.len() && is_flush(#[trigger] u[i], f); if i < n { assert(is_flush(t[i], f)); } }
  }
}
@text
#[verifier::external_body]
pub fn vx_others<'a, T>(a: &Vec<TriggeredAction<'a>>) -> (r: VSet<T>) { unimplemented!() }
pub fn vx_append<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@, { let mut b = b; a.append(&mut b); }
@known prepare_actions
@fn bd-workflows/src/engine.rs WorkflowsEngine::prepare_actions
@spec
  ensures forall|f: &'a ActionFlushBuffers| #[trigger] r.0@.contains(f) <==> some_flush(actions@, f),
@frule __v.iter().filter_map(|action| { if let TriggeredAction::FlushBuffers(__x) = action { Some(*__y) } else { None } }).collect() => vxraw!("{ let ghost l = __v@; let mut vx_o: VSet<&'a ActionFlushBuffers> = VSet::new(); let mut vx_n: usize = 0; proof { assert(l.take(0) =~= Seq::empty()); } while vx_n < __v.len() invariant 0 <= vx_n <= l.len(), l == __v@, forall|f: &'a ActionFlushBuffers| #[trigger] vx_o@.contains(f) <==> some_flush(l.take(vx_n as int), f), decreases l.len() - vx_n, { proof { lemma_flush(l, vx_n as int); } let action = &__v[vx_n]; let vx_k = if let TriggeredAction::FlushBuffers(__x) = action { Some(*__y) } else { None }; if let Some(vx_e) = vx_k { vx_o.insert(vx_e); } vx_n = vx_n + 1; } proof { assert(l.take(l.len() as int) =~= l); } vx_o }")
@frule __v.iter().filter_map(|action| { if let TriggeredAction::EmitMetric(__x) = action { Some(*__y) } else { None } }).collect() => vx_others(&__v)
@frule __v.iter().filter_map(|action| { if let TriggeredAction::TakeScreenshot(__x) = action { Some(*__y) } else { None } }).collect() => vx_others(&__v)
@frule __v.into_iter().filter_map(|action| { if let TriggeredAction::SankeyDiagram(__x) = action { Some(__y) } else { None } }).collect() => vx_others(&__v)
@text
// ---- One log. What this unit speaks of in the engine:
pub open spec fn kept(a: WorkflowsEngine, b: WorkflowsEngine) -> bool {
  &&& a.state.pending_actions == b.state.pending_actions
  &&& a.state.streaming_actions@ == b.state.streaming_actions@
  &&& a.pending_buffer_flushes@ == b.pending_buffer_flushes@
  &&& a.flush_buffers_negotiator_input_tx == b.flush_buffers_negotiator_input_tx
  &&& a.buffers_to_flush_tx == b.buffers_to_flush_tx
  &&& a.flush_buffers_actions_resolver == b.flush_buffers_actions_resolver
  &&& (a.needs_state_persistence ==> b.needs_state_persistence)
}
// each with: has its flush been done (or was there none)?
pub open spec fn with_flushes(l: Seq<StreamingBuffersAction>, f: Map<Id, OnceRx>) -> Seq<(StreamingBuffersAction, bool)> { Seq::new(l.len(), |i: int| (l[i], !in_flight(f, l[i].id))) }
// a log for `dest`, in session `k`, which triggered the flushes `acts`
pub open spec fn logged(o: WorkflowsEngine, n: WorkflowsEngine, r: WorkflowsEngineResult, dest: Set<Id>, k: Id, acts: Seq<&ActionFlushBuffers>) -> bool {
  let (trig, cont) = (o.flush_buffers_actions_resolver.trigger_buffer_ids, o.flush_buffers_actions_resolver.continuous_buffer_ids);
  let l = going(with_flushes(o.state.streaming_actions@, o.pending_buffer_flushes@), k);
  let x = Cx { session: k, trig: trig, cont: cont };
  // streaming: ended actions go, the others redirect the log and count it
  &&& n.state.streaming_actions@ == all_counted(l, dest)
  &&& forall|b: Id| #[trigger] r.log_destination_buffer_ids.val()@.contains(b) <==> goes_to(l, dest, trig@, cont@, b)
  // flushes: the new ones are pending, and put to the negotiator, each once
  &&& forall|p: PendingFlushBuffersAction| #[trigger] n.state.pending_actions@.contains(p) <==> o.state.pending_actions@.contains(p) || some_asks(acts, x, o.state.pending_actions, n.state.streaming_actions@, p)
  &&& exists|news: Seq<PendingFlushBuffersAction>| #[trigger] put(news, o.flush_buffers_negotiator_input_tx, n.flush_buffers_negotiator_input_tx) && news.no_duplicates() && (forall|p: PendingFlushBuffersAction| #[trigger] news.contains(p) <==> some_asks(acts, x, o.state.pending_actions, n.state.streaming_actions@, p))
  // what the caller is told of them
  &&& forall|i: Id| #[trigger] r.triggered_flush_buffers_action_ids@.contains(i) <==> some_named(acts, i)
  &&& forall|b: Id| #[trigger] r.triggered_flushes_buffer_ids@.contains(b) <==> some_flushes(acts, x, b)
  // changed, to be saved
  &&& (l.len() < o.state.streaming_actions@.len() || any_redirects(l, dest) || (exists|p: PendingFlushBuffersAction| #[trigger] some_asks(acts, x, o.state.pending_actions, n.state.streaming_actions@, p))) ==> n.needs_state_persistence
}
// all of them were put in, in order, but for those it refused
pub open spec fn put<T>(l: Seq<T>, o: Tx<T>, n: Tx<T>) -> bool { spread(l, o.sent(), o.lost(), n.sent(), n.lost()) }
pub open spec fn spread<T>(l: Seq<T>, s: Seq<T>, t: Seq<T>, s1: Seq<T>, t1: Seq<T>) -> bool
  decreases l.len(),
{
  if l.len() == 0 { s1 == s && t1 == t } else {
    (s1.len() > 0 && s1.last() == l.last() && spread(l.drop_last(), s, t, s1.drop_last(), t1)) || (t1.len() > 0 && t1.last() == l.last() && spread(l.drop_last(), s, t, s1, t1.drop_last()))
  }
}
impl WorkflowsState {
  #[verifier::external_body]
  pub fn clear_ongoing_workflows_state(&mut self)
    ensures *final(self) == (WorkflowsState { workflows: final(self).workflows, session_id: final(self).session_id, ..*old(self) }),
  { unimplemented!() }
}
impl Id {
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
}
@macro inc_by => drop
@fn bd-workflows/src/engine.rs WorkflowsEngine::process_log
@spec
  requires forall|i: int| 0 <= i < old(self).state.streaming_actions@.len() ==> (#[trigger] old(self).state.streaming_actions@[i]).logs_count < u64::MAX,
  ensures
    final(self).state.session_id == log.session_id,
    (kept(*old(self), *final(self)) && r.log_destination_buffer_ids.val() == *log_destination_buffer_ids && r.triggered_flush_buffers_action_ids@ == Set::<Id>::empty() && r.triggered_flushes_buffer_ids@ == Set::<Id>::empty())
      || (exists|acts: Seq<&ActionFlushBuffers>| #[trigger] logged(*old(self), *final(self), r, log_destination_buffer_ids@, log.session_id, acts)),
@frule &mut self.state.workflows.iter_mut().enumerate() => self.state.workflows.vx_each()
@frule &self.configs[index] => &self.configs
@frule actions.extend(__x) => vx_append(&mut actions, __x)
@frule self.needs_state_persistence |= __b => self.needs_state_persistence = vx_either(self.needs_state_persistence, __b)
@frule &self.state.session_id => self.state.session_id
@frule self.current_traversals_count.into() => self.current_traversals_count
@frule self.state.streaming_actions.drain(..).map(|action| __c).collect() => vxraw!("{ let ghost l = self.state.streaming_actions@; let ghost f = self.pending_buffer_flushes@; let mut vx_o: Vec<(StreamingBuffersAction, bool)> = Vec::new(); let mut vx_v: Vec<StreamingBuffersAction> = Vec::new(); core::mem::swap(&mut self.state.streaming_actions, &mut vx_v); let mut vx_i = vx_into_iter(vx_v); let ghost mut n: int = 0; let ghost g1 = *self; loop invariant_except_break 0 <= n <= l.len(), vx_i.rest() =~= l.skip(n), vx_o@ =~= with_flushes(l, f).take(n), same_flushes(f, self.pending_buffer_flushes@), *self == (WorkflowsEngine { pending_buffer_flushes: self.pending_buffer_flushes, ..g1 }), ensures vx_o@ =~= with_flushes(l, f), same_flushes(f, self.pending_buffer_flushes@), *self == (WorkflowsEngine { pending_buffer_flushes: self.pending_buffer_flushes, ..g1 }), decreases vx_i.rest().len(), { match vx_i.next() { Some(action) => { let vx_e = __c; vx_o.push(vx_e); proof { n = n + 1; } } None => { proof { assert(with_flushes(l, f).take(n) =~= with_flushes(l, f)); } break } } } vx_o }")
@loop 0
  invariant kept(g, *self), self.state.session_id == log.session_id,
  decreases vx_it0.rest().len(),
@loop 1
  invariant kept(g3, *self), self.state.session_id == g3.state.session_id,
  decreases vx_it1.rest().len(),
@loop 2
  invariant_except_break
    0 <= n <= news.len(), vx_it2.rest() =~= news.skip(n), news.no_duplicates(),
    forall|p: PendingFlushBuffersAction| #[trigger] self.state.pending_actions@.contains(p) <==> g3.state.pending_actions@.contains(p) || news.take(n).contains(p),
    put(news.take(n), g3.flush_buffers_negotiator_input_tx, self.flush_buffers_negotiator_input_tx),
    n > 0 ==> self.needs_state_persistence,
  invariant
    self.state.session_id == g3.state.session_id,
    g3.needs_state_persistence ==> self.needs_state_persistence,
    self.state.streaming_actions@ == g3.state.streaming_actions@,
  ensures
    forall|p: PendingFlushBuffersAction| #[trigger] self.state.pending_actions@.contains(p) <==> g3.state.pending_actions@.contains(p) || news.contains(p),
    put(news, g3.flush_buffers_negotiator_input_tx, self.flush_buffers_negotiator_input_tx),
    news.len() > 0 ==> self.needs_state_persistence,
  decreases vx_it2.rest().len(),
@loop_entry 2
  proof {
    if n < news.len() {
      assert(news.take(n + 1).drop_last() =~= news.take(n)); assert(news.take(n + 1).last() == news[n]);
      assert forall|p: PendingFlushBuffersAction| #[trigger] news.take(n + 1).contains(p) <==> news.take(n).contains(p) || p == news[n] by { lemma_in(news.take(n + 1), p); }
      n = n + 1;
      tx0 = self.flush_buffers_negotiator_input_tx;
    } else { assert(news.take(n) =~= news); }
  }
@after self.metrics_collector.emit_metrics(__a, __b)
  proof { g3 = *self; acts = flush_buffers_actions.order(); news = flush_buffers_actions_processing_result.new_pending_actions_to_add.order(); assert(news.take(0) =~= Seq::empty()); }
@entry
  let ghost g = *self;
  let ghost mut g3 = g;
  let ghost mut news: Seq<PendingFlushBuffersAction> = Seq::empty();
  let ghost mut n: int = 0;
  let ghost mut acts: Seq<&ActionFlushBuffers> = Seq::empty();
  let ghost mut tx0 = self.flush_buffers_negotiator_input_tx;
@loop_exit 2
  proof { assert(news.take(n) =~= news.take(n - 1).push(news[n - 1])); lemma_put(news.take(n - 1), news[n - 1], g3.flush_buffers_negotiator_input_tx, tx0, self.flush_buffers_negotiator_input_tx); }
@before WorkflowsEngineResult { log_destination_buffer_ids: Cow::Owned(__a), triggered_flush_buffers_action_ids: __b, triggered_flushes_buffer_ids: __c, capture_screenshot: __d }
  proof {
    let (o, dest, k) = (g, log_destination_buffer_ids@, log.session_id);
    let (trig, cont) = (o.flush_buffers_actions_resolver.trigger_buffer_ids, o.flush_buffers_actions_resolver.continuous_buffer_ids);
    let l = going(with_flushes(o.state.streaming_actions@, o.pending_buffer_flushes@), k);
    let x = Cx { session: k, trig: trig, cont: cont };
    assert(self.state.streaming_actions@ == all_counted(l, dest));
    assert(put(news, o.flush_buffers_negotiator_input_tx, self.flush_buffers_negotiator_input_tx));
    assert forall|p: PendingFlushBuffersAction| #[trigger] news.contains(p) <==> some_asks(acts, x, o.state.pending_actions, self.state.streaming_actions@, p) by {}
    assert((l.len() < o.state.streaming_actions@.len() || any_redirects(l, dest)) ==> self.needs_state_persistence);
    if exists|p: PendingFlushBuffersAction| #[trigger] some_asks(acts, x, o.state.pending_actions, self.state.streaming_actions@, p) {
      let p = choose|p: PendingFlushBuffersAction| #[trigger] some_asks(acts, x, o.state.pending_actions, self.state.streaming_actions@, p);
      assert(news.contains(p));
    }
    assert forall|b: Id| #[trigger] result.log_destination_buffer_ids@.contains(b) <==> goes_to(l, dest, trig@, cont@, b) by {}
    assert forall|i: Id| #[trigger] flush_buffers_actions_processing_result.triggered_flush_buffers_action_ids@.contains(i) <==> some_named(acts, i) by {}
    assert forall|b: Id| #[trigger] flush_buffers_actions_processing_result.triggered_flushes_buffer_ids@.contains(b) <==> some_flushes(acts, x, b) by {}
    assert forall|r: WorkflowsEngineResult| #[trigger] r.log_destination_buffer_ids == Cow::<VSet<Id>>::Owned(result.log_destination_buffer_ids) && r.triggered_flush_buffers_action_ids == flush_buffers_actions_processing_result.triggered_flush_buffers_action_ids && r.triggered_flushes_buffer_ids == flush_buffers_actions_processing_result.triggered_flushes_buffer_ids implies logged(o, *self, r, dest, k, acts) by {}
  }
@text
pub proof fn lemma_put<T>(l: Seq<T>, x: T, o: Tx<T>, m: Tx<T>, n: Tx<T>)
  requires put(l, o, m), (n.sent() == m.sent().push(x) && n.lost() == m.lost()) || (n.sent() == m.sent() && n.lost() == m.lost().push(x)),
  ensures put(l.push(x), o, n),
{ assert(l.push(x).drop_last() =~= l); assert(m.sent().push(x).drop_last() =~= m.sent()); assert(m.lost().push(x).drop_last() =~= m.lost()); }
pub open spec fn same_flushes(f: Map<Id, OnceRx>, g: Map<Id, OnceRx>) -> bool {
  f.dom() =~= g.dom() && forall|k: Id| f.contains_key(k) ==> (#[trigger] g[k]).id == f[k].id && (f[k].waiting() ==> g[k].waiting())
}
