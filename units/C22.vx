@include prelude.inc
@include vmap.inc
@text
// ---- One-shot channels. Outcomes are what was ever sent, by channel; a channel's sender cannot be used
// twice (it is consumed), and a sender that is dropped unused fails its receiver.
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Outcomes<R> { r: core::marker::PhantomData<R> }
impl<R> Outcomes<R> { pub uninterp spec fn view(&self) -> Map<int, R>; }
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Sender<R> { r: core::marker::PhantomData<R> }
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Receiver<R> { r: core::marker::PhantomData<R> }
impl<R> Receiver<R> { pub uninterp spec fn id(&self) -> int; }
impl<R> Sender<R> {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn send(self, out: &mut Outcomes<R>, v: R) -> (r: Result<(), R>)
    requires !old(out)@.dom().contains(self.id()),
    ensures final(out)@ == old(out)@.insert(self.id(), v),
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_channel<R>() -> (r: (Sender<R>, Receiver<R>)) ensures r.0.id() == r.1.id() { unimplemented!() }
@type_rule tokio::sync::oneshot::Sender<__R> => Sender<__R>
@type_rule tokio::sync::oneshot::Receiver<__R> => Receiver<__R>
@rule tokio::sync::oneshot::channel() => vx_channel()
@rule __x.send(__v) => __x.send(vx_out, __v)
@rule __x.ok_or_else(|| __e)? => match __x { Some(vx_v) => vx_v, None => { return Err(vx_err()); } }
@rule __x.ok_or_else(|| __e) => match __x { Some(vx_v) => Ok(vx_v), None => Err(vx_err()) }
@rule anyhow!(__x) => vx_err()
@type bd-api/src/upload.rs UploadResponse
@type bd-api/src/upload.rs IntentDecision
@type bd-api/src/upload.rs IntentResponse
@type bd-api/src/upload.rs StateTracker
@type bd-api/src/upload.rs Tracked
@text
// Waiting for an answer: every channel once, and none that already got one.
pub open spec fn pending_ok<R>(p: Map<Seq<char>, Sender<R>>, out: Map<int, R>) -> bool {
  &&& forall|k: Seq<char>| #[trigger] p.dom().contains(k) ==> !out.dom().contains(p[k].id())
  &&& forall|k: Seq<char>, l: Seq<char>| #[trigger] p.dom().contains(k) && #[trigger] p.dom().contains(l) && k != l ==> p[k].id() != p[l].id()
}
// Not seen before.
pub open spec fn fresh<R>(p: Map<Seq<char>, Sender<R>>, out: Map<int, R>, s: Sender<R>) -> bool {
  !out.dom().contains(s.id()) && forall|k: Seq<char>| #[trigger] p.dom().contains(k) ==> p[k].id() != s.id()
}
@fn bd-api/src/upload.rs StateTracker::new
@spec
  ensures r.pending_uploads@ == Map::<Seq<char>, Sender<UploadResponse>>::empty(), r.pending_intents@ == Map::<Seq<char>, Sender<IntentResponse>>::empty(),
@fn bd-api/src/upload.rs Tracked::into_parts
@impl impl<PayloadType, R> Tracked<PayloadType, R>
@spec
  ensures r.0 == self.payload, r.1 == self.response_tx,
@fn bd-api/src/upload.rs Tracked::new
@impl impl<PayloadType, R> Tracked<PayloadType, R>
@spec
  ensures r.0.uuid == uuid, r.0.payload == payload, r.0.response_tx.id() == r.1.id(),
@fn bd-api/src/upload.rs Tracked::map_payload
@impl impl<PayloadType, R> Tracked<PayloadType, R>
@spec
  requires f.requires((self.payload,)),
  ensures r.uuid == self.uuid, r.response_tx == self.response_tx, f.ensures((self.payload,), r.payload),
@fn bd-api/src/upload.rs StateTracker::track_upload
@extra_param vx_out: &mut Outcomes<UploadResponse>
@spec
  requires pending_ok(old(self).pending_uploads@, old(vx_out)@), fresh(old(self).pending_uploads@, old(vx_out)@, upload.response_tx),
  ensures
    r == upload.payload,
    final(self).pending_uploads@ == old(self).pending_uploads@.insert(upload.uuid@, upload.response_tx),
    final(self).pending_intents == old(self).pending_intents,
    final(vx_out)@ == old(vx_out)@, pending_ok(final(self).pending_uploads@, final(vx_out)@),
@fn bd-api/src/upload.rs StateTracker::track_intent
@extra_param vx_out: &mut Outcomes<IntentResponse>
@spec
  requires pending_ok(old(self).pending_intents@, old(vx_out)@), fresh(old(self).pending_intents@, old(vx_out)@, intent.response_tx),
  ensures
    r == intent.payload,
    final(self).pending_intents@ == old(self).pending_intents@.insert(intent.uuid@, intent.response_tx),
    final(self).pending_uploads == old(self).pending_uploads,
    final(vx_out)@ == old(vx_out)@, pending_ok(final(self).pending_intents@, final(vx_out)@),
@fn bd-api/src/upload.rs StateTracker::resolve_pending_upload
@extra_param vx_out: &mut Outcomes<UploadResponse>
@spec
  requires pending_ok(old(self).pending_uploads@, old(vx_out)@),
  ensures
    final(self).pending_intents == old(self).pending_intents,
    pending_ok(final(self).pending_uploads@, final(vx_out)@),
    ({
      let p = old(self).pending_uploads@;
      if p.dom().contains(uuid@) {
        &&& r is Ok
        &&& final(self).pending_uploads@ == p.remove(uuid@)
        &&& exists|v: UploadResponse| v.success == (error@.len() == 0) && v.uuid@ == uuid@ && final(vx_out)@ == #[trigger] old(vx_out)@.insert(p[uuid@].id(), v)
      } else {
        r is Err && final(self).pending_uploads@ == p && final(vx_out)@ == old(vx_out)@
      }
    }),
@fn bd-api/src/upload.rs StateTracker::resolve_intent
@extra_param vx_out: &mut Outcomes<IntentResponse>
@spec
  requires pending_ok(old(self).pending_intents@, old(vx_out)@),
  ensures
    final(self).pending_uploads == old(self).pending_uploads,
    pending_ok(final(self).pending_intents@, final(vx_out)@),
    ({
      let p = old(self).pending_intents@;
      if p.dom().contains(uuid@) {
        r is Ok && final(self).pending_intents@ == p.remove(uuid@) && final(vx_out)@ == old(vx_out)@.insert(p[uuid@].id(), response)
      } else {
        r is Err && final(self).pending_intents@ == p && final(vx_out)@ == old(vx_out)@
      }
    }),
@text
// What was decided stays decided: an outcome is never replaced.
pub proof fn lemma_once<R>(p: Map<Seq<char>, Sender<R>>, out: Map<int, R>, k: Seq<char>, v: R, c: int)
  requires pending_ok(p, out), p.dom().contains(k), out.dom().contains(c),
  ensures out.insert(p[k].id(), v)[c] == out[c],
{}
