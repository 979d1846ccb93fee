// C26: shutdown handles over tokio's watch channel, completion signals over its oneshot channel.
@include prelude.inc
@text
// ---- tokio's watch channel, as this crate uses it: what is sent is only ever PendingShutdown (checked at every
// send), so its value goes from Running to PendingShutdown once, whoever sends it, and never back.
pub struct Tx { pub g: Ghost<TxState> }
pub ghost struct TxState { pub pending: bool, pub closed: bool }
pub struct Rx { pub g: Ghost<RxState> }
// `seen`: the value at the version this receiver has seen last. `now`: the value when the receiver looked last.
pub ghost struct RxState { pub seen: ComponentStatus, pub now: ComponentStatus }
#[verifier::external_body]
pub struct RecvError {}
impl Tx {
  // Shutdown was sent before now.
  pub open spec fn pending(&self) -> bool { self.g@.pending }
  // There was no receiver at some moment after shutdown was sent.
  pub open spec fn closed(&self) -> bool { self.g@.closed }
  // A new receiver has seen the current value.
  #[verifier::external_body]
  pub fn subscribe(&self) -> (r: Rx)
    ensures r.g@.seen == r.g@.now, self.pending() ==> r.g@.now is PendingShutdown,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn send_replace(&mut self, v: ComponentStatus) -> (r: ComponentStatus)
    requires v is PendingShutdown,
    ensures final(self).pending(),
  { unimplemented!() }
  // Returns once there are no receivers, which there will only be if they were told.
  #[verifier::external_body]
  pub fn vx_closed(&mut self)
    requires old(self).pending(),
    ensures final(self).pending(), final(self).closed(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn is_closed(&mut self) -> (r: bool)
    requires old(self).pending(),
    ensures final(self).pending(), r ==> final(self).closed(),
  { unimplemented!() }
}
impl Rx {
  pub open spec fn wf(&self) -> bool { self.g@.seen is PendingShutdown ==> self.g@.now is PendingShutdown }
  #[verifier::external_body]
  pub fn vx_borrow(&mut self) -> (r: &ComponentStatus)
    ensures final(self).g@.seen == old(self).g@.seen, final(self).g@.now == *r, old(self).g@.now is PendingShutdown ==> *r is PendingShutdown,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_borrow_and_update(&mut self) -> (r: &ComponentStatus)
    ensures final(self).g@.seen == *r, final(self).g@.now == *r, old(self).g@.now is PendingShutdown ==> *r is PendingShutdown,
  { unimplemented!() }
  // Waits for a version that was not seen: if what was seen is already PendingShutdown, none will ever come.
  #[verifier::external_body]
  pub fn vx_changed(&mut self) -> (r: Result<(), RecvError>)
    requires old(self).g@.seen is Running,
    ensures
      r is Ok ==> final(self).g@.seen is PendingShutdown && final(self).g@.now is PendingShutdown,
      r is Err ==> final(self).g@ == old(self).g@ && trigger_gone(old(self).g@),
  { unimplemented!() }
}
// Every trigger and trigger handle was dropped without a shutdown.
pub uninterp spec fn trigger_gone(s: RxState) -> bool;
#[verifier::external_body]
pub fn vx_channel(v: ComponentStatus) -> (r: (Tx, Rx))
  requires v is Running,
  ensures !r.0.pending(), r.1.g@.now == v, r.1.g@.seen == v,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_shared(t: &Tx) -> (r: Tx) ensures r.pending() == t.pending() { unimplemented!() }
#[verifier::external_body]
pub fn vx_sleep() { unimplemented!() }
pub assume_specification[ <ComponentStatus as PartialEq>::eq ](a: &ComponentStatus, b: &ComponentStatus) -> (r: bool) ensures r == (*a == *b);
@type_rule Arc<watch::Sender<ComponentStatus>> => Tx
@type_rule watch::Receiver<ComponentStatus> => Rx
@macro log::debug => drop
@rule watch::channel(__v) => vx_channel(__v)
@rule Arc::new(__x) => __x
@rule self.status_tx.clone() => vx_shared(&self.status_tx)
@rule self.status_tx.closed().await => self.status_tx.vx_closed()
@rule self.status_rx.borrow_and_update() => self.status_rx.vx_borrow_and_update()
@rule self.status_rx.borrow() => self.status_rx.vx_borrow()
@rule self.status_rx.changed().await => self.status_rx.vx_changed()
@rule std::thread::sleep(__d) => vx_sleep()
@type bd-shutdown/src/lib.rs ComponentStatus
@derive Clone, Copy, PartialEq, Eq
@type bd-shutdown/src/lib.rs ComponentShutdownTriggerHandle
@type bd-shutdown/src/lib.rs ComponentShutdownTrigger
@type bd-shutdown/src/lib.rs ComponentShutdown
@fn bd-shutdown/src/lib.rs ComponentShutdownTriggerHandle::make_shutdown
@impl impl ComponentShutdownTriggerHandle
@spec
  ensures r.status_rx.wf(), self.status_tx.pending() ==> r.status_rx.g@.now is PendingShutdown,
@fn bd-shutdown/src/lib.rs ComponentShutdownTrigger::default
@impl impl ComponentShutdownTrigger
@ret r: Self
@spec
  ensures !r.status_tx.pending(),
@fn bd-shutdown/src/lib.rs ComponentShutdownTrigger::make_handle
@impl impl ComponentShutdownTrigger
@spec
  ensures r.status_tx.pending() == self.status_tx.pending(),
@fn bd-shutdown/src/lib.rs ComponentShutdownTrigger::make_shutdown
@impl impl ComponentShutdownTrigger
@spec
  ensures r.status_rx.wf(), self.status_tx.pending() ==> r.status_rx.g@.now is PendingShutdown,
@fn bd-shutdown/src/lib.rs ComponentShutdownTrigger::shutdown
@impl impl ComponentShutdownTrigger
@self &mut self
@spec
  // told, and gone
  ensures final(self).status_tx.pending(), final(self).status_tx.closed(),
@fn bd-shutdown/src/lib.rs ComponentShutdownTrigger::shutdown_blocking
@impl impl ComponentShutdownTrigger
@self &mut self
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  ensures final(self).status_tx.pending(), final(self).status_tx.closed(),
@loop 0
  invariant self.status_tx.pending(),
  ensures self.status_tx.closed(),
@fn bd-shutdown/src/lib.rs ComponentShutdown::cancelled
@impl impl ComponentShutdown
@spec
  requires old(self).status_rx.wf(),
  ensures
    final(self).status_rx.wf(),
    // shutdown was triggered (or can no longer be), and waiting again will return
    final(self).status_rx.g@.now is PendingShutdown || trigger_gone(final(self).status_rx.g@),
@fn bd-shutdown/src/lib.rs ComponentShutdown::component_status
@impl impl ComponentShutdown
@self &mut self
@spec
  requires old(self).status_rx.wf(),
  ensures
    final(self).status_rx.wf(), r == final(self).status_rx.g@.now,
    // what it reports never goes back
    old(self).status_rx.g@.now is PendingShutdown ==> r is PendingShutdown,
@text
// ---- tokio's oneshot channel.
// The value's type: nothing is known of it.
#[verifier::external_body]
pub struct T {}
pub struct OnceTx<T> { pub id: Ghost<int>, pub t: Option<T> }
pub struct OnceRx<T> { pub id: Ghost<int>, pub t: Option<T> }
// The value sent on the channel, if it was.
pub uninterp spec fn sent<T>(id: int, v: T) -> bool;
// Its sender is gone without having sent.
pub uninterp spec fn abandoned(id: int) -> bool;
// Its receiver is gone.
pub uninterp spec fn deaf(id: int) -> bool;
#[verifier::external_body]
pub fn vx_oneshot<T>() -> (r: (OnceTx<T>, OnceRx<T>)) ensures r.0.id == r.1.id { unimplemented!() }
impl<T> OnceTx<T> {
  #[verifier::external_body]
  pub fn send(self, v: T) -> (r: Result<(), T>)
    ensures r is Ok ==> sent(self.id@, v), r is Err ==> r->Err_0 == v && deaf(self.id@),
  { unimplemented!() }
}
impl<T> OnceRx<T> {
  #[verifier::external_body]
  pub fn vx_await(self) -> (r: Result<T, RecvError>)
    ensures r is Ok ==> sent(self.id@, r->Ok_0), r is Err ==> abandoned(self.id@),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn blocking_recv(self) -> (r: Result<T, RecvError>)
    ensures r is Ok ==> sent(self.id@, r->Ok_0), r is Err ==> abandoned(self.id@),
  { unimplemented!() }
}
impl From<RecvError> for AnyErr { #[verifier::external_body] fn from(e: RecvError) -> AnyErr { unimplemented!() } }
@type_rule tokio::sync::oneshot::Sender<__T> => OnceTx<__T>
@type_rule tokio::sync::oneshot::Receiver<__T> => OnceRx<__T>
@rule tokio::sync::oneshot::channel() => vx_oneshot()
@rule self.rx.await => self.rx.vx_await()
@rule Ok(self.rx.blocking_recv()?) => match self.rx.blocking_recv() { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(vx_err()) }
@type bd-completion/src/lib.rs Sender
@nogenerics
@type bd-completion/src/lib.rs Receiver
@nogenerics
@fn bd-completion/src/lib.rs Sender::new
@impl impl Sender
@ret r: (Sender, Receiver)
@spec
  ensures r.0.tx.id == r.1.rx.id,
@fn bd-completion/src/lib.rs Sender::send
@impl impl Sender
@spec
  ensures sent(self.tx.id@, value) || deaf(self.tx.id@),
@fn bd-completion/src/lib.rs Receiver::recv
@impl impl Receiver
@spec
  ensures r is Ok ==> sent(self.rx.id@, r->Ok_0), r is Err ==> abandoned(self.rx.id@),
@fn bd-completion/src/lib.rs Receiver::blocking_recv
@impl impl Receiver
@spec
  ensures r is Ok ==> sent(self.rx.id@, r->Ok_0), r is Err ==> abandoned(self.rx.id@),
