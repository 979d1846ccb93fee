@include prelude.inc
@include store.inc
@text
pub uninterp spec fn state_key() -> Seq<char>;
#[verifier::external_body]
pub fn vx_state_key() -> (r: Key<State>)
  ensures r.key@ == state_key(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_uuid() -> (r: String)
{ unimplemented!() }
impl Storable for State {}
pub broadcast axiom fn ax_state_serializable(v: State)
  ensures #[trigger] serializable(v);
// The per-thread flag, as seen by the calling thread.
pub struct Cell { pub v: bool }
impl Cell {
  pub fn set(&mut self, v: bool)
    ensures final(self).v == v,
  { self.v = v; }
  pub fn get(&self) -> (r: bool)
    ensures r == self.v,
  { self.v }
}
// The host's callback. It may call back into this object: that is why the flag must be up during the call.
#[verifier::external_body]
pub struct DynCallbacks {}
#[verifier::external_body]
pub fn vx_call_back(c: &DynCallbacks, flag: &Cell) -> (r: Result<String, AnyErr>)
  requires flag.v,
{ unimplemented!() }
@type_rule parking_lot::Mutex<__T> => __T
@type_rule Box<ThreadLocal<Cell<bool>>> => Cell
@type_rule Arc<dyn Callbacks> => DynCallbacks
@guard __p.lock()
@guard __p.get_or_default()
@rule STATE_KEY => vx_state_key()
@rule Uuid::new_v4().to_string() => vx_uuid()
@rule uuid::Uuid::new_v4().to_string() => vx_uuid()
@rule parking_lot::Mutex::new(__x) => __x
@rule Box::new(ThreadLocal::new()) => Cell { v: false }
@rule self.callbacks.generate_session_id() => vx_call_back(&self.callbacks, &self.is_callback_in_progress)
@rule __x.into() => State::from(__x)
@rule __x.map_or_else(|| None, |__p: State| __b) => match __x { Some(__p) => __b, None => None }
@type bd-session/src/fixed.rs State
@type bd-session/src/fixed.rs InMemoryState
@derive Clone
@type bd-session/src/fixed.rs Strategy
@text
pub open spec fn saved(s: DynStorage) -> Option<Seq<char>> {
  match held::<State>(s@, state_key()) { Some(x) => Some(x.session_id@), None => None }
}
pub open spec fn optv(o: Option<String>) -> Option<Seq<char>> {
  match o { Some(s) => Some(s@), None => None }
}
impl Strategy {
  pub open spec fn idle(&self) -> bool { !self.is_callback_in_progress.v }
  // The current session ID, once there is one.
  pub open spec fn current(&self) -> Option<Seq<char>> {
    match self.state { Some(s) => Some(s.session_id@), None => None }
  }
  // The previous process's session ID: fixed for the life of the process.
  pub open spec fn previous(&self) -> Option<Seq<char>> {
    match self.state { Some(s) => optv(s.previous_process_session_id), None => saved(self.store.storage) }
  }
  // The persisted ID is the current one.
  pub open spec fn synced(&self) -> bool {
    self.state is Some ==> saved(self.store.storage) == self.current()
  }
}
@fn bd-session/src/fixed.rs From for State::from
@spec
  ensures r.session_id == state.session_id,
@fn bd-session/src/fixed.rs Strategy::new
@spec
  ensures r.idle(), r.state is None, r.store == store,
@fn bd-session/src/fixed.rs Strategy::generate_session_id
@self mut
@spec
  ensures
    final(self).state == old(self).state,
    final(self).store == old(self).store,
    final(self).callbacks == old(self).callbacks,
    use_callbacks ==> final(self).idle(),
    !use_callbacks ==> final(self).is_callback_in_progress == old(self).is_callback_in_progress,
@fn bd-session/src/fixed.rs Strategy::session_id
@self mut
@spec
  requires old(self).store.storage.reliable(), old(self).synced(),
  ensures
    final(self).store.storage.reliable(), final(self).synced(),
    final(self).previous() == old(self).previous(),
    // inside the callback: an answer, and no effect
    !old(self).idle() ==> *final(self) == *old(self),
    // otherwise the current session's ID, made and persisted at the first request
    old(self).idle() ==> final(self).idle() && final(self).current() == Some(r@),
    old(self).idle() && old(self).state is Some ==> *final(self) == *old(self),
@entry
  broadcast use ax_state_serializable;
@fn bd-session/src/fixed.rs Strategy::start_new_session
@self mut
@spec
  requires old(self).store.storage.reliable(), old(self).synced(),
  ensures
    final(self).store.storage.reliable(), final(self).synced(),
    final(self).previous() == old(self).previous(),
    !old(self).idle() ==> r is Err && *final(self) == *old(self),
    old(self).idle() ==> r is Ok && final(self).idle() && final(self).current() == Some(r->Ok_0@),
@entry
  broadcast use ax_state_serializable;
@fn bd-session/src/fixed.rs Strategy::previous_process_session_id
@self mut
@spec
  requires old(self).store.storage.reliable(), old(self).synced(),
  ensures
    optv(r) == old(self).previous(),
    final(self).previous() == old(self).previous(),
    final(self).state == old(self).state,
    final(self).is_callback_in_progress == old(self).is_callback_in_progress,
    final(self).synced(), final(self).store.storage.reliable(),
@text
// A process's life: the ID stays until a new session is started, and the next process sees the last one.
pub fn vx_client(store: Store, c1: DynCallbacks, c2: DynCallbacks)
  requires store.storage.reliable(),
{
  let mut p1 = Strategy::new(store, c1);
  let prev0 = p1.previous_process_session_id();
  let a = p1.session_id();
  let b = p1.session_id();
  assert(a@ == b@);
  let n = p1.start_new_session();
  let c = p1.session_id();
  assert(n is Ok && n->Ok_0@ == c@);
  let prev1 = p1.previous_process_session_id();
  assert(optv(prev0) == optv(prev1));
  let mut p2 = Strategy::new(p1.store, c2);
  let prev2 = p2.previous_process_session_id();
  assert(optv(prev2) == Some(c@));
}
