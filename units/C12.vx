@include prelude.inc
@include store.inc
@text
pub uninterp spec fn state_key() -> Seq<char>;
#[verifier::external_body]
pub fn vx_state_key() -> (r: Key<State>)
  ensures r.key@ == state_key(),
{ unimplemented!() }
// Random IDs: never one made before.
#[verifier::external_body]
pub struct Gen {}
impl Gen {
  pub uninterp spec fn view(&self) -> Set<Seq<char>>;
  #[verifier::external_body]
  pub fn uuid(&mut self) -> (r: String)
    ensures !old(self)@.contains(r@), final(self)@ == old(self)@.insert(r@),
  { unimplemented!() }
}
impl Storable for State {}
pub broadcast axiom fn ax_state_serializable(v: State)
  ensures #[trigger] serializable(v);
// Dates and spans in nanoseconds; the difference of two dates is a span. The clock may go backwards.
pub struct OffsetDateTime { pub ns: i128 }
pub struct Duration { pub ns: i128 }
impl Clone for OffsetDateTime { fn clone(&self) -> (r: Self) { OffsetDateTime { ns: self.ns } } }
impl Copy for OffsetDateTime {}
impl Clone for Duration { fn clone(&self) -> (r: Self) { Duration { ns: self.ns } } }
impl Copy for Duration {}
#[verifier::external_body]
pub fn vx_since(a: OffsetDateTime, b: OffsetDateTime) -> (r: Duration)
  ensures r.ns == a.ns - b.ns,
{ Duration { ns: a.ns - b.ns } }
pub open spec fn interval() -> int { 15_000_000_000 }
pub fn vx_seconds(n: i64) -> (r: Duration)
  ensures r.ns == n * 1_000_000_000,
{ Duration { ns: n as i128 * 1_000_000_000 } }
pub trait VxNum: Sized {
  spec fn num(&self) -> int;
  fn vx_gt(self, o: Self) -> (r: bool) ensures r == (self.num() > o.num());
  fn vx_ge(self, o: Self) -> (r: bool) ensures r == (self.num() >= o.num());
}
impl VxNum for OffsetDateTime {
  open spec fn num(&self) -> int { self.ns as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self.ns > o.ns }
  fn vx_ge(self, o: Self) -> (r: bool) { self.ns >= o.ns }
}
impl VxNum for Duration {
  open spec fn num(&self) -> int { self.ns as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self.ns > o.ns }
  fn vx_ge(self, o: Self) -> (r: bool) { self.ns >= o.ns }
}
#[verifier::external_body]
pub struct DynTimeProvider {}
impl DynTimeProvider {
  // the last reading
  pub uninterp spec fn view(&self) -> int;
  #[verifier::external_body]
  pub fn now(&mut self) -> (r: OffsetDateTime) ensures final(self)@ == r.ns { unimplemented!() }
}
#[verifier::external_body]
pub struct DynCallbacks {}
impl DynCallbacks {
  #[verifier::external_body]
  pub fn session_id_changed(&self, session_id: &str) { unimplemented!() }
}
@type_rule parking_lot::Mutex<__T> => __T
@type_rule Arc<dyn Callbacks> => DynCallbacks
@type_rule Arc<dyn TimeProvider> => DynTimeProvider
@type_rule Arc<dyn bd_time::TimeProvider> => DynTimeProvider
@type_rule time::Duration => Duration
@guard __p.lock()
@rule STATE_KEY => vx_state_key()
@rule Uuid::new_v4().to_string() => vx_gen.uuid()
@rule uuid::Uuid::new_v4().to_string() => vx_gen.uuid()
@rule Self::generate_session_id() => Self::generate_session_id(vx_gen)
@rule parking_lot::Mutex::new(__x) => __x
@rule Duration::seconds(__n) => vx_seconds(__n)
@rule time::Duration::seconds(__n) => vx_seconds(__n)
@rule __x.into() => State::from(__x)
@rule __a - __b => vx_since(__a, __b)
@rule __a > __b => __a.vx_gt(__b)
@rule __a >= __b => __a.vx_ge(__b)
@rule __a < __b => __b.vx_gt(__a)
@rule __a <= __b => __b.vx_ge(__a)
@rule self.store.get(__k).map(|__p| __b) => match self.store.get(__k) { Some(__p) => Some(__b), None => None }
@rule __a.clone_from(&__b) => __a = __b.vx_clone()
@rule __x.map_or_else(|| __d, std::clone::Clone::clone) => match __x { Some(vx_v) => vx_v.vx_clone(), None => __d }
@rule __x.map_or_else(|| __d, Clone::clone) => match __x { Some(vx_v) => vx_v.vx_clone(), None => __d }
@type bd-session/src/activity_based.rs State
@type bd-session/src/activity_based.rs InMemoryState
@derive Clone
@type bd-session/src/activity_based.rs Strategy
@text
pub open spec fn saved(s: DynStorage) -> Option<State> { held::<State>(s@, state_key()) }
pub open spec fn saved_id(s: DynStorage) -> Option<Seq<char>> { match saved(s) { Some(x) => Some(x.session_id@), None => None } }
pub open spec fn optv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
// The session a process has, or would continue: ID, last activity, last write of it by this process.
pub ghost struct Session { pub id: Seq<char>, pub active: int, pub written: Option<int> }
pub open spec fn session_of(s: InMemoryState) -> Session {
  Session { id: s.session_id@, active: s.last_activity.ns as int, written: match s.last_activity_write { Some(w) => Some(w.ns as int), None => None } }
}
impl Strategy {
  pub open spec fn session(&self) -> Option<Session> {
    match self.state {
      Some(s) => Some(session_of(s)),
      None => match saved(self.store.storage) { Some(x) => Some(Session { id: x.session_id@, active: x.last_activity.ns as int, written: None }), None => None },
    }
  }
  pub open spec fn previous(&self) -> Option<Seq<char>> {
    match self.state { Some(s) => optv(s.previous_process_session_id), None => saved_id(self.store.storage) }
  }
  // What is persisted is always the current session.
  pub open spec fn synced(&self) -> bool { self.state is Some ==> saved_id(self.store.storage) == Some(session_of(self.state->Some_0).id) }
  pub open spec fn known(&self, g: Gen) -> bool {
    (self.session() is Some ==> g@.contains(self.session()->Some_0.id))
  }
  pub open spec fn same_config(&self, o: Self) -> bool {
    self.inactivity_threshold == o.inactivity_threshold && self.max_write_interval == o.max_write_interval && self.callbacks == o.callbacks
      && self.store.storage.reliable() == o.store.storage.reliable()
  }
}
pub open spec fn expired(s: Session, now: int, threshold: int) -> bool { now < s.active || now - s.active > threshold }
@fn bd-session/src/activity_based.rs From for State::from
@spec
  ensures r.session_id == state.session_id, r.last_activity == state.last_activity,
@fn bd-session/src/activity_based.rs Strategy::new
@spec
  ensures r.state is None, r.store == store, r.inactivity_threshold == inactivity_threshold, r.max_write_interval.ns == interval(),
@fn bd-session/src/activity_based.rs Strategy::generate_session_id
@extra_param vx_gen: &mut Gen
@spec
  ensures !old(vx_gen)@.contains(r@), final(vx_gen)@ == old(vx_gen)@.insert(r@),
@fn bd-session/src/activity_based.rs Strategy::session_id
@self mut
@extra_param vx_gen: &mut Gen
@spec
  requires old(self).store.storage.reliable(), old(self).synced(), old(self).known(*old(vx_gen)),
  ensures
    final(self).same_config(*old(self)), final(self).synced(), final(self).known(*final(vx_gen)),
    final(self).previous() == old(self).previous(),
    final(self).state is Some, final(self).session()->Some_0.id == r@, final(self).session()->Some_0.active == final(self).time_provider@,
    ({
      let now = final(self).time_provider@;
      match old(self).session() {
        Some(s) => if expired(s, now, old(self).inactivity_threshold.ns as int) {
          // a new ID, persisted at once
          !old(vx_gen)@.contains(r@) && r@ != s.id && saved_id(final(self).store.storage) == Some(r@)
            && saved(final(self).store.storage)->Some_0.last_activity.ns == now && final(self).session()->Some_0.written == Some(now)
        } else {
          // the same ID, extended; written at most once per interval
          &&& r@ == s.id
          &&& match s.written { Some(w) => now - w > old(self).max_write_interval.ns, None => true } ==>
              saved(final(self).store.storage)->Some_0.last_activity.ns == now && final(self).session()->Some_0.written == Some(now)
          &&& !(match s.written { Some(w) => now - w > old(self).max_write_interval.ns, None => true }) ==>
              final(self).store.storage@ == old(self).store.storage@ && final(self).session()->Some_0.written == s.written
        },
        None => !old(vx_gen)@.contains(r@) && saved_id(final(self).store.storage) == Some(r@),
      }
    }),
@entry
  broadcast use ax_state_serializable;
@fn bd-session/src/activity_based.rs Strategy::start_new_session
@self mut
@extra_param vx_gen: &mut Gen
@spec
  requires old(self).store.storage.reliable(), old(self).synced(), old(self).known(*old(vx_gen)),
  ensures
    final(self).same_config(*old(self)), final(self).synced(), final(self).known(*final(vx_gen)),
    final(self).previous() == old(self).previous(),
    !old(vx_gen)@.contains(r@), final(self).state is Some,
    final(self).session()->Some_0 == (Session { id: r@, active: final(self).time_provider@, written: Some(final(self).time_provider@) }),
@entry
  broadcast use ax_state_serializable;
@fn bd-session/src/activity_based.rs Strategy::previous_process_session_id
@self mut
@spec
  requires old(self).store.storage.reliable(), old(self).synced(),
  ensures
    optv(r) == old(self).previous(), final(self).previous() == old(self).previous(), final(self).session() == old(self).session(),
    final(self).same_config(*old(self)), final(self).synced(), final(self).state == old(self).state,
@fn bd-session/src/activity_based.rs Strategy::flush
@self mut
@spec
  requires old(self).store.storage.reliable(), old(self).synced(),
  ensures
    final(self).previous() == old(self).previous(), final(self).session() == old(self).session(), final(self).state == old(self).state,
    final(self).same_config(*old(self)), final(self).synced(),
    // the last activity is on disk
    old(self).state is Some ==> saved(final(self).store.storage)->Some_0.last_activity == old(self).state->Some_0.last_activity,
@entry
  broadcast use ax_state_serializable;
@text
// Two processes on one store: the first one's sessions are the second one's previous session.
pub fn vx_client(store: Store, c1: DynCallbacks, c2: DynCallbacks, t1: DynTimeProvider, t2: DynTimeProvider, d: Duration, g: &mut Gen)
  requires store.storage.reliable(), saved_id(store.storage) is Some ==> old(g)@.contains(saved_id(store.storage)->Some_0),
{
  let mut p1 = Strategy::new(d, store, c1, t1);
  let prev0 = p1.previous_process_session_id();
  let a = p1.session_id(g);
  let b = p1.start_new_session(g);
  assert(a@ != b@);
  let c = p1.session_id(g);
  let prev1 = p1.previous_process_session_id();
  assert(optv(prev0) == optv(prev1));
  let mut p2 = Strategy::new(d, p1.store, c2, t2);
  let prev2 = p2.previous_process_session_id();
  assert(optv(prev2) == Some(c@));
  let e = p2.session_id(g);
  let prev3 = p2.previous_process_session_id();
  assert(optv(prev3) == Some(c@));
}
