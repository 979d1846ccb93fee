@include prelude.inc
@include vmap.inc
@include fs.inc
@rule __p.exists() => self.fs.exists(&__p)
@rule std::fs::read(__p) => self.fs.read(__p)
@rule std::fs::write(__p, __d) => self.fs.write(__p, __d)
@rule std::fs::remove_dir_all(__p) => self.fs.remove_dir_all(__p)
@rule std::fs::create_dir(__p) => self.fs.create_dir(__p)
@text
// ---- Text and messages.
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn number(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn decimal(n: u32) -> Seq<char>;
// a number's text reads back as the number
pub broadcast axiom fn axiom_text(n: u32)
  ensures utf8(#[trigger] bytes_of(decimal(n))) == Some(decimal(n)), number(decimal(n)) == Some(n);
pub open spec fn count(b: Seq<u8>) -> Option<u32> { match utf8(b) { Some(s) => number(s), None => None } }
#[verifier::external_body]
pub fn vx_utf8(b: &[u8]) -> (r: Result<&str, AnyErr>)
  ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> r->Ok_0@ == utf8(b@)->0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_number(s: &str) -> (r: Result<u32, AnyErr>)
  ensures r is Ok <==> number(s@) is Some, r is Ok ==> r->Ok_0 == number(s@)->0,
{ unimplemented!() }
impl VxShow for u32 {
  open spec fn shown(&self) -> Seq<char> { decimal(*self) }
  #[verifier::external_body]
  fn vx_show(&self, s: String) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bytes(s: &String) -> (r: Vec<u8>) ensures r@ == bytes_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn handle_unexpected<T, E>(r: Result<T, E>, s: &str) { unimplemented!() }
#[verifier::external_body]
pub struct Value {}
impl Value {
  pub uninterp spec fn uint(&self) -> u32;
  pub uninterp spec fn truth(&self) -> bool;
  pub uninterp spec fn text(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn uint_value(&self) -> (r: u32) ensures r == self.uint() { unimplemented!() }
  #[verifier::external_body]
  pub fn bool_value(&self) -> (r: bool) ensures r == self.truth() { unimplemented!() }
  #[verifier::external_body]
  pub fn string_value(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
pub struct Runtime { pub values: VMap<Value> }
impl Clone for Runtime { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Runtime {
  pub fn default() -> (r: Self) ensures r.values@ == Map::<Seq<char>, Value>::empty() { Runtime { values: VMap::new() } }
}
pub struct MessageField { pub m: Option<Runtime> }
impl Clone for MessageField { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl MessageField {
  pub fn unwrap_or_default(self) -> (r: Runtime)
    ensures self.m is Some ==> r == self.m->0, self.m is None ==> r.values@ == Map::<Seq<char>, Value>::empty(),
  { match self.m { Some(x) => x, None => Runtime::default() } }
}
pub struct RuntimeUpdate { pub version_nonce: String, pub runtime: MessageField }
impl RuntimeUpdate {
  pub open spec fn values(&self) -> Map<Seq<char>, Value> { match self.runtime.m { Some(x) => x.values@, None => Map::empty() } }
}
// the two formats of the cache file
pub uninterp spec fn packed(b: Seq<u8>) -> Option<RuntimeUpdate>;
pub uninterp spec fn plain(b: Seq<u8>) -> Option<RuntimeUpdate>;
pub open spec fn cached(b: Seq<u8>) -> Option<RuntimeUpdate> { match packed(b) { Some(u) => Some(u), None => plain(b) } }
#[verifier::external_body]
pub fn vx_unpack(b: &Vec<u8>) -> (r: Result<RuntimeUpdate, AnyErr>)
  ensures r is Ok <==> packed(b@) is Some, r is Ok ==> r->Ok_0 == packed(b@)->0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_parse(b: &Vec<u8>) -> (r: Result<RuntimeUpdate, AnyErr>)
  ensures r is Ok <==> plain(b@) is Some, r is Ok ==> r->Ok_0 == plain(b@)->0,
{ unimplemented!() }
#[verifier::external_body]
pub fn write_compressed_protobuf(u: &RuntimeUpdate) -> (r: Vec<u8>)
  ensures packed(r@) == Some(*u),
{ unimplemented!() }
@rule read_compressed_protobuf(__b) => vx_unpack(__b)
@rule RuntimeUpdate::parse_from_bytes(__b) => vx_parse(__b)
@rule __x.or_else(|_| __d) => match __x { Ok(vx_v) => Ok(vx_v), Err(vx_e) => __d }
@rule std::str::from_utf8(__d) => vx_utf8(__d)
@rule __s.parse() => vx_number(__s)
@rule __s.as_bytes() => vx_bytes(&__s)
@rule __x.map_or(__d, Value::bool_value) => match __x { Some(vx_v) => vx_v.bool_value(), None => __d }
@rule __x.map_or(__d, Value::uint_value) => match __x { Some(vx_v) => vx_v.uint_value(), None => __d }
@rule __x.map_or(__d, Value::string_value) => match __x { Some(vx_v) => vx_v.string_value(), None => __d }
@rule __x.map(Value::uint_value) => match __x { Some(vx_v) => Some(vx_v.uint_value()), None => None }
@text
// ---- tokio's watch channel: the value it shows, and how often its receivers were told.
pub struct Sender<T> { pub value: T, pub id: Ghost<int>, pub told: Ghost<int> }
pub struct Receiver<T> { pub id: Ghost<int>, pub t: Option<T> }
#[verifier::external_body]
pub fn vx_channel<T>(v: T) -> (r: (Sender<T>, Receiver<T>))
  ensures r.0.value == v, r.1.id@ == r.0.id@,
{ unimplemented!() }
impl<T> Sender<T> {
  #[verifier::external_body]
  pub fn subscribe(&self) -> (r: Receiver<T>) ensures r.id@ == self.id@ { unimplemented!() }
  pub fn tell(&mut self)
    ensures *final(self) == (Sender { told: Ghost(old(self).told@ + 1), ..*old(self) }),
  { proof { self.told@ = self.told@ + 1; } }
}
#[verifier::external_body]
pub fn vx_eq<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { *a == *b }
#[derive(Clone, Copy, PartialEq)]
pub struct VxDur { pub ms: u32, pub other: i64 }
#[verifier::external_body]
pub fn vx_ms(v: u32) -> (r: VxDur) ensures r == dur(v) { unimplemented!() }
pub uninterp spec fn dur(v: u32) -> VxDur;
@type_rule time::Duration => VxDur
@type_rule Arc<__T> => __T
@type_rule std::sync::Mutex<__T> => __T
@type_rule Mutex<__T> => __T
@type_rule AtomicBool => bool
@type_rule tokio::sync::watch::Sender<__T> => Sender<__T>
@type_rule tokio::sync::watch::Receiver<__T> => Receiver<__T>
@type_rule HashMap<&'static str, InternalWatchKind> => VxWatches
@rule tokio::sync::watch::channel(__v) => vx_channel(__v)
@rule drop(__x) => ()
@rule PhantomData => std::marker::PhantomData
@rule Arc::new(__x) => __x
@rule Mutex::new(__x) => __x
@rule AtomicBool::new(__x) => __x
@rule HashMap::new() => VxWatches::new()
@rule time::Duration::milliseconds(__v.into()) => vx_ms(__v)
@rule __c.swap(__n, __o) => vx_swap(&mut __c, __n)
@rule __c.load(__o) => __c
@rule __c.store(__n, __o) => __c = __n
@rule *__a == __b => vx_eq(&*__a, &__b)
@rule *__a != __b => !vx_eq(&*__a, &__b)
@guard __p.lock().unwrap()
@map watches
@text
pub fn vx_swap(x: &mut bool, n: bool) -> (r: bool) ensures r == *old(x), *final(x) == n { let r = *x; *x = n; r }
@type bd-runtime/src/runtime.rs Snapshot
@derive Clone
@type bd-runtime/src/runtime.rs InternalWatch
@type bd-runtime/src/runtime.rs InternalWatchKind
@text
impl Snapshot {
  pub open spec fn has(&self, k: Seq<char>) -> bool { self.runtime.values@.dom().contains(k) }
  pub open spec fn int(&self, k: Seq<char>, d: u32) -> u32 { if self.has(k) { self.runtime.values@[k].uint() } else { d } }
  pub open spec fn truth(&self, k: Seq<char>, d: bool) -> bool { if self.has(k) { self.runtime.values@[k].truth() } else { d } }
  pub open spec fn span(&self, k: Seq<char>, d: VxDur) -> VxDur { if self.has(k) { dur(self.runtime.values@[k].uint()) } else { d } }
  // it shows exactly what this update says
  pub open spec fn of(&self, u: RuntimeUpdate) -> bool { self.runtime.values@ == u.values() && self.nonce == Some(u.version_nonce) }
}
#[verifier::external_body]
pub struct VxWatches {}
impl VxWatches {
  pub uninterp spec fn view(&self) -> Seq<(Seq<char>, InternalWatchKind)>;
  pub open spec fn wf(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self@.len() ==> (#[trigger] self@[i]).0 != (#[trigger] self@[j]).0 }
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_key(&self, i: usize) -> (r: &'static str)
    requires i < self@.len(),
    ensures r@ == self@[i as int].0,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_val(&mut self, i: usize) -> (r: &mut InternalWatchKind)
    requires i < old(self)@.len(),
    ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &str) -> (r: Option<&InternalWatchKind>)
    ensures
      r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == (k@, *r->0),
      r is None ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).0 != k@,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: &'static str, v: InternalWatchKind)
    requires forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).0 != k@,
    ensures final(self)@ == old(self)@.push((k@, v)),
  { unimplemented!() }
}
// A watch of this name shows this snapshot's value.
pub open spec fn shows(s: Snapshot, k: Seq<char>, w: InternalWatchKind) -> bool {
  match w {
    InternalWatchKind::Int(w) => w.watch.value == s.int(k, w.default),
    InternalWatchKind::Bool(w) => w.watch.value == s.truth(k, w.default),
    InternalWatchKind::Duration(w) => w.watch.value == s.span(k, w.default),
  }
}
pub open spec fn kept<T>(a: InternalWatch<T>, b: InternalWatch<T>) -> bool {
  a.default == b.default && a.watch.id == b.watch.id && b.watch.told@ == a.watch.told@ + (if a.watch.value == b.watch.value { 0int } else { 1 })
}
// The same watch; told of a change exactly when its value changed.
pub open spec fn same(a: InternalWatchKind, b: InternalWatchKind) -> bool {
  match (a, b) {
    (InternalWatchKind::Int(a), InternalWatchKind::Int(b)) => kept(a, b),
    (InternalWatchKind::Bool(a), InternalWatchKind::Bool(b)) => kept(a, b),
    (InternalWatchKind::Duration(a), InternalWatchKind::Duration(b)) => kept(a, b),
    _ => false,
  }
}
pub trait FeatureFlag<T>: Sized {
  spec fn name() -> Seq<char>;
  spec fn dflt() -> T;
  fn path() -> (r: &'static str) ensures r@ == Self::name();
  fn default() -> (r: T) ensures r == Self::dflt();
}
pub trait ReadValue<T> {
  spec fn value_of(&self, k: Seq<char>, d: T) -> T;
  fn read_value(&self, path: &str, default: T) -> (r: T) ensures r == self.value_of(path@, default);
}
// The three instances the code's macro writes: value readers and watch kinds of integers, truth values, durations.
impl ReadValue<u32> for Snapshot {
  open spec fn value_of(&self, k: Seq<char>, d: u32) -> u32 { self.int(k, d) }
  fn read_value(&self, path: &str, default: u32) -> (r: u32) { self.get_integer(path, default) }
}
impl ReadValue<bool> for Snapshot {
  open spec fn value_of(&self, k: Seq<char>, d: bool) -> bool { self.truth(k, d) }
  fn read_value(&self, path: &str, default: bool) -> (r: bool) { self.get_bool(path, default) }
}
impl ReadValue<VxDur> for Snapshot {
  open spec fn value_of(&self, k: Seq<char>, d: VxDur) -> VxDur { self.span(k, d) }
  fn read_value(&self, path: &str, default: VxDur) -> (r: VxDur) { self.get_duration(path, default) }
}
pub trait TypedWatch<T>: Sized where Snapshot: ReadValue<T> {
  spec fn made(d: T, w: Sender<T>) -> Self;
  spec fn chan(&self) -> Option<Sender<T>>;
  spec fn shown(s: Snapshot, k: Seq<char>, x: Self) -> bool;
  proof fn law(s: Snapshot, k: Seq<char>, d: T, w: Sender<T>)
    ensures Self::shown(s, k, Self::made(d, w)) == (w.value == s.value_of(k, d)), Self::made(d, w).chan() == Some(w);
  fn make(d: T, w: Sender<T>) -> (r: Self) ensures r == Self::made(d, w);
  fn typed_watch(&self) -> (r: Result<Receiver<T>, AnyErr>)
    ensures r is Ok <==> self.chan() is Some, r is Ok ==> r->Ok_0.id@ == self.chan()->0.id@;
}
impl TypedWatch<u32> for InternalWatchKind {
  open spec fn made(d: u32, w: Sender<u32>) -> Self { InternalWatchKind::Int(InternalWatch { default: d, watch: w }) }
  open spec fn chan(&self) -> Option<Sender<u32>> { match self { InternalWatchKind::Int(w) => Some(w.watch), _ => None } }
  open spec fn shown(s: Snapshot, k: Seq<char>, x: Self) -> bool { shows(s, k, x) }
  proof fn law(s: Snapshot, k: Seq<char>, d: u32, w: Sender<u32>) {}
  fn make(d: u32, w: Sender<u32>) -> (r: Self) { InternalWatchKind::Int(InternalWatch { default: d, watch: w }) }
  fn typed_watch(&self) -> (r: Result<Receiver<u32>, AnyErr>) { match self { InternalWatchKind::Int(w) => Ok(w.watch.subscribe()), _ => Err(vx_err()) } }
}
impl TypedWatch<bool> for InternalWatchKind {
  open spec fn made(d: bool, w: Sender<bool>) -> Self { InternalWatchKind::Bool(InternalWatch { default: d, watch: w }) }
  open spec fn chan(&self) -> Option<Sender<bool>> { match self { InternalWatchKind::Bool(w) => Some(w.watch), _ => None } }
  open spec fn shown(s: Snapshot, k: Seq<char>, x: Self) -> bool { shows(s, k, x) }
  proof fn law(s: Snapshot, k: Seq<char>, d: bool, w: Sender<bool>) {}
  fn make(d: bool, w: Sender<bool>) -> (r: Self) { InternalWatchKind::Bool(InternalWatch { default: d, watch: w }) }
  fn typed_watch(&self) -> (r: Result<Receiver<bool>, AnyErr>) { match self { InternalWatchKind::Bool(w) => Ok(w.watch.subscribe()), _ => Err(vx_err()) } }
}
impl TypedWatch<VxDur> for InternalWatchKind {
  open spec fn made(d: VxDur, w: Sender<VxDur>) -> Self { InternalWatchKind::Duration(InternalWatch { default: d, watch: w }) }
  open spec fn chan(&self) -> Option<Sender<VxDur>> { match self { InternalWatchKind::Duration(w) => Some(w.watch), _ => None } }
  open spec fn shown(s: Snapshot, k: Seq<char>, x: Self) -> bool { shows(s, k, x) }
  proof fn law(s: Snapshot, k: Seq<char>, d: VxDur, w: Sender<VxDur>) {}
  fn make(d: VxDur, w: Sender<VxDur>) -> (r: Self) { InternalWatchKind::Duration(InternalWatch { default: d, watch: w }) }
  fn typed_watch(&self) -> (r: Result<Receiver<VxDur>, AnyErr>) { match self { InternalWatchKind::Duration(w) => Ok(w.watch.subscribe()), _ => Err(vx_err()) } }
}
@type bd-runtime/src/runtime.rs LoaderState
@type bd-runtime/src/runtime.rs ConfigLoader
@extra pub fs: VxFs
@text
pub struct Watch<T, P> { pub watch: Receiver<T>, pub _type: std::marker::PhantomData<P> }
@type bd-runtime/src/runtime.rs RuntimeManager
@text
impl LoaderState {
  // Every watch shows the value of the snapshot, or its default.
  pub open spec fn wf(&self) -> bool {
    &&& self.watches.wf()
    &&& forall|i: int| 0 <= i < self.watches@.len() ==> shows(self.snapshot, (#[trigger] self.watches@[i]).0, self.watches@[i].1)
  }
  pub open spec fn moved(&self, o: LoaderState) -> bool {
    &&& self.watches@.len() == o.watches@.len()
    &&& forall|i: int| 0 <= i < self.watches@.len() ==> (#[trigger] self.watches@[i]).0 == o.watches@[i].0 && same(o.watches@[i].1, self.watches@[i].1)
  }
}
impl ConfigLoader {
  pub open spec fn wf(&self) -> bool {
    &&& self.state.wf()
    &&& self.retry_count_file.id() != self.protobuf_file.id()
    &&& inside(self.retry_count_file.id(), self.runtime_directory.id())
    &&& inside(self.protobuf_file.id(), self.runtime_directory.id())
  }
  pub open spec fn paths(&self, o: ConfigLoader) -> bool {
    &&& self.retry_count_file == o.retry_count_file && self.protobuf_file == o.protobuf_file && self.runtime_directory == o.runtime_directory
    &&& self.fs.healthy() == o.fs.healthy()
  }
  // what the two files hold
  pub open spec fn tries(&self) -> Option<u32> {
    let f = self.retry_count_file.id();
    if self.fs@.dom().contains(f) { count(self.fs@[f]) } else { None }
  }
  pub open spec fn cache(&self) -> Option<RuntimeUpdate> {
    let f = self.protobuf_file.id();
    if self.fs@.dom().contains(f) { cached(self.fs@[f]) } else { None }
  }
  // A cached configuration this start may use.
  pub open spec fn usable(&self) -> bool { self.tries() is Some && self.tries()->0 <= 5 && self.cache() is Some }
  pub open spec fn empty(&self) -> bool { !self.fs@.dom().contains(self.retry_count_file.id()) && !self.fs@.dom().contains(self.protobuf_file.id()) }
  // One start's look at the cache.
  pub open spec fn started(&self, o: ConfigLoader) -> bool {
    ||| { // applied: it was usable, the start is counted, and the configuration is the cached one
      &&& o.usable()
      &&& self.tries() == Some((o.tries()->0 + 1) as u32)
      &&& self.state.snapshot.of(o.cache()->0)
      &&& self.state.moved(o.state)
    }
    ||| self.state == o.state
  }
}
// A configuration nobody confirms is applied at no more than six starts: as long as every start applies it, each
// leaves the counter one higher, and none applies it above five.
pub proof fn lemma_six(h: Seq<(ConfigLoader, ConfigLoader)>, i: int)
  requires
    0 <= i < h.len(),
    // each start finds what the one before left
    forall|j: int| 0 <= j < h.len() - 1 ==> (#[trigger] h[j]).1.tries() == h[j + 1].0.tries(),
    // and applies
    forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).0.usable() && h[j].1.tries() == Some((h[j].0.tries()->0 + 1) as u32),
  ensures
    h[i].0.tries()->0 >= i, h[i].0.tries()->0 == h[0].0.tries()->0 + i, i < 6,
  decreases i,
{
  assert(h[i].0.usable());
  if i > 0 { lemma_six(h, i - 1); assert(h[i - 1].1.tries() == h[i - 1 + 1].0.tries()); }
}
@fn bd-runtime/src/runtime.rs Snapshot::new
@spec
  ensures r.runtime == runtime, r.nonce == nonce,
@fn bd-runtime/src/runtime.rs Snapshot::get_bool
@spec
  ensures r == self.truth(name@, default),
@fn bd-runtime/src/runtime.rs Snapshot::get_integer
@spec
  ensures r == self.int(name@, default),
@fn bd-runtime/src/runtime.rs Snapshot::get_duration
@spec
  ensures r == self.span(name@, default),
@fn bd-runtime/src/runtime.rs Snapshot::get_string
@spec
  ensures r@ == (if self.has(name@) { self.runtime.values@[name@].text() } else { default@ }),
@fn bd-runtime/src/runtime.rs LoaderState::new
@spec
  ensures r.wf(), r.snapshot.runtime == runtime, r.snapshot.nonce == version_nonce, r.watches@.len() == 0,
@fn bd-runtime/src/runtime.rs ConfigLoader::mark_safe
@self mut
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).paths(*old(self)), final(self).state == old(self).state, final(self).cached_config_validated,
    // the first confirmation of a process ends the count
    old(self).cached_config_validated ==> final(self).fs == old(self).fs,
    !old(self).cached_config_validated && old(self).fs.healthy() ==> final(self).tries() == Some(0u32),
    final(self).cache() == old(self).cache(),
@fn bd-runtime/src/runtime.rs ConfigLoader::persist_cache_load_retry_count
@self mut
@entry
  broadcast use axiom_text;
@spec
  requires old(self).wf(),
  ensures
    *final(self) == (ConfigLoader { fs: final(self).fs, ..*old(self) }),
    final(self).paths(*old(self)), final(self).wf(),
    r is Ok ==> final(self).tries() == Some(retry_count),
    old(self).fs.healthy() ==> r is Ok,
    final(self).cache() == old(self).cache(),
    final(self).fs@.dom().contains(old(self).protobuf_file.id()) == old(self).fs@.dom().contains(old(self).protobuf_file.id()),
    final(self).fs@[old(self).protobuf_file.id()] == old(self).fs@[old(self).protobuf_file.id()],
@fn bd-runtime/src/runtime.rs ConfigLoader::parse_retry_count
@spec
  ensures r is Ok <==> count(data@) is Some, r is Ok ==> r->Ok_0 == count(data@)->0,
@fn bd-runtime/src/runtime.rs ConfigLoader::handle_cached_config
@self mut
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).paths(*old(self)),
    final(self).started(*old(self)),
    // what can be used is used, what cannot is thrown away
    old(self).fs.healthy() ==> (if old(self).usable() { final(self).state.snapshot.of(old(self).cache()->0) && final(self).tries() is Some && final(self).cache() == old(self).cache() }
                                else { final(self).state == old(self).state && final(self).empty() }),
@fn bd-runtime/src/runtime.rs ConfigLoader::try_load_cached_config
@self mut
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).paths(*old(self)),
    final(self).started(*old(self)),
    r == Ok::<bool, AnyErr>(false) ==> old(self).usable() && final(self).state.snapshot.of(old(self).cache()->0) && final(self).tries() is Some && (old(self).fs.healthy() ==> final(self).cache() == old(self).cache()),
    r != Ok::<bool, AnyErr>(false) ==> final(self).state == old(self).state,
    old(self).fs.healthy() && old(self).usable() ==> r == Ok::<bool, AnyErr>(false),
@before self.update_snapshot_inner(__a)
  // counted before it is applied
  assert(self.tries() == Some((old(self).tries()->0 + 1) as u32));
@fn bd-runtime/src/runtime.rs ConfigLoader::snapshot
@spec
  ensures r == self.state.snapshot,
@fn bd-runtime/src/runtime.rs ConfigLoader::register_watch
@self mut
@frule (__d, __w).into() => <InternalWatchKind as TypedWatch<T>>::make(__d, __w)
@generics <T, C: FeatureFlag<T>>
@spec
  where Snapshot: ReadValue<T>, InternalWatchKind: TypedWatch<T>
  requires
    old(self).wf(),
    // the type's kind of watch shows what watches of that kind show
    forall|s: Snapshot, k: Seq<char>, x: InternalWatchKind| #[trigger] <InternalWatchKind as TypedWatch<T>>::shown(s, k, x) == shows(s, k, x),
  ensures
    final(self).wf(), final(self).paths(*old(self)), final(self).fs == old(self).fs, final(self).state.snapshot == old(self).state.snapshot,
    final(self).state.watches@ == old(self).state.watches@ || (r is Ok && final(self).state.watches@.drop_last() == old(self).state.watches@),
    // what is returned listens to the watch of that name
    r is Ok ==> exists|i: int| 0 <= i < final(self).state.watches@.len() && (#[trigger] final(self).state.watches@[i]).0 == C::name()
      && <InternalWatchKind as TypedWatch<T>>::chan(&final(self).state.watches@[i].1) is Some
      && r->Ok_0.watch.id@ == <InternalWatchKind as TypedWatch<T>>::chan(&final(self).state.watches@[i].1)->0.id@,
@entry
  let ghost ws0 = self.state.watches@;
@before self.state.watches.insert(__k, __w)
  proof { <InternalWatchKind as TypedWatch<T>>::law(self.state.snapshot, C::name(), C::dflt(), watch_tx); }
@after self.state.watches.insert(__k, __w)
  proof {
    assert(self.state.watches@.drop_last() =~= ws0);
    assert(self.state.watches@[ws0.len() as int].0 == C::name());
  }
@fn bd-runtime/src/runtime.rs ConfigLoader::send_if_modified
@param internal_watch: &mut InternalWatch<T>
@frule __w.send_if_modified(|state| __b) => { let vx_r = { let state = &mut __w.value; __b }; if vx_r { __w.tell(); } vx_r }
@generics <T: PartialEq + Copy>
@spec
  where Snapshot: ReadValue<T>
  ensures kept(*old(internal_watch), *final(internal_watch)), final(internal_watch).watch.value == snapshot.value_of(key@, old(internal_watch).default),
@fn bd-runtime/src/runtime.rs ConfigLoader::update_snapshot
@self mut
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).paths(*old(self)),
    final(self).state.snapshot.of(*runtime_update), final(self).state.moved(old(self).state),
    final(self).cached_config_validated == old(self).cached_config_validated,
    // it is cached, with no start counted
    old(self).fs.healthy() ==> final(self).tries() == Some(0u32) && final(self).cache() == Some(*runtime_update),
@fn bd-runtime/src/runtime.rs ConfigLoader::update_snapshot_inner
@self mut
@frule &mut watch => watch
@frule __x.into() => Some(__x)
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).paths(*old(self)),
    final(self).state.snapshot.of(*runtime_update), final(self).state.moved(old(self).state),
    final(self).cached_config_validated == old(self).cached_config_validated,
    final(self).tries() == old(self).tries(),
    old(self).fs.healthy() ==> final(self).cache() == Some(*runtime_update),
@loop 0
  invariant
    self.retry_count_file == old(self).retry_count_file, self.protobuf_file == old(self).protobuf_file, self.runtime_directory == old(self).runtime_directory,
    self.fs == old(self).fs, self.cached_config_validated == old(self).cached_config_validated,
    old(self).wf(),
    snapshot.of(*runtime_update),
    vx_it0 <= self.state.watches@.len(), self.state.watches@.len() == old(self).state.watches@.len(),
    forall|i: int| 0 <= i < self.state.watches@.len() ==> (#[trigger] self.state.watches@[i]).0 == old(self).state.watches@[i].0,
    forall|i: int| 0 <= i < vx_it0 ==> same(old(self).state.watches@[i].1, (#[trigger] self.state.watches@[i]).1) && shows(snapshot, self.state.watches@[i].0, self.state.watches@[i].1),
    forall|i: int| vx_it0 <= i < self.state.watches@.len() ==> #[trigger] self.state.watches@[i] == old(self).state.watches@[i],
  decreases self.state.watches@.len() - vx_it0,
@fn bd-runtime/src/runtime.rs ConfigLoader::cache_update
@self mut
@spec
  requires old(self).wf(),
  ensures
    *final(self) == (ConfigLoader { fs: final(self).fs, ..*old(self) }),
    final(self).paths(*old(self)), final(self).wf(),
    final(self).tries() == old(self).tries(),
    old(self).fs.healthy() ==> final(self).cache() == Some(*runtime),
@fn bd-runtime/src/runtime.rs RuntimeManager::version_nonce
@spec
  ensures r == self.loader.state.snapshot.nonce,
@fn bd-runtime/src/runtime.rs RuntimeManager::process_update
@self mut
@spec
  requires old(self).loader.wf(),
  ensures
    final(self).loader.wf(), final(self).loader.state.snapshot.of(*update),
    old(self).loader.fs.healthy() ==> final(self).loader.tries() == Some(0u32) && final(self).loader.cache() == Some(*update),
@fn bd-runtime/src/runtime.rs RuntimeManager::server_is_available
@self mut
@spec
  requires old(self).loader.wf(),
  ensures
    final(self).loader.wf(), final(self).loader.state == old(self).loader.state,
    !old(self).loader.cached_config_validated && old(self).loader.fs.healthy() ==> final(self).loader.tries() == Some(0u32),
@fn bd-runtime/src/runtime.rs RuntimeManager::handle_cached_config
@self mut
@spec
  requires old(self).loader.wf(),
  ensures final(self).loader.wf(), final(self).loader.started(old(self).loader),
