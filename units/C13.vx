@include prelude.inc
@include store.inc
@text
pub uninterp spec fn device_key() -> Seq<char>;
#[verifier::external_body]
pub fn vx_device_key() -> (r: Key<String>)
  ensures r.key@ == device_key(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_uuid() -> (r: String)
  ensures serializable(r),
{ unimplemented!() }
@type_rule parking_lot::Mutex<__T> => __T
@guard __p.lock()
@rule DEVICE_ID_KEY => vx_device_key()
@rule parking_lot::Mutex::new(__x) => __x
@rule Uuid::new_v4().to_string() => vx_uuid()
@rule uuid::Uuid::new_v4().to_string() => vx_uuid()
@type bd-device/src/lib.rs Device
@text
impl Device {
  // What this device answers from now on, as soon as it is determined: the memoized ID, else the stored one.
  pub open spec fn assigned(&self) -> Option<String> {
    match self.id { Some(s) => Some(s), None => held::<String>(self.store.storage@, device_key()) }
  }
}
@fn bd-device/src/lib.rs Device::new
@spec
  ensures r.id is None, r.store == store,
@fn bd-device/src/lib.rs Device::id
@self mut
@spec
  ensures
    final(self).store.storage.reliable() == old(self).store.storage.reliable(),
    // the same value for ever after
    final(self).id is Some && final(self).id->Some_0@ == r@,
    old(self).id is Some ==> r@ == old(self).id->Some_0@ && final(self).store == old(self).store,
    // an ID found in the store is returned and not rewritten
    old(self).store.storage.reliable() && old(self).assigned() is Some ==>
      r@ == old(self).assigned()->Some_0@ && final(self).store.storage@ == old(self).store.storage@,
    // otherwise the one generated is the one later processes will find
    old(self).id is None && old(self).store.storage.reliable() ==>
      held::<String>(final(self).store.storage@, device_key()) is Some && held::<String>(final(self).store.storage@, device_key())->Some_0@ == r@,
@text
// Any number of requests, over any number of processes sharing a reliable store, give one value.
pub fn vx_client(store: Store) -> (r: (String, String, String))
  requires store.storage.reliable(),
  ensures
    r.0@ == r.1@ && r.1@ == r.2@,
    held::<String>(store.storage@, device_key()) is Some ==> r.0@ == held::<String>(store.storage@, device_key())->Some_0@,
{
  let mut p1 = Device::new(store);
  let a = p1.id();
  let b = p1.id();
  let mut p2 = Device::new(p1.store);
  let c = p2.id();
  (a, b, c)
}
