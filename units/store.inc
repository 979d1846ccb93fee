@text
// ---- The key-value store of bd-key-value, over an assumed storage back end and assumed codecs.
// Storage (the platform's implementation of the Storage trait): a table of strings; a failed operation
// changes nothing; `reliable` says that no operation fails.
#[verifier::external_body]
pub struct DynStorage {}
impl DynStorage {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
  pub uninterp spec fn reliable(&self) -> bool;
  #[verifier::external_body]
  pub fn set_string(&mut self, key: &str, value: &str) -> (r: Result<(), AnyErr>)
    ensures
      final(self).reliable() == old(self).reliable(),
      old(self).reliable() ==> r is Ok,
      r is Ok ==> final(self)@ == old(self)@.insert(key@, value@),
      r is Err ==> final(self)@ == old(self)@,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_string(&mut self, key: &str) -> (r: Result<Option<String>, AnyErr>)
    ensures
      final(self).reliable() == old(self).reliable(),
      final(self)@ == old(self)@,
      old(self).reliable() ==> r is Ok,
      r is Ok ==> (r->Ok_0 is Some <==> old(self)@.dom().contains(key@)),
      r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0@ == old(self)@[key@],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn delete(&mut self, key: &str) -> (r: Result<(), AnyErr>)
    ensures
      final(self).reliable() == old(self).reliable(),
      old(self).reliable() ==> r is Ok,
      r is Ok ==> final(self)@ == old(self)@.remove(key@),
      r is Err ==> final(self)@ == old(self)@,
  { unimplemented!() }
}
// bincode and base64: total encoders (where they succeed) whose decoders undo them.
pub uninterp spec fn ser<T>(v: T) -> Seq<u8>;
pub uninterp spec fn serializable<T>(v: T) -> bool;
pub uninterp spec fn deser<T>(b: Seq<u8>) -> Option<T>;
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unb64(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_ser<T>(v: T)
  requires serializable(v),
  ensures deser::<T>(#[trigger] ser(v)) == Some(v);
pub broadcast axiom fn ax_b64(b: Seq<u8>)
  ensures unb64(#[trigger] b64(b)) == Some(b);
#[verifier::external_body]
pub struct CodecErr {}
#[verifier::external_body]
pub fn vx_serialize_into<T>(w: &mut Vec<u8>, v: &T) -> (r: Result<(), CodecErr>)
  ensures
    r is Ok <==> serializable(*v),
    r is Ok ==> final(w)@ == old(w)@ + ser(*v),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_b64_encode(b: &Vec<u8>) -> (r: String)
  ensures r@ == b64(b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_b64_decode(s: String) -> (r: Result<Vec<u8>, CodecErr>)
  ensures
    r is Ok <==> unb64(s@) is Some,
    r is Ok ==> r->Ok_0@ == unb64(s@)->Some_0,
{ unimplemented!() }
// Decoding from a slice bounds every length by what is left of the slice. Decoding from a reader
// allocates whatever length the data claims first, so it may only be given data whose lengths are known sane.
#[verifier::external_body]
pub fn vx_deserialize<T>(b: &[u8]) -> (r: Result<T, CodecErr>)
  ensures
    r is Ok <==> deser::<T>(b@) is Some,
    r is Ok ==> r->Ok_0 == deser::<T>(b@)->Some_0,
{ unimplemented!() }
pub uninterp spec fn lengths_sane(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn vx_deserialize_from<T>(b: &[u8]) -> (r: Result<T, CodecErr>)
  requires lengths_sane(b@),
  ensures
    r is Ok <==> deser::<T>(b@) is Some,
    r is Ok ==> r->Ok_0 == deser::<T>(b@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_full<T>(b: &Vec<T>) -> (r: &[T])
  ensures r@ == b@,
{ &b[..] }
pub trait Storable {}
impl Storable for String {}
// What a key holds, decoded: None when absent or not decodable.
pub open spec fn dec<T>(s: Seq<char>) -> Option<T> {
  match unb64(s) { None => None, Some(b) => deser::<T>(b) }
}
pub open spec fn held<T>(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> Option<T> {
  if m.dom().contains(k) { dec::<T>(m[k]) } else { None }
}
@type_rule Box<dyn Storage + Sync + Send> => DynStorage
@type_rule std::marker::PhantomData<__T> => Ghost<Option<__T>>
@type_rule Arc<Store> => Store
@type_rule Arc<bd_key_value::Store> => Store
@type_rule bd_key_value::Store => Store
@rule std::marker::PhantomData => Ghost(None)
@rule bincode::serialize_into(&mut __w, __v) => vx_serialize_into(&mut __w, __v)
@rule base64::engine::general_purpose::STANDARD.encode(&__b) => vx_b64_encode(&__b)
@rule base64::engine::general_purpose::STANDARD.decode(__b) => vx_b64_decode(__b)
@rule bincode::deserialize(&__b[..]) => vx_deserialize(vx_full(&__b))
@rule bincode::deserialize(&__b) => vx_deserialize(vx_full(&__b))
@rule bincode::deserialize_from(&__b[..]) => vx_deserialize_from(vx_full(&__b))
@rule bincode::deserialize_from(&__b) => vx_deserialize_from(vx_full(&__b))
@type bd-key-value/src/lib.rs Store
@type bd-key-value/src/lib.rs Key
@fn bd-key-value/src/lib.rs Key::new
@impl impl<T: Storable> Key<T>
@spec
  ensures r.key@ == key@,
@fn bd-key-value/src/lib.rs Key::key
@impl impl<T: Storable> Key<T>
@spec
  ensures r@ == self.key@,
@fn bd-key-value/src/lib.rs Store::set_internal
@self mut
@spec
  ensures
    final(self).storage.reliable() == old(self).storage.reliable(),
    r is Ok ==> serializable(*value) && final(self).storage@ == old(self).storage@.insert(key.key@, b64(ser(*value))),
    r is Ok ==> held::<T>(final(self).storage@, key.key@) == Some(*value),
    r is Err ==> final(self).storage@ == old(self).storage@,
    old(self).storage.reliable() && serializable(*value) ==> r is Ok,
@entry
  broadcast use ax_ser, ax_b64;
@after bincode::serialize_into(__w, __v)
  assert(Seq::<u8>::empty() + ser(*value) =~= ser(*value));
@fn bd-key-value/src/lib.rs Store::get_internal
@self mut
@spec
  ensures
    final(self).storage.reliable() == old(self).storage.reliable(),
    final(self).storage@ == old(self).storage@,
    r is Ok ==> r->Ok_0 == held::<T>(old(self).storage@, key.key@),
    r is Ok && r->Ok_0 is None ==> !old(self).storage@.dom().contains(key.key@),
    old(self).storage.reliable() && (old(self).storage@.dom().contains(key.key@) ==> held::<T>(old(self).storage@, key.key@) is Some) ==> r is Ok,
@fn bd-key-value/src/lib.rs Store::set
@self mut
@spec
  ensures
    final(self).storage.reliable() == old(self).storage.reliable(),
    final(self).storage@ == old(self).storage@ || (serializable(*value) && final(self).storage@ == old(self).storage@.insert(key.key@, b64(ser(*value)))),
    old(self).storage.reliable() && serializable(*value) ==> final(self).storage@ == old(self).storage@.insert(key.key@, b64(ser(*value))),
    old(self).storage.reliable() && serializable(*value) ==> held::<T>(final(self).storage@, key.key@) == Some(*value),
@entry
  broadcast use ax_ser, ax_b64;
@fn bd-key-value/src/lib.rs Store::get
@self mut
@spec
  ensures
    final(self).storage.reliable() == old(self).storage.reliable(),
    // the value held, or nothing; never another one
    r is Some ==> r == held::<T>(old(self).storage@, key.key@),
    old(self).storage.reliable() ==> r == held::<T>(old(self).storage@, key.key@),
    // a readable entry stays; one that cannot be decoded or read is removed; nothing else changes
    r is Some ==> final(self).storage@ == old(self).storage@,
    final(self).storage@ == old(self).storage@ || final(self).storage@ == old(self).storage@.remove(key.key@),
    old(self).storage.reliable() && r is None ==> final(self).storage@ == old(self).storage@.remove(key.key@),
@text
// Keys do not affect each other, and a stored value reads back until the key is written again.
pub proof fn lemma_keys_independent<T>(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, j: Seq<char>, v: Seq<char>)
  requires j != k,
  ensures
    held::<T>(m.insert(k, v), j) == held::<T>(m, j),
    held::<T>(m.remove(k), j) == held::<T>(m, j),
{}
