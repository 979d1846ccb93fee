@text
// ---- Trusted model of std's HashMap/BTreeMap with string keys: a finite map from the key's characters.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct VMap<V> { m: std::collections::HashMap<String, V> }
impl<V> VMap<V> {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self)
    ensures r@ == Map::<Seq<char>, V>::empty(),
  { unimplemented!() }
  // std's extend: later entries win.
  #[verifier::external_body]
  pub fn extend(&mut self, o: Self)
    ensures final(self)@ == old(self)@.union_prefer_right(o@),
  { unimplemented!() }
  // into_iter().collect() into another map type: the same entries.
  #[verifier::external_body]
  pub fn same_entries(self) -> (r: Self)
    ensures r@ == self@,
  { self }
  #[verifier::external_body]
  pub fn get(&self, k: &str) -> (r: Option<&V>)
    ensures
      r is Some <==> self@.dom().contains(k@),
      r is Some ==> *r->Some_0 == self@[k@],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &str) -> (r: bool)
    ensures r <==> self@.dom().contains(k@),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.insert(k@, v),
      r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None::<V> }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &str) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.remove(k@),
      r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None::<V> }),
  { unimplemented!() }
}
impl<V> Clone for VMap<V> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@type_rule BTreeMap<String, __V> => VMap<__V>
@rule __m.into_iter().collect() => __m.same_entries()
@type_rule HashMap<String, __V> => VMap<__V>
@type_rule std::collections::HashMap<String, __V> => VMap<__V>
@rule HashMap::new() => VMap::new()
