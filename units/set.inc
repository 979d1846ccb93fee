@text
// ---- std's BTreeSet: a finite set. Iteration (in order, which no contract depends on) gives every element once.
pub mod setax {
use vstd::prelude::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VSet<T> { v: Vec<T> }
impl<T> VSet<T> {
  pub uninterp spec fn view(&self) -> Set<T>;
  // the set of given elements, as a value: a set is its elements
  pub uninterp spec fn mk(s: Set<T>) -> Self;
  pub uninterp spec fn order(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty(), { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k), { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()), { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k), { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k), { unimplemented!() }
  #[verifier::external_body]
  pub fn append(&mut self, o: &mut Self) ensures final(self)@ == old(self)@.union(old(o)@), final(o)@ == Set::<T>::empty(), { unimplemented!() }
  #[verifier::external_body]
  pub fn is_disjoint(&self, o: &Self) -> (r: bool) ensures r == self@.disjoint(o@), { unimplemented!() }
  #[verifier::external_body]
  pub fn is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@), { unimplemented!() }
  #[verifier::external_body]
  pub fn first(&self) -> (r: Option<&T>) ensures r is None <==> self@ == Set::<T>::empty(), r is Some ==> self@.contains(*r->Some_0) && *r->Some_0 == self.order()[0], { unimplemented!() }
  // a.intersection(b).cloned().collect()
  #[verifier::external_body]
  pub fn vx_and(&self, o: &Self) -> (r: Self) ensures r@ == self@.intersect(o@), { unimplemented!() }
  // a.extend(b.iter().cloned())
  #[verifier::external_body]
  pub fn vx_or(&mut self, o: &Self) ensures final(self)@ == old(self)@.union(o@), { unimplemented!() }
  // a.retain(|x| !b.contains(x))
  #[verifier::external_body]
  pub fn vx_minus(&mut self, o: &Self) ensures final(self)@ == old(self)@.difference(o@), { unimplemented!() }
  // BTreeSet::from([x])
  #[verifier::external_body]
  pub fn vx_one(x: T) -> (r: Self) ensures r@ == Set::<T>::empty().insert(x), { unimplemented!() }
}
pub open spec fn lists<T>(l: Seq<T>, s: Set<T>) -> bool { &&& l.no_duplicates() &&& forall|x: T| #![trigger s.contains(x)] #![trigger l.contains(x)] s.contains(x) <==> l.contains(x) }
#[verifier::external_body]
pub broadcast proof fn axiom_set_value<T>(s: VSet<T>)
  ensures #[trigger] VSet::mk(s@) == s,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_set_mk<T>(s: Set<T>)
  ensures (#[trigger] VSet::mk(s))@ == s,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_set_same<T>(a: VSet<T>, b: VSet<T>)
  ensures (#[trigger] a@) =~= (#[trigger] b@) ==> a == b,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_set_order<T>(s: VSet<T>)
  ensures lists(#[trigger] s.order(), s@),
{}
}
pub use setax::*;
pub type BTreeSet<T> = VSet<T>;
broadcast use {setax::axiom_set_value, setax::axiom_set_mk, setax::axiom_set_same, setax::axiom_set_order};
impl<T> Clone for VSet<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> VxIterable for VSet<T> {
  type It = T;
  open spec fn items(&self) -> Seq<T> { self.order() }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> VxIterable for &'a VSet<T> {
  type It = &'a T;
  open spec fn items(&self) -> Seq<&'a T> { refs(self.order()) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
@type_rule BTreeSet<__T> => VSet<__T>
@rule BTreeSet::new() => VSet::new()
@rule BTreeSet::from([__x]) => VSet::vx_one(__x)
@rule __a.extend(__b.iter().cloned()) => __a.vx_or(&__b)
@rule __a.intersection(&__b).cloned().collect() => __a.vx_and(&__b)
@rule __a.intersection(__b).collect() => __a.vx_and(__b)
@rule __a.retain(|id| !__b.contains(id)) => __a.vx_minus(&__b)
