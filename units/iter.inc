@text
// ---- Iteration over a vector or slice, front to back (the only thing assumed of std's iterators here).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { v: std::vec::IntoIter<T> }
impl<T> VxIter<T> {
  // what is still to come
  pub uninterp spec fn rest(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    ensures
      old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
      old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
  { self.v.next() }
}
pub trait VxIterable: Sized {
  type It;
  spec fn items(&self) -> Seq<Self::It>;
  fn vx_iter(self) -> (r: VxIter<Self::It>)
    ensures r.rest() == self.items();
}
impl<T> VxIterable for Vec<T> {
  type It = T;
  open spec fn items(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<T>) { VxIter { v: self.into_iter() } }
}
impl<T> VxIterable for VxIter<T> {
  type It = T;
  open spec fn items(&self) -> Seq<T> { self.rest() }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<T>) { self }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|t: T| &t) }
impl<'a, T> VxIterable for &'a Vec<T> {
  type It = &'a T;
  open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect::<Vec<_>>().into_iter() } }
}
impl<'a, T> VxIterable for &'a [T] {
  type It = &'a T;
  open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect::<Vec<_>>().into_iter() } }
}
pub open spec fn numbered<'a, T>(s: Seq<T>) -> Seq<(usize, &'a T)> { Seq::new(s.len(), |i: int| (i as usize, &s[i])) }
#[verifier::external_body]
pub fn vx_enumerate<'a, T>(s: &'a [T]) -> (r: VxIter<(usize, &'a T)>)
  ensures r.rest() == numbered(s@), s@.len() <= usize::MAX,
{ VxIter { v: s.iter().enumerate().collect::<Vec<_>>().into_iter() } }
pub fn vx_into_iter<I: VxIterable>(i: I) -> (r: VxIter<I::It>)
  ensures r.rest() == i.items(),
{ i.vx_iter() }
@rule vx_into_iter(__x.iter().enumerate()) => vx_enumerate(&__x)
@rule vx_into_iter(__x.iter()) => vx_into_iter(&__x)
@rule vx_into_iter(__x.into_iter()) => vx_into_iter(__x)
