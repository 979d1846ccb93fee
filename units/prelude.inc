@text
// ---- Declarations every unit shares. Reaching an extracted panic!/unreachable! is a failed obligation.
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !)
  requires false,
{ loop {} }
// A clone equals the original.
pub trait VxClone: Sized {
  fn vx_clone(&self) -> (r: Self)
    ensures r == *self;
}
impl<T: Clone> VxClone for T {
  #[verifier::external_body]
  fn vx_clone(&self) -> (r: Self) { self.clone() }
}
pub trait VxString {
  spec fn text(&self) -> Seq<char>;
  fn vx_string(&self) -> (r: String)
    ensures r@ == self.text();
}
impl VxString for str {
  open spec fn text(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_string(&self) -> (r: String) { self.to_string() }
}
impl VxString for String {
  open spec fn text(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_string(&self) -> (r: String) { self.to_string() }
}
// Display of strings and numbers, as format! joins them.
pub trait VxShow {
  spec fn shown(&self) -> Seq<char>;
  fn vx_show(&self, s: String) -> (r: String)
    ensures r@ == s@ + self.shown();
}
impl VxShow for str {
  open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_show(&self, s: String) -> (r: String) { s + self }
}
impl VxShow for String {
  open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_show(&self, s: String) -> (r: String) { s + self }
}
impl<T: VxShow + ?Sized> VxShow for &T {
  open spec fn shown(&self) -> Seq<char> { (**self).shown() }
  #[verifier::external_body]
  fn vx_show(&self, s: String) -> (r: String) { (**self).vx_show(s) }
}
pub fn vx_cat<T: VxShow + ?Sized>(s: String, t: &T) -> (r: String)
  ensures r@ == s@ + t.shown(),
{ t.vx_show(s) }
#[verifier::external_body]
pub fn vx_vec_n<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
  ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ vec![x; n] }
// An error value, whatever it says.
#[verifier::external_body]
#[derive(Debug)]
pub struct AnyErr {}
#[verifier::external_body]
pub fn vx_err() -> (r: AnyErr) { AnyErr {} }
@type_rule anyhow::Result<__T> => Result<__T, AnyErr>
@type_rule anyhow::Error => AnyErr
@rule __x.clone() => __x.vx_clone()
@rule __x.to_string() => __x.vx_string()
@rule __x.to_owned() => __x.vx_string()
//@ Combinators by their definition.
@rule __x.map_or(__d, |__p| __b) => match __x { Some(__p) => __b, None => __d }
@rule __x.map_or_else(|| __d, |__p| __b) => match __x { Some(__p) => __b, None => __d }
@rule __x.map_or_else(|__e| __d, |__p| __b) => match __x { Ok(__p) => __b, Err(__e) => __d }
@rule __x.unwrap_or_else(|| __d) => match __x { Some(vx_v) => vx_v, None => __d }
@rule __x.unwrap_or_else(|__e| __d) => match __x { Ok(vx_v) => vx_v, Err(__e) => __d }
@rule __x.map_err(|__e| __b) => match __x { Ok(vx_v) => Ok(vx_v), Err(__e) => Err(__b) }
@rule __x.and_then(|__p| __b) => match __x { Some(__p) => __b, None => None }
@rule __x.is_some_and(|__p| __b) => match __x { Some(__p) => __b, None => false }
@rule __x.is_none_or(|__p| __b) => match __x { Some(__p) => __b, None => true }
@rule __x.ok() => match __x { Ok(vx_v) => Some(vx_v), Err(vx_e) => None }
@rule __x.flatten() => match __x { Some(vx_v) => vx_v, None => None }
@rule __x.or_else(|| __d) => match __x { Some(vx_v) => Some(vx_v), None => __d }
