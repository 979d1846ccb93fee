@include prelude.inc
@include iter.inc
@text
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
  ensures r == (a@ == b@),
{ a == b }
pub uninterp spec fn dec(n: u32) -> Seq<char>;
impl VxString for u32 {
  open spec fn text(&self) -> Seq<char> { dec(*self) }
  #[verifier::external_body]
  fn vx_string(&self) -> (r: String) { self.to_string() }
}
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
  pub open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
  pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => s.as_str() } }
}
pub open spec fn txt(o: Option<Cow>) -> Option<Seq<char>> { match o { Some(c) => Some(c@), None => None } }
pub open spec fn stxt(o: Option<&str>) -> Option<Seq<char>> { match o { Some(c) => Some(c@), None => None } }
#[derive(Clone, Copy)]
pub struct LogType(pub u32);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct OffsetDateTime {}
@type_rule Cow<'a, str> => Cow<'a>
@type_rule Cow<'_, str> => Cow<'_>
@type_rule time::OffsetDateTime => OffsetDateTime
@type_rule StringOrBytes<String, Vec<u8>> => StringOrBytes
@type bd-log-primitives/src/lib.rs LOG_FIELD_NAME_TYPE
@type bd-log-primitives/src/lib.rs LOG_FIELD_NAME_LEVEL
@type bd-log-primitives/src/lib.rs LogLevel
@type_rule S => String
@type_rule B => Vec<u8>
@type bd-log-primitives/src/lib.rs StringOrBytes
@nogenerics
@text
pub type LogFieldValue = StringOrBytes;
pub type LogMessage = StringOrBytes;
@type bd-log-primitives/src/lib.rs LogField
@text
pub type LogFields = Vec<LogField>;
@type bd-log-primitives/src/lib.rs FieldsRef
@type bd-log-primitives/src/lib.rs LogRef
@text
pub open spec fn value_text(v: LogFieldValue) -> Option<Seq<char>> { match v { StringOrBytes::String(s) => Some(s@), StringOrBytes::Bytes(_) => None } }
// The first field of that name.
pub open spec fn first(s: Seq<LogField>, k: Seq<char>) -> Option<LogField>
  decreases s.len(),
{ if s.len() == 0 { None } else if s[0].key@ == k { Some(s[0]) } else { first(s.drop_first(), k) } }
pub open spec fn first_text(s: Seq<LogField>, k: Seq<char>) -> Option<Seq<char>> { match first(s, k) { Some(f) => value_text(f.value), None => None } }
// std's find over a list of fields, by name.
pub fn vx_find<'a>(v: &'a Vec<LogField>, k: &str) -> (r: Option<&'a LogField>)
  ensures r is Some <==> first(v@, k@) is Some, r is Some ==> *r->Some_0 == first(v@, k@)->Some_0,
{
  let mut i: usize = 0;
  assert(v@.skip(0) =~= v@);
  while i < v.len()
    invariant i <= v@.len(), first(v@, k@) == first(v@.skip(i as int), k@),
    decreases v@.len() - i,
  {
    proof { assert(v@.skip(i as int)[0] == v@[i as int]); assert(v@.skip(i as int).drop_first() =~= v@.skip(i + 1)); }
    if vx_str_eq(&v[i].key, k) { return Some(&v[i]); }
    i = i + 1;
  }
  assert(v@.skip(i as int).len() == 0);
  None
}
@rule __v.iter().find(|__f| __f.key == __k) => vx_find(&__v, __k)
@rule __v.iter().find_map(|__f| (__f.key == __k).then(|| __b)).flatten() => match vx_find(&__v, __k) { Some(__f) => __b, None => None }
@rule __v.iter().find_map(|__f| (__f.key == __k).then(|| __b)) => match vx_find(&__v, __k) { Some(__f) => Some(__b), None => None }
@rule __x.map(Cow::Borrowed) => match __x { Some(vx_v) => Some(Cow::Borrowed(vx_v)), None => None }
@rule __x.map(Into::into) => __x
