@text
// ---- Log fields. Keys and values are compared by content.
#[verifier::external_body]
pub struct LogFieldValue {}
impl Clone for LogFieldValue { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@type bd-log-primitives/src/lib.rs LogField
@derive Clone
@text
pub type LogFields = Vec<LogField>;
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
  ensures r == (a@ == b@),
{ a == b }
pub fn vx_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T)
  requires i < old(v)@.len(),
  ensures
    r == old(v)@[i as int],
    final(v)@ == old(v)@.remove(i as int),
    forall|f: T| #[trigger] final(v)@.contains(f) ==> old(v)@.contains(f),
    forall|f: T| f != r && #[trigger] old(v)@.contains(f) ==> final(v)@.contains(f),
{
  let ghost s = v@;
  let r = v.remove(i);
  proof {
    assert forall|f: T| #[trigger] v@.contains(f) implies s.contains(f) by {
      let j = choose|j: int| 0 <= j < v@.len() && v@[j] == f;
      assert(s[if j < i { j } else { j + 1 }] == f);
    }
    assert forall|f: T| f != r && #[trigger] s.contains(f) implies v@.contains(f) by {
      let j = choose|j: int| 0 <= j < s.len() && s[j] == f;
      assert(v@[if j < i { j } else { j - 1 }] == f);
    }
  }
  r
}
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, f: T)
  ensures #[trigger] s.push(x).contains(f) <==> s.contains(f) || f == x,
{
  if s.contains(f) {
    let j = choose|j: int| 0 <= j < s.len() && s[j] == f;
    assert(s.push(x)[j] == f);
  }
  assert(s.push(x)[s.len() as int] == x);
  if s.push(x).contains(f) && f != x {
    let j = choose|j: int| 0 <= j < s.push(x).len() && s.push(x)[j] == f;
    assert(s[j] == f);
  }
}
// std's Iterator::position over a list of fields, by key.
pub open spec fn has_key(s: Seq<LogField>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key@ == k }
pub open spec fn first_at(s: Seq<LogField>, k: Seq<char>, i: int) -> bool {
  0 <= i < s.len() && s[i].key@ == k && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).key@ != k
}
pub fn vx_position(v: &Vec<LogField>, k: &str) -> (r: Option<usize>)
  ensures
    r is Some <==> has_key(v@, k@),
    r is Some ==> first_at(v@, k@, r->Some_0 as int),
{
  let mut i: usize = 0;
  while i < v.len()
    invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).key@ != k@,
    decreases v@.len() - i,
  {
    if vx_str_eq(&v[i].key, k) {
      assert(first_at(v@, k@, i as int));
      return Some(i);
    }
    i = i + 1;
  }
  None
}
