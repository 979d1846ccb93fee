@include prelude.inc
@include iter.inc
@text
use std::cmp::Ordering;
// ---- Strings: splitting, parsing, and the standard order of str.
pub uninterp spec fn dec(n: u32) -> Seq<char>;
pub uninterp spec fn parse_u32(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
// std: the order of str is total.
#[verifier::external_body]
pub proof fn axiom_str_ord(a: Seq<char>, b: Seq<char>)
  ensures str_ord(a, b) == flip(str_ord(b, a)), str_ord(a, b) == Ordering::Equal <==> a == b,
{}
pub open spec fn flip(o: Ordering) -> Ordering {
  match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
impl VxString for u32 {
  open spec fn text(&self) -> Seq<char> { dec(*self) }
  #[verifier::external_body]
  fn vx_string(&self) -> (r: String) { self.to_string() }
}
pub trait VxCmp {
  spec fn ord(&self, o: &Self) -> Ordering;
  fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.ord(o);
}
pub open spec fn u32_ord(a: u32, b: u32) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl VxCmp for u32 {
  open spec fn ord(&self, o: &Self) -> Ordering { u32_ord(*self, *o) }
  #[verifier::external_body]
  fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp for String {
  open spec fn ord(&self, o: &Self) -> Ordering { str_ord(self@, o@) }
  #[verifier::external_body]
  fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
#[verifier::external_body]
pub fn vx_ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { a == b }
#[verifier::external_body]
pub fn vx_parse_u32(s: &str) -> (r: Result<u32, AnyErr>)
  ensures r is Ok <==> parse_u32(s@) is Some, r is Ok ==> parse_u32(s@) == Some(r->Ok_0),
{ s.parse::<u32>().map_err(|_| AnyErr {}) }
// The part before the first c, and after it if there is one.
pub uninterp spec fn before(s: Seq<char>, c: char) -> Seq<char>;
pub uninterp spec fn after(s: Seq<char>, c: char) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_split_once(s: &str, c: char) -> (r: Option<(&str, &str)>)
  ensures
    r is Some <==> after(s@, c) is Some,
    r is Some ==> r->Some_0.0@ == before(s@, c) && after(s@, c) == Some(r->Some_0.1@),
    r is None ==> before(s@, c) == s@,
{ s.split_once(c) }
pub uninterp spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_split(s: &str, c: char) -> (r: Vec<&str>)
  ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i],
{ s.split(c).collect() }
// ---- itertools' zip_longest.
pub mod itertools {
  use super::*;
  pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
}
pub open spec fn zipped<'a, T>(a: Seq<T>, b: Seq<T>, i: int) -> itertools::EitherOrBoth<&'a T, &'a T> {
  if i < a.len() && i < b.len() { itertools::EitherOrBoth::Both(&a[i], &b[i]) }
  else if i < a.len() { itertools::EitherOrBoth::Left(&a[i]) } else { itertools::EitherOrBoth::Right(&b[i]) }
}
pub open spec fn max(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub open spec fn zip_all<'a, T>(a: Seq<T>, b: Seq<T>) -> Seq<itertools::EitherOrBoth<&'a T, &'a T>> { Seq::new(max(a.len(), b.len()), |i: int| zipped(a, b, i)) }
#[verifier::external_body]
pub fn vx_zip_longest<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: VxIter<itertools::EitherOrBoth<&'a T, &'a T>>)
  ensures r.rest() == zip_all(a@, b@),
{ unimplemented!() }
// ---- Regular expressions.
#[verifier::external_body]
pub struct Regex {}
impl Regex {
  pub uninterp spec fn hits(&self, s: Seq<char>) -> bool;
  #[verifier::external_body]
  pub fn new(s: &str) -> Result<Regex, AnyErr> { unimplemented!() }
  #[verifier::external_body]
  pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.hits(s@) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum Operator { OPERATOR_UNSPECIFIED, OPERATOR_LESS_THAN, OPERATOR_LESS_THAN_OR_EQUAL, OPERATOR_EQUALS, OPERATOR_GREATER_THAN, OPERATOR_GREATER_THAN_OR_EQUAL, OPERATOR_NOT_EQUALS, OPERATOR_REGEX }

@type_rule Result<__T> => Result<__T, AnyErr>
@rule __a == Ordering::Less => vx_ord_eq(__a, Ordering::Less)
@rule __a == Ordering::Equal => vx_ord_eq(__a, Ordering::Equal)
@rule __a == Ordering::Greater => vx_ord_eq(__a, Ordering::Greater)
@rule __a != Ordering::Equal => !vx_ord_eq(__a, Ordering::Equal)
@rule __a != Ordering::Less => !vx_ord_eq(__a, Ordering::Less)
@rule __a != Ordering::Greater => !vx_ord_eq(__a, Ordering::Greater)
@rule __s.parse::<u32>() => vx_parse_u32(__s)
@rule __x.map_or_else(|__e| __d, Self::Int) => match __x { Ok(vx_v) => Self::Int(vx_v), Err(__e) => __d }
@rule __s.split_once(__c) => vx_split_once(__s, __c)
@rule __x.map(|(__s, __f)| __e).unwrap_or(__d) => match __x { Some((__s, __f)) => __e, None => __d }
@rule __s.split(__c).map(VersionSegment::from_str).collect() => vx_segments(__s, __c)
@rule vx_into_iter(__a.iter().zip_longest(__b.iter())) => vx_zip_longest(&__a, &__b)
@type bd-log-matcher/src/version.rs VersionSegment
@derive Clone
@type bd-log-matcher/src/version.rs Version
@type bd-log-matcher/src/version.rs SimpleComparator
@derive Clone
@type bd-log-matcher/src/version.rs VersionMatch
@text
// ---- The one ordering.
pub open spec fn seg_of(s: Seq<char>, g: VersionSegment) -> bool {
  match parse_u32(s) { Some(n) => g == VersionSegment::Int(n), None => match g { VersionSegment::String(t) => t@ == s, _ => false } }
}
pub open spec fn seg_ord(a: VersionSegment, b: VersionSegment) -> Ordering {
  match (a, b) {
    (VersionSegment::Int(x), VersionSegment::Int(y)) => u32_ord(x, y),
    (VersionSegment::String(x), VersionSegment::String(y)) => str_ord(x@, y@),
    (VersionSegment::String(x), VersionSegment::Int(y)) => str_ord(x@, dec(y)),
    (VersionSegment::Int(x), VersionSegment::String(y)) => str_ord(dec(x), y@),
  }
}
pub open spec fn pad(s: Seq<VersionSegment>, i: int) -> VersionSegment { if i < s.len() { s[i] } else { VersionSegment::Int(0) } }
pub open spec fn ver_from(a: Seq<VersionSegment>, b: Seq<VersionSegment>, i: int) -> Ordering
  decreases max(a.len(), b.len()) - i,
{
  if i < 0 || i >= max(a.len(), b.len()) { Ordering::Equal }
  else if seg_ord(pad(a, i), pad(b, i)) != Ordering::Equal { seg_ord(pad(a, i), pad(b, i)) }
  else { ver_from(a, b, i + 1) }
}
pub open spec fn ver_ord(a: Seq<VersionSegment>, b: Seq<VersionSegment>) -> Ordering { ver_from(a, b, 0) }
pub open spec fn core(s: Seq<char>) -> Seq<char> { before(before(s, '-'), '+') }
pub open spec fn is_version(s: Seq<char>, v: Seq<VersionSegment>) -> bool {
  v.len() == pieces(core(s), '.').len() && forall|i: int| 0 <= i < v.len() ==> seg_of(pieces(core(s), '.')[i], #[trigger] v[i])
}
pub open spec fn holds(op: SimpleComparator, o: Ordering) -> bool {
  match op {
    SimpleComparator::LessThan => o == Ordering::Less,
    SimpleComparator::LessThanOrEqual => o != Ordering::Greater,
    SimpleComparator::GreaterThan => o == Ordering::Greater,
    SimpleComparator::GreaterThanOrEqual => o != Ordering::Less,
    SimpleComparator::NotEquals => o != Ordering::Equal,
    SimpleComparator::Equals => o == Ordering::Equal,
  }
}
pub open spec fn op_of(o: Operator) -> Option<SimpleComparator> {
  match o {
    Operator::OPERATOR_LESS_THAN => Some(SimpleComparator::LessThan),
    Operator::OPERATOR_LESS_THAN_OR_EQUAL => Some(SimpleComparator::LessThanOrEqual),
    Operator::OPERATOR_GREATER_THAN => Some(SimpleComparator::GreaterThan),
    Operator::OPERATOR_GREATER_THAN_OR_EQUAL => Some(SimpleComparator::GreaterThanOrEqual),
    Operator::OPERATOR_NOT_EQUALS => Some(SimpleComparator::NotEquals),
    Operator::OPERATOR_EQUALS => Some(SimpleComparator::Equals),
    _ => None,
  }
}
pub open spec fn numeric(s: Seq<VersionSegment>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Int }
// Swapping the operands reverses the result, for all versions; equality is symmetric.
pub proof fn lemma_swap(a: Seq<VersionSegment>, b: Seq<VersionSegment>, i: int)
  ensures ver_from(a, b, i) == flip(ver_from(b, a, i)),
  decreases max(a.len(), b.len()) - i,
{
  if 0 <= i < max(a.len(), b.len()) {
    lemma_seg_swap(pad(a, i), pad(b, i));
    lemma_swap(a, b, i + 1);
  }
}
pub proof fn lemma_seg_swap(a: VersionSegment, b: VersionSegment)
  ensures seg_ord(a, b) == flip(seg_ord(b, a)),
{
  match (a, b) {
    (VersionSegment::Int(x), VersionSegment::Int(y)) => {},
    (VersionSegment::String(x), VersionSegment::String(y)) => axiom_str_ord(x@, y@),
    (VersionSegment::String(x), VersionSegment::Int(y)) => axiom_str_ord(x@, dec(y)),
    (VersionSegment::Int(x), VersionSegment::String(y)) => axiom_str_ord(dec(x), y@),
  }
}
pub open spec fn le(a: Seq<VersionSegment>, b: Seq<VersionSegment>, i: int) -> bool { ver_from(a, b, i) != Ordering::Greater }
// Reading past the end changes nothing.
pub proof fn lemma_pad_end(a: Seq<VersionSegment>, b: Seq<VersionSegment>, i: int)
  requires numeric(a), numeric(b), i >= 0,
  ensures
    seg_ord(pad(a, i), pad(b, i)) != Ordering::Equal ==> ver_from(a, b, i) == seg_ord(pad(a, i), pad(b, i)),
    seg_ord(pad(a, i), pad(b, i)) == Ordering::Equal ==> ver_from(a, b, i) == ver_from(a, b, i + 1),
{}
// For all-numeric versions the ordering is transitive (with lemma_swap: total).
pub proof fn lemma_transitive(a: Seq<VersionSegment>, b: Seq<VersionSegment>, c: Seq<VersionSegment>, i: int)
  requires numeric(a), numeric(b), numeric(c), le(a, b, i), le(b, c, i), i >= 0,
  ensures
    le(a, c, i),
    ver_from(a, b, i) == Ordering::Less || ver_from(b, c, i) == Ordering::Less ==> ver_from(a, c, i) == Ordering::Less,
  decreases max(a.len(), max(b.len(), c.len())) - i,
{
  if i < max(a.len(), max(b.len(), c.len())) {
    lemma_pad_end(a, b, i);
    lemma_pad_end(b, c, i);
    lemma_pad_end(a, c, i);
    assert(pad(a, i) is Int && pad(b, i) is Int && pad(c, i) is Int);
    if seg_ord(pad(a, i), pad(b, i)) == Ordering::Equal && seg_ord(pad(b, i), pad(c, i)) == Ordering::Equal {
      lemma_transitive(a, b, c, i + 1);
    }
  }
}
// A missing trailing component is a zero.
pub proof fn lemma_zero_from(a: Seq<VersionSegment>, b: Seq<VersionSegment>, i: int)
  requires i >= 0,
  ensures ver_from(a.push(VersionSegment::Int(0)), b, i) == ver_from(a, b, i),
  decreases max(a.len(), b.len()) + 1 - i,
{
  let z = a.push(VersionSegment::Int(0));
  if i < max(z.len(), b.len()) {
    assert(pad(z, i) == pad(a, i));
    lemma_zero_from(a, b, i + 1);
  }
}
// Exactly one of <, =, > holds, and the other operators follow from them.
pub proof fn lemma_trichotomy(o: Ordering)
  ensures
    holds(SimpleComparator::LessThan, o) || holds(SimpleComparator::Equals, o) || holds(SimpleComparator::GreaterThan, o),
    !(holds(SimpleComparator::LessThan, o) && holds(SimpleComparator::Equals, o)),
    !(holds(SimpleComparator::LessThan, o) && holds(SimpleComparator::GreaterThan, o)),
    !(holds(SimpleComparator::GreaterThan, o) && holds(SimpleComparator::Equals, o)),
    holds(SimpleComparator::LessThanOrEqual, o) == (holds(SimpleComparator::LessThan, o) || holds(SimpleComparator::Equals, o)),
    holds(SimpleComparator::GreaterThanOrEqual, o) == (holds(SimpleComparator::GreaterThan, o) || holds(SimpleComparator::Equals, o)),
    holds(SimpleComparator::NotEquals, o) == !holds(SimpleComparator::Equals, o),
{}
// s.split(c).map(VersionSegment::from_str).collect()
fn vx_segments(s: &str, c: char) -> (r: Vec<VersionSegment>)
  ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> seg_of(pieces(s@, c)[i], #[trigger] r@[i]),
{
  let v = vx_split(s, c);
  let mut r: Vec<VersionSegment> = Vec::new();
  let mut i: usize = 0;
  while i < v.len()
    invariant i <= v@.len(), r@.len() == i, v@.len() == pieces(s@, c).len(),
      forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j])@ == pieces(s@, c)[j],
      forall|j: int| 0 <= j < i ==> seg_of(pieces(s@, c)[j], #[trigger] r@[j]),
    decreases v@.len() - i,
  {
    r.push(VersionSegment::from_str(v[i]));
    i = i + 1;
  }
  r
}
@fn bd-log-matcher/src/version.rs VersionSegment::from_str
@spec
  ensures seg_of(s@, r),
@fn bd-log-matcher/src/version.rs VersionSegment::cmp
@impl impl VersionSegment
@frule __a.cmp(__b) => __a.vx_cmp(__b)
@spec
  ensures r == seg_ord(*self, *other),
@fn bd-log-matcher/src/version.rs Version::new
@ret r: Version
@spec
  ensures is_version(s@, r.segments@),
@fn bd-log-matcher/src/version.rs Version::cmp
@spec
  ensures r == ver_ord(self.segments@, other.segments@),
@loop 0
  invariant
    vx_it0.rest().len() <= max(self.segments@.len(), other.segments@.len()),
    vx_it0.rest() == zip_all(self.segments@, other.segments@).skip(max(self.segments@.len(), other.segments@.len()) - vx_it0.rest().len()),
    ver_ord(self.segments@, other.segments@) == ver_from(self.segments@, other.segments@, max(self.segments@.len(), other.segments@.len()) - vx_it0.rest().len()),
  ensures
    ver_ord(self.segments@, other.segments@) == Ordering::Equal,
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost n = max(self.segments@.len(), other.segments@.len()) - vx_it0.rest().len();
  proof {
    if vx_it0.rest().len() > 0 {
      assert(zip_all(self.segments@, other.segments@).skip(n)[0] == zipped(self.segments@, other.segments@, n));
      assert(zip_all(self.segments@, other.segments@).skip(n).drop_first() =~= zip_all(self.segments@, other.segments@).skip(n + 1));
    }
  }
@fn bd-log-matcher/src/version.rs SimpleComparator::from_operator
@spec
  ensures r is Ok <==> op_of(operator) is Some, r is Ok ==> op_of(operator) == Some(r->Ok_0),
@fn bd-log-matcher/src/version.rs SimpleComparator::compare
@spec
  ensures r == holds(*self, ver_ord(a.segments@, b.segments@)),
@fn bd-log-matcher/src/version.rs VersionMatch::new
@spec
  ensures
    r is Ok && operator != Operator::OPERATOR_REGEX ==> match r->Ok_0 {
      VersionMatch::Comparator(op, v) => op_of(operator) == Some(op) && is_version(value@, v.segments@),
      _ => false,
    },
    operator != Operator::OPERATOR_REGEX ==> (r is Ok <==> op_of(operator) is Some),
@fn bd-log-matcher/src/version.rs VersionMatch::evaluate
@spec
  ensures
    self is Comparator ==> exists|c: Seq<VersionSegment>| #[trigger] is_version(candidate@, c) && r == holds(self->Comparator_0, ver_ord(c, self->Comparator_1.segments@)),
