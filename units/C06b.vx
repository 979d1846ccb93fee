@include match.inc
@text
#[derive(Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum Operator { OPERATOR_UNSPECIFIED, OPERATOR_LESS_THAN, OPERATOR_LESS_THAN_OR_EQUAL, OPERATOR_EQUALS, OPERATOR_GREATER_THAN, OPERATOR_GREATER_THAN_OR_EQUAL, OPERATOR_NOT_EQUALS, OPERATOR_REGEX }
// std's order of strings; only that equality is its zero is used.
pub uninterp spec fn order(a: Seq<char>, b: Seq<char>) -> int;
#[verifier::external_body]
pub fn vx_str_cmp(a: &str, b: &str) -> (r: i32)
  ensures r == order(a@, b@), r == 0 <==> a@ == b@,
{ match a.cmp(b) { core::cmp::Ordering::Less => -1, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 } }
// A field read as a number, cut down to an i32; None when it is not a number. (The source has a Result whose
// error it drops.)
pub uninterp spec fn number(s: Seq<char>) -> Option<i32>;
#[verifier::external_body]
pub fn vx_number(s: &str) -> (r: Option<i32>)
  ensures r == number(s@),
{ match s.parse::<f64>() { Ok(v) => Some(v as i32), Err(_) => None } }
pub fn vx_i32(v: u32) -> (r: Option<i32>)
  ensures v <= i32::MAX ==> r == Some(v as i32), v > i32::MAX ==> r is None,
{ if v <= i32::MAX as u32 { Some(v as i32) } else { None } }
// The order of versions is C05's.
#[verifier::external_body]
pub struct VersionMatch {}
impl VersionMatch {
  pub uninterp spec fn sat(&self, s: Seq<char>) -> bool;
  #[verifier::external_body]
  pub fn evaluate(&self, candidate: &str) -> (r: bool) ensures r == self.sat(candidate@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_regex(s: &str) -> (r: Result<Regex, AnyErr>)
  ensures r is Ok ==> r->Ok_0 == regex_of(s@),
{ unimplemented!() }
pub uninterp spec fn regex_of(s: Seq<char>) -> Regex;
@type_rule version::VersionMatch => VersionMatch
@type_rule Result<__T> => Result<__T, AnyErr>
@rule __x.try_into() => vx_i32(__x)
@rule __x.parse::<f64>() => vx_number(__x.as_ref())
@rule __v as i32 => __v
@rule Regex::new(__x) => vx_regex(__x)
@rule anyhow::Error::new(__e).context(__c) => vx_err()
@macro anyhow => expr vx_err()
@type bd-log-matcher/src/matcher.rs IntMatch
@type bd-log-matcher/src/matcher.rs StringMatch
@type bd-log-matcher/src/matcher.rs InputType
@type bd-log-matcher/src/matcher.rs Leaf
@type bd-log-matcher/src/matcher.rs Tree
@text
pub open spec fn int_holds(i: IntMatch, v: i32) -> bool {
  match i.operator {
    Operator::OPERATOR_UNSPECIFIED => false,
    Operator::OPERATOR_LESS_THAN => v < i.value,
    Operator::OPERATOR_LESS_THAN_OR_EQUAL => v <= i.value,
    Operator::OPERATOR_EQUALS | Operator::OPERATOR_REGEX => v == i.value,
    Operator::OPERATOR_GREATER_THAN => v > i.value,
    Operator::OPERATOR_GREATER_THAN_OR_EQUAL => v >= i.value,
    Operator::OPERATOR_NOT_EQUALS => v != i.value,
  }
}
pub open spec fn str_holds(m: StringMatch, c: Seq<char>) -> bool {
  match m.operator {
    Operator::OPERATOR_UNSPECIFIED => false,
    Operator::OPERATOR_LESS_THAN => order(c, m.value@) < 0,
    Operator::OPERATOR_LESS_THAN_OR_EQUAL => order(c, m.value@) <= 0,
    Operator::OPERATOR_EQUALS => c == m.value@,
    Operator::OPERATOR_GREATER_THAN => order(c, m.value@) > 0,
    Operator::OPERATOR_GREATER_THAN_OR_EQUAL => order(c, m.value@) >= 0,
    Operator::OPERATOR_NOT_EQUALS => c != m.value@,
    Operator::OPERATOR_REGEX => regex_of(m.value@).hits(c),
  }
}
// What the constructors establish.
pub open spec fn str_wf(m: StringMatch) -> bool { m.operator is OPERATOR_REGEX ==> m.regex == Some(regex_of(m.value@)) }
pub open spec fn leaf_wf(f: Leaf) -> bool { match f { Leaf::StringValue(_, m) => str_wf(m), _ => true } }
pub open spec fn wf(t: Tree) -> bool
  decreases t,
{
  match t {
    Tree::Base(f) => leaf_wf(f),
    Tree::Or(v) => forall|i: int| 0 <= i < v@.len() ==> wf(#[trigger] v@[i]),
    Tree::And(v) => forall|i: int| 0 <= i < v@.len() ==> wf(#[trigger] v@[i]),
    Tree::Not(b) => wf(*b),
  }
}
pub open spec fn input(i: InputType, l: Log) -> Option<Seq<char>> { match i { InputType::Message => l.msg, InputType::Field(k) => (l.fields)(k@) } }
pub open spec fn leaf_holds(f: Leaf, l: Log) -> bool {
  match f {
    Leaf::LogLevel(i) => l.level <= i32::MAX && int_holds(i, l.level as i32),
    // Missing, binary, or not a number: no match.
    Leaf::IntValue(i, m) => match input(i, l) { Some(c) => match number(c) { Some(v) => int_holds(m, v), None => false }, None => false },
    Leaf::StringValue(i, m) => match input(i, l) { Some(c) => str_holds(m, c), None => false },
    Leaf::VersionValue(i, m) => match input(i, l) { Some(c) => m.sat(c), None => false },
    Leaf::LogType(t) => t == l.kind,
    Leaf::IsSetValue(i) => input(i, l) is Some,
  }
}
pub open spec fn holds(t: Tree, l: Log) -> bool
  decreases t,
{
  match t {
    Tree::Base(f) => leaf_holds(f, l),
    Tree::Or(v) => exists|i: int| 0 <= i < v@.len() && holds(#[trigger] v@[i], l),
    Tree::And(v) => forall|i: int| 0 <= i < v@.len() ==> holds(#[trigger] v@[i], l),
    Tree::Not(b) => !holds(*b, l),
  }
}
@fn bd-log-matcher/src/matcher.rs IntMatch::new
@spec
  ensures
    r is Ok <==> operator != Operator::OPERATOR_REGEX,
    r is Ok ==> r->Ok_0 == (IntMatch { operator, value }),
@fn bd-log-matcher/src/matcher.rs IntMatch::evaluate
@spec
  ensures r == int_holds(*self, candidate),
@fn bd-log-matcher/src/matcher.rs StringMatch::new
@spec
  ensures r is Ok ==> r->Ok_0.operator == operator && r->Ok_0.value@ == value@ && str_wf(r->Ok_0),
@fn bd-log-matcher/src/matcher.rs StringMatch::evaluate
@frule candidate < __x => vx_str_cmp(candidate, __x) < 0
@frule candidate <= __x => vx_str_cmp(candidate, __x) <= 0
@frule candidate > __x => vx_str_cmp(candidate, __x) > 0
@frule candidate >= __x => vx_str_cmp(candidate, __x) >= 0
@frule candidate == __x => vx_str_eq(candidate, __x)
@frule candidate != __x => !vx_str_eq(candidate, __x)
@spec
  requires str_wf(*self),
  ensures r == str_holds(*self, candidate@),
@fn bd-log-matcher/src/matcher.rs InputType::get
@spec
  ensures txt(r) == match *self { InputType::Message => value_text(*message), InputType::Field(k) => fields.value(k@) },
@fn bd-log-matcher/src/matcher.rs Tree::do_match
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
  requires wf(*self),
  ensures r == holds(*self, the_log(log_type, log_level, *message, *fields)),
  decreases *self,
