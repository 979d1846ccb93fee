// Builders for conditions of bd-log-matcher and logs.
#![allow(dead_code)]
use bd_log_primitives::{LogField, LogFields, StringOrBytes};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::tag_match::Value_match;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::{self as b, Match_type, Operator};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use protobuf::MessageField;

pub type Op = Operator;
pub const CMP: [Op; 6] = [Op::OPERATOR_LESS_THAN, Op::OPERATOR_LESS_THAN_OR_EQUAL, Op::OPERATOR_EQUALS, Op::OPERATOR_GREATER_THAN, Op::OPERATOR_GREATER_THAN_OR_EQUAL, Op::OPERATOR_NOT_EQUALS];
pub fn cmp_holds(op: Op, o: std::cmp::Ordering) -> bool {
  match op {
    Op::OPERATOR_LESS_THAN => o.is_lt(),
    Op::OPERATOR_LESS_THAN_OR_EQUAL => o.is_le(),
    Op::OPERATOR_EQUALS => o.is_eq(),
    Op::OPERATOR_GREATER_THAN => o.is_gt(),
    Op::OPERATOR_GREATER_THAN_OR_EQUAL => o.is_ge(),
    Op::OPERATOR_NOT_EQUALS => o.is_ne(),
    _ => false,
  }
}
pub fn base(m: Match_type) -> LogMatcher {
  LogMatcher { matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })), ..Default::default() }
}
pub fn tag(key: &str, v: Value_match) -> LogMatcher {
  base(Match_type::TagMatch(b::TagMatch { tag_key: key.into(), value_match: Some(v), ..Default::default() }))
}
pub fn message(op: Op, v: &str) -> LogMatcher {
  base(Match_type::MessageMatch(b::MessageMatch { string_value_match: MessageField::some(b::StringValueMatch { operator: op.into(), match_value: v.into(), ..Default::default() }), ..Default::default() }))
}
pub fn tag_str(key: &str, op: Op, v: &str) -> LogMatcher {
  tag(key, Value_match::StringValueMatch(b::StringValueMatch { operator: op.into(), match_value: v.into(), ..Default::default() }))
}
pub fn tag_ver(key: &str, op: Op, v: &str) -> LogMatcher {
  tag(key, Value_match::SemVerValueMatch(b::SemVerValueMatch { operator: op.into(), match_value: v.into(), ..Default::default() }))
}
pub fn tag_int(key: &str, op: Op, v: i32) -> LogMatcher {
  tag(key, Value_match::IntValueMatch(b::IntValueMatch { operator: op.into(), match_value: v, ..Default::default() }))
}
pub fn tag_set(key: &str) -> LogMatcher { tag(key, Value_match::IsSetMatch(b::IsSetMatch::default())) }
pub fn or(v: Vec<LogMatcher>) -> LogMatcher { LogMatcher { matcher: Some(Matcher::OrMatcher(MatcherList { log_matchers: v, ..Default::default() })), ..Default::default() } }
pub fn and(v: Vec<LogMatcher>) -> LogMatcher { LogMatcher { matcher: Some(Matcher::AndMatcher(MatcherList { log_matchers: v, ..Default::default() })), ..Default::default() } }
pub fn not(v: LogMatcher) -> LogMatcher { LogMatcher { matcher: Some(Matcher::NotMatcher(Box::new(v))), ..Default::default() } }
pub fn field(k: &str, v: &str) -> LogField { LogField { key: k.into(), value: StringOrBytes::String(v.into()) } }
pub fn bytes_field(k: &str, v: &[u8]) -> LogField { LogField { key: k.into(), value: StringOrBytes::Bytes(v.to_vec()) } }
pub fn none() -> LogFields { vec![] }
