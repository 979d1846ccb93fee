//! deps: bd-log-matcher bd-matcher bd-log-primitives bd-proto protobuf regex
//! Both real condition trees and the buffer selector; oracle: conditions evaluated by hand.
#[path = "../common/fv.rs"]
mod fv;
#[path = "../common/lm.rs"]
mod lm;
use bd_log_primitives::{FieldsRef, LogFields, LogMessage, LogType};
use bd_matcher::buffer_selector::BufferSelector;
use bd_proto::protos::config::v1::config as cf;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use cf::log_matcher::base_log_matcher as cb;
use cf::log_matcher::base_log_matcher::log_level_match::ComparisonOperator as Cmp;
use fv::*;
use hx::{eq, Hx, Rng};
use lm::*;
use std::collections::BTreeSet;

struct L { level: u32, kind: u32, msg: LogMessage, c: LogFields, m: LogFields }
fn log(r: &mut Rng) -> L {
  let msg = match r.us(6) { 0 => LogMessage::Bytes(b"foo".to_vec()), 1 => LogMessage::String(String::new()), 2 | 3 => LogMessage::String(["foo", "foobar", "bar", "1"][r.us(4)].into()), _ => LogMessage::String(txt(r)) };
  L { level: if r.chance(1, 20) { r.next() as u32 } else { r.us(6) as u32 }, kind: r.us(9) as u32, msg, c: fields(r), m: if r.chance(1, 2) { fields(r) } else { vec![] } }
}
// A condition and what it says about a log.
type Eval = Box<dyn Fn(&L) -> bool>;
fn msg_text(l: &L) -> Option<String> { l.msg.as_str().map(Into::into) }
fn ev(c: &Option<String>, f: impl Fn(&str) -> bool) -> bool { c.as_ref().is_some_and(|s| f(s)) }
fn leaf(r: &mut Rng) -> (LogMatcher, Eval, String) {
  let k = ["k", "a", "b", "nope"][r.us(4)].to_string();
  let v = txt(r);
  let op = CMP[r.us(6)];
  match r.us(10) {
    0 => { let d = format!("msg {op:?} {v:?}"); (message(op, &v), Box::new(move |l| ev(&msg_text(l), |s| cmp_holds(op, s.cmp(&v)))), d) },
    1 => {
      let p = ["^foo", "bar$", "o+", "^$", "^[0-9]+$"][r.us(5)];
      let re = regex::Regex::new(p).unwrap();
      (message(Op::OPERATOR_REGEX, p), Box::new(move |l| ev(&msg_text(l), |s| re.is_match(s))), format!("msg ~ {p}"))
    },
    2 | 3 => { let d = format!("{k} {op:?} {v:?}"); (tag_str(&k, op, &v), Box::new(move |l| ev(&lookup(&l.c, &l.m, &k), |s| cmp_holds(op, s.cmp(&v)))), d) },
    4 => {
      let p = ["^foo", "1", "^$"][r.us(3)];
      let re = regex::Regex::new(p).unwrap();
      let d = format!("{k} ~ {p}");
      (tag_str(&k, Op::OPERATOR_REGEX, p), Box::new(move |l| ev(&lookup(&l.c, &l.m, &k), |s| re.is_match(s))), d)
    },
    5 => {
      let n = r.range(-1, 11) as i32;
      let d = format!("{k} {op:?} {n}");
      // Text that is a number counts by its whole part, kept within 32 bits.
      (tag_int(&k, op, n), Box::new(move |l| ev(&lookup(&l.c, &l.m, &k), |s| number(s).is_some_and(|x| cmp_holds(op, x.cmp(&i64::from(n)))))), d)
    },
    6 => { let n = r.us(6) as i32; (tag_int("log_level", op, n), Box::new(move |l| i32::try_from(l.level).is_ok_and(|x| cmp_holds(op, x.cmp(&n)))), format!("level {op:?} {n}")) },
    7 => { let n = r.us(9) as i32; (tag_int("log_type", Op::OPERATOR_EQUALS, n), Box::new(move |l| l.kind == n as u32), format!("type {n}")) },
    8 => {
      let w = [r.us(3) as u32, r.us(3) as u32];
      let t = if w[1] == 0 && r.chance(1, 2) { format!("{}", w[0]) } else { format!("{}.{}", w[0], w[1]) };
      let d = format!("{k} version {op:?} {t}");
      // Only plain versions are compared by hand (C05 has the others): a field with another text asks the version alone.
      let alone = bd_log_matcher::matcher::Tree::new(&tag_ver("k", op, &t)).unwrap();
      (tag_ver(&k, op, &t), Box::new(move |l| ev(&lookup(&l.c, &l.m, &k), |s| match s.split('.').map(|x| x.parse::<u32>()).collect::<Result<Vec<_>, _>>() {
        Ok(mut x) if x.len() <= 2 && s.bytes().all(|b| b == b'.' || b.is_ascii_digit()) => { x.resize(2, 0); cmp_holds(op, x.as_slice().cmp(&w)) },
        _ => alone.do_match(0, LogType(0), &LogMessage::String(String::new()), &FieldsRef::new(&vec![field("k", s)], &vec![])),
      })), d)
    },
    _ => { let d = format!("set {k}"); (tag_set(&k), Box::new(move |l| lookup(&l.c, &l.m, &k).is_some()), d) },
  }
}
fn number(s: &str) -> Option<i64> {
  let (digits, exp) = match s.split_once('e') { Some((d, e)) => (d, e.parse::<u32>().ok()?), None => (s, 0) };
  let (neg, digits) = match digits.as_bytes().first()? { b'-' => (true, &digits[1 ..]), b'+' => (false, &digits[1 ..]), _ => (false, digits) };
  let (whole, frac) = digits.split_once('.').unwrap_or((digits, ""));
  if whole.len() + frac.len() == 0 || !whole.chars().chain(frac.chars()).all(|c| c.is_ascii_digit()) { return None; }
  let frac: String = frac.chars().chain("000".chars()).take(exp as usize).collect();
  let n: i64 = format!("0{whole}{frac}").parse().ok()?;
  Some(if neg { (-n).max(i64::from(i32::MIN)) } else { n.min(i64::from(i32::MAX)) })
}
fn cond(r: &mut Rng, depth: usize) -> (LogMatcher, Eval, String) {
  if depth == 0 || r.chance(1, 4) { return leaf(r); }
  match r.us(3) {
    0 => { let (m, e, d) = cond(r, depth - 1); (not(m), Box::new(move |l| !e(l)), format!("!({d})")) },
    n => {
      let (mut ms, mut es, mut ds) = (vec![], vec![], vec![]);
      for _ in 0 .. r.us(4) { let (m, e, d) = cond(r, depth - 1); ms.push(m); es.push(e); ds.push(d); }
      if n == 1 { (or(ms), Box::new(move |l| es.iter().any(|e| e(l))), format!("or[{}]", ds.join(", "))) }
      else { (and(ms), Box::new(move |l| es.iter().all(|e| e(l))), format!("and[{}]", ds.join(", "))) }
    },
  }
}
// The same for the buffer filters' conditions.
fn base2(m: cb::Match_type) -> cf::LogMatcher {
  cf::LogMatcher { match_type: Some(cf::log_matcher::Match_type::BaseMatcher(cf::log_matcher::BaseLogMatcher { match_type: Some(m), ..Default::default() })), ..Default::default() }
}
fn leaf2(r: &mut Rng) -> (cf::LogMatcher, Eval, String) {
  let k = ["k", "a", "b", "nope"][r.us(4)].to_string();
  let (t, v) = match r.us(3) {
    0 => (cb::StringMatchType::EXACT, txt(r)),
    1 => (cb::StringMatchType::PREFIX, if r.chance(1, 2) { txt(r) } else { ["1", "foo", "", "fo", "f", "foo "][r.us(6)].to_string() }),
    _ => (cb::StringMatchType::REGEX, ["^1", "bar$", "^$", "o+"][r.us(4)].to_string()),
  };
  let re = if t == cb::StringMatchType::REGEX { regex::Regex::new(&v).unwrap() } else { regex::Regex::new("").unwrap() };
  let (v2, v3) = (v.clone(), v.clone());
  let eval = move |s: &str| match t { cb::StringMatchType::EXACT => s == v3, cb::StringMatchType::PREFIX => s.as_bytes().starts_with(v3.as_bytes()), cb::StringMatchType::REGEX => re.is_match(s) };
  match r.us(7) {
    0 => {
      let (op, f): (Cmp, fn(u32, u32) -> bool) = [(Cmp::LESS_THAN, (|a, b| a < b) as fn(u32, u32) -> bool), (Cmp::LESS_THAN_OR_EQUAL, |a, b| a <= b), (Cmp::EQUALS, |a, b| a == b), (Cmp::GREATER_THAN, |a, b| a > b), (Cmp::GREATER_THAN_OR_EQUAL, |a, b| a >= b)][r.us(5)];
      let n = r.us(5);
      let lv = [cb::log_level_match::LogLevel::TRACE, cb::log_level_match::LogLevel::DEBUG, cb::log_level_match::LogLevel::INFO, cb::log_level_match::LogLevel::WARN, cb::log_level_match::LogLevel::ERROR][n];
      (base2(cb::Match_type::LogLevelMatch(cb::LogLevelMatch { operator: op.into(), log_level: lv.into(), ..Default::default() })), Box::new(move |l| f(l.level, n as u32)), format!("level {op:?} {n}"))
    },
    1 | 2 => (base2(cb::Match_type::MessageMatch(cb::MessageMatch { match_type: t.into(), match_value: v2, ..Default::default() })), Box::new(move |l| ev(&msg_text(l), &eval)), format!("msg {t:?} {v:?}")),
    3 | 4 => {
      let d = format!("{k} {t:?} {v:?}");
      (base2(cb::Match_type::TagMatch(cb::TagMatch { match_type: t.into(), match_value: v2, tag_key: k.clone(), ..Default::default() })), Box::new(move |l| ev(&lookup(&l.c, &l.m, &k), &eval)), d)
    },
    5 => { let n = r.us(9) as u32; (base2(cb::Match_type::TypeMatch(cb::TypeMatch { type_: n, ..Default::default() })), Box::new(move |l| l.kind == n), format!("type {n}")) },
    _ => (base2(cb::Match_type::AnyMatch(cb::AnyMatch::default())), Box::new(|_| true), "any".into()),
  }
}
fn cond2(r: &mut Rng, depth: usize) -> (cf::LogMatcher, Eval, String) {
  if depth == 0 || r.chance(1, 3) { return leaf2(r); }
  let w = |m| cf::LogMatcher { match_type: Some(m), ..Default::default() };
  match r.us(3) {
    0 => { let (m, e, d) = cond2(r, depth - 1); (w(cf::log_matcher::Match_type::NotMatcher(Box::new(m))), Box::new(move |l| !e(l)), format!("!({d})")) },
    n => {
      let (mut ms, mut es, mut ds) = (vec![], vec![], vec![]);
      for _ in 0 .. r.us(4) { let (m, e, d) = cond2(r, depth - 1); ms.push(m); es.push(e); ds.push(d); }
      let list = cf::log_matcher::MatcherList { matcher: ms, ..Default::default() };
      if n == 1 { (w(cf::log_matcher::Match_type::OrMatcher(list)), Box::new(move |l| es.iter().any(|e| e(l))), format!("or[{}]", ds.join(", "))) }
      else { (w(cf::log_matcher::Match_type::AndMatcher(list)), Box::new(move |l| es.iter().all(|e| e(l))), format!("and[{}]", ds.join(", "))) }
    },
  }
}
fn show(l: &L) -> String { format!("level {} type {} message {:?} captured {:?} matching {:?}", l.level, l.kind, l.msg, l.c, l.m) }

fn main() {
  let mut h = Hx::new("a case is a condition tree or a list of buffers with filters, evaluated on eight logs; distinct by configuration");
  for i in 0 .. h.n(5000, 200_000) {
    let seed = h.seed.wrapping_mul(9_999_991) + i;
    let r = &mut Rng::new(seed);
    let (m, e, d) = cond(r, 4);
    let logs: Vec<L> = (0 .. 8).map(|_| log(r)).collect();
    h.case(d.contains('['), || format!("seed {seed}: {d}"), || {
      let t = bd_log_matcher::matcher::Tree::new(&m).map_err(|e| format!("condition refused: {e}"))?;
      for l in &logs {
        eq!(t.do_match(l.level, LogType(l.kind), &l.msg, &FieldsRef::new(&l.c, &l.m)), e(l), "condition on {}", show(l));
      }
      Ok(())
    });
  }
  // Leaves that can never hold: refused, or they do not.
  for (d, m) in [("int operator missing", tag_int("k", Op::OPERATOR_UNSPECIFIED, 1)), ("text operator missing", tag_str("k", Op::OPERATOR_UNSPECIFIED, "1")), ("version operator missing", tag_ver("k", Op::OPERATOR_UNSPECIFIED, "1")),
    ("negative type", tag_int("log_type", Op::OPERATOR_EQUALS, -1)), ("bad regex", tag_str("k", Op::OPERATOR_REGEX, "(")), ("level operator missing", tag_int("log_level", Op::OPERATOR_UNSPECIFIED, 1))] {
    h.case(true, || d.into(), || {
      if let Ok(t) = bd_log_matcher::matcher::Tree::new(&m) {
        for (level, kind) in [(1, 1), (0, u32::MAX), (1, 0)] {
          eq!(t.do_match(level, LogType(kind), &LogMessage::String("1".into()), &FieldsRef::new(&vec![field("k", "1")], &vec![])), false, "level {level} type {kind}");
        }
      }
      Ok(())
    });
  }
  for i in 0 .. h.n(4000, 150_000) {
    let seed = h.seed.wrapping_mul(8_888_887) + i;
    let r = &mut Rng::new(seed);
    let n = r.us(5);
    let mut bufs: Vec<(cf::BufferConfig, Vec<Eval>, String)> = vec![];
    for b in 0 .. n {
      let id = if r.chance(1, 8) { "same".to_string() } else { format!("b{b}") };
      let (mut fs, mut es, mut ds) = (vec![], vec![], vec![]);
      for j in 0 .. r.us(4) {
        if r.chance(1, 10) {
          fs.push(cf::buffer_config::BufferFilter { id: format!("f{j}"), ..Default::default() });
          continue;
        }
        let (m, e, d) = cond2(r, 3);
        fs.push(cf::buffer_config::BufferFilter { id: if r.chance(1, 4) { "f".into() } else { format!("f{j}") }, filter: protobuf::MessageField::some(m), ..Default::default() });
        es.push(e);
        ds.push(d);
      }
      bufs.push((cf::BufferConfig { id: id.clone(), filters: fs, ..Default::default() }, es, format!("{id}: {ds:?}")));
    }
    let logs: Vec<L> = (0 .. 8).map(|_| log(r)).collect();
    let rot = r.us(n + 1);
    let d = bufs.iter().map(|b| b.2.clone()).collect::<Vec<_>>().join("; ");
    h.case(n > 0, || format!("seed {seed}: {d}"), || {
      let mut list: Vec<cf::BufferConfig> = bufs.iter().map(|b| b.0.clone()).collect();
      let one = BufferSelector::new(&cf::BufferConfigList { buffer_config: list.clone(), ..Default::default() }).map_err(|e| format!("configuration refused: {e}"))?;
      list.rotate_left(rot.min(n));
      for b in &mut list { b.filters.reverse(); }
      let two = BufferSelector::new(&cf::BufferConfigList { buffer_config: list, ..Default::default() }).map_err(|e| format!("configuration refused: {e}"))?;
      for l in &logs {
        let want: BTreeSet<String> = bufs.iter().filter(|b| b.1.iter().any(|e| e(l))).map(|b| b.0.id.clone()).collect();
        let f = FieldsRef::new(&l.c, &l.m);
        let got = |s: &BufferSelector| s.buffers(LogType(l.kind), l.level, &l.msg, &f).into_iter().map(|x| x.into_owned()).collect::<BTreeSet<String>>();
        eq!(got(&one), want, "buffers for {}", show(l));
        eq!(got(&two), want, "buffers with the configuration in another order for {}", show(l));
      }
      Ok(())
    });
  }
  h.finish()
}
