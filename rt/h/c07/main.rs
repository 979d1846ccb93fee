//! deps: bd-log-filter bd-log-primitives bd-proto protobuf regex time
//! The real filter chain; oracle: every transform applied by hand to lists of fields.
#[path = "../common/fv.rs"]
mod fv;
#[path = "../common/lm.rs"]
mod lm;
use bd_log_filter::FilterChain;
use bd_log_primitives::{Log, LogField, LogFields, LogMessage, LogType, StringOrBytes};
use bd_proto::protos::filter::filter::filter::transform as t;
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use fv::*;
use hx::{eq, Hx, Rng};
use lm::*;
use protobuf::MessageField;
use t::set_field::set_field_value::{ExistingField, Value};
use t::set_field::{FieldType, SetFieldValue};
use t::Transform_type as T;

// What the chain should do.
type Step = Box<dyn Fn(&mut Log)>;
type Cond = Box<dyn Fn(&Log) -> bool>;
fn put(v: &mut LogFields, f: LogField) {
  let mut out: LogFields = v.iter().filter(|x| x.key != f.key).cloned().collect();
  out.push(f);
  *v = out;
}
fn holder<'a>(l: &'a Log, k: &str) -> Option<&'a LogField> { first(&l.fields, k).or_else(|| first(&l.matching_fields, k)) }
fn read(l: &Log, k: &str) -> Option<String> {
  match k {
    "_message" => l.message.as_str().map(Into::into),
    "log_level" => Some(l.log_level.to_string()),
    "log_type" => Some(l.log_type.0.to_string()),
    _ => holder(l, k).and_then(text).map(Into::into),
  }
}
fn name(r: &mut Rng) -> String { if r.chance(5, 6) { ["k", "a", "b", "new"][r.us(4)].into() } else { NAMES[3 + r.us(3)].into() } }
// A transform, the same by hand, and whether it is valid.
fn step(r: &mut Rng) -> (Option<T>, Step, bool, String) {
  let k = name(r);
  match r.us(9) {
    0 | 1 => {
      let d = format!("capture {k}");
      (Some(T::CaptureField(t::CaptureField { name: k.clone(), ..Default::default() })), Box::new(move |l| {
        if let Some(i) = l.matching_fields.iter().position(|f| f.key == k) {
          let f = l.matching_fields[i].clone();
          l.matching_fields = l.matching_fields.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, f)| f.clone()).collect();
          put(&mut l.fields, f);
        }
      }), true, d)
    },
    2 | 3 | 4 => {
      let over = r.chance(1, 2);
      let cap = r.chance(1, 2);
      let from = r.chance(1, 2);
      let src = name(r);
      let lit = if r.chance(1, 2) { txt(r) } else { ["", "v", "1", "$1"][r.us(4)].to_string() };
      let broken = r.us(40);
      let value = match broken {
        0 => None,
        1 => Some(SetFieldValue::default()),
        _ => Some(SetFieldValue { value: Some(if from { Value::ExistingField(ExistingField { name: src.clone(), ..Default::default() }) } else { Value::StringValue(lit.clone()) }), ..Default::default() }),
      };
      let ty = if broken == 2 { FieldType::UNKNOWN } else if cap { FieldType::CAPTURED } else { FieldType::MATCHING_ONLY };
      let d = format!("set {k} ({}) = {} override {over} case {broken}", if cap { "captured" } else { "matching" }, if from { format!("field {src}") } else { format!("{lit:?}") });
      (Some(T::SetField(t::SetField { name: k.clone(), value: value.into(), field_type: ty.into(), allow_override: over, ..Default::default() })), Box::new(move |l| {
        if !over && (read(l, &k).is_some() || holder(l, &k).is_some()) { return; }
        let Some(v) = (if from { read(l, &src) } else { Some(lit.clone()) }) else { return };
        let f = LogField { key: k.clone(), value: StringOrBytes::String(v) };
        put(if cap { &mut l.fields } else { &mut l.matching_fields }, f);
      }), broken > 2, d)
    },
    5 => {
      let d = format!("remove {k}");
      (Some(T::RemoveField(t::RemoveField { name: k.clone(), ..Default::default() })), Box::new(move |l| {
        for v in [&mut l.fields, &mut l.matching_fields] { *v = v.iter().filter(|f| f.key != k).cloned().collect(); }
      }), true, d)
    },
    6 | 7 => {
      let (p, ok) = [("o+", true), ("^(\\w)", true), ("[0-9]", true), ("^$", true), ("[a-z ]", true), ("", true), ("(", false)][if r.chance(1, 40) { 6 } else { r.us(6) }];
      let by = ["", "<$1>", "xx", "$0$0"][r.us(4)];
      let d = format!("substitute {k} {p:?} {by:?}");
      (Some(T::RegexMatchAndSubstituteField(t::RegexMatchAndSubstituteField { name: k.clone(), pattern: p.into(), substitution: by.into(), ..Default::default() })), Box::new(move |l| {
        let v = if first(&l.fields, &k).is_some() { &mut l.fields } else { &mut l.matching_fields };
        let Some(i) = v.iter().position(|f| f.key == k) else { return };
        let Some(s) = text(&v[i]).map(String::from) else { return };
        v[i].value = StringOrBytes::String(regex::Regex::new(p).unwrap().replace_all(&s, by).into_owned());
      }), ok, d)
    },
    _ if r.chance(1, 30) => (None, Box::new(|_| ()), false, "nothing".into()),
    _ => step(r),
  }
}
fn cond(r: &mut Rng) -> (LogMatcher, Cond, String) {
  let k = ["k", "a", "b", "new"][r.us(4)].to_string();
  let v = ["1", "v", "", "foo"][r.us(4)].to_string();
  match r.us(5) {
    0 => { let d = format!("message = {v:?}"); (message(Op::OPERATOR_EQUALS, &v), Box::new(move |l| l.message.as_str() == Some(v.as_str())), d) },
    1 => { let n = r.us(6) as i32; (tag_int("log_level", Op::OPERATOR_LESS_THAN_OR_EQUAL, n), Box::new(move |l| l.log_level <= n as u32), format!("level <= {n}")) },
    2 => { let d = format!("{k} set"); (tag_set(&k), Box::new(move |l| lookup(&l.fields, &l.matching_fields, &k).is_some()), d) },
    3 => { let d = format!("{k} not set"); (not(tag_set(&k)), Box::new(move |l| lookup(&l.fields, &l.matching_fields, &k).is_none()), d) },
    _ => (tag_int("log_level", Op::OPERATOR_GREATER_THAN_OR_EQUAL, 0), Box::new(|_| true), "any".into()),
  }
}
fn log(r: &mut Rng) -> Log {
  let message = match r.us(5) { 0 => LogMessage::Bytes(b"foo".to_vec()), 1 => LogMessage::String(txt(r)), _ => LogMessage::String(["1", "v", "", "foo"][r.us(4)].into()) };
  Log {
    log_level: r.us(6) as u32, log_type: LogType(r.us(9) as u32), message,
    fields: fields(r), matching_fields: fields(r),
    session_id: format!("s{}", r.us(10)), occurred_at: time::OffsetDateTime::from_unix_timestamp(r.us(1_000_000) as i64).unwrap(),
  }
}

fn dup(l: &Log) -> Log {
  Log { log_level: l.log_level, log_type: l.log_type, message: l.message.clone(), fields: l.fields.clone(), matching_fields: l.matching_fields.clone(), session_id: l.session_id.clone(), occurred_at: l.occurred_at }
}
fn main() {
  let mut h = Hx::new("a case is a list of filters (conditions, transforms, some of them invalid) applied to eight logs; distinct by configuration");
  for i in 0 .. h.n(12_000, 500_000) {
    let seed = h.seed.wrapping_mul(7_777_777) + i;
    let r = &mut Rng::new(seed);
    let (mut config, mut want, mut bad, mut ds) = (vec![], vec![], 0u64, vec![]);
    for _ in 0 .. r.us(5) {
      let (m, e, d) = cond(r);
      let no_matcher = r.chance(1, 40);
      let (mut ts, mut ss, mut ok, mut sd) = (vec![], vec![], !no_matcher, vec![]);
      for _ in 0 .. r.us(5) {
        let (c, s, valid, d) = step(r);
        ts.push(Transform { transform_type: c, ..Default::default() });
        ss.push(s);
        ok &= valid;
        sd.push(d);
      }
      config.push(Filter { matcher: if no_matcher { MessageField::none() } else { MessageField::some(m) }, transforms: ts, ..Default::default() });
      ds.push(format!("if {d}: [{}]{}", sd.join(", "), if ok { "" } else { " (invalid)" }));
      if ok { want.push((e, ss)) } else { bad += 1 }
    }
    let logs: Vec<Log> = (0 .. 8).map(|_| log(r)).collect();
    let d = ds.join("; ");
    h.case(!want.is_empty(), || format!("seed {seed}: {d}"), || {
      let (chain, failures) = FilterChain::new(FiltersConfiguration { filters: config, ..Default::default() });
      eq!(failures, bad, "number of filters refused");
      for l in &logs {
        let mut exp = dup(l);
        for (e, ss) in &want { if e(&exp) { for s in ss { s(&mut exp); } } }
        let mut got = dup(l);
        chain.process(&mut got);
        eq!(got, exp, "filtering {l:?}");
        // Every log for itself: the chain keeps no state.
        let mut again = dup(l);
        chain.process(&mut again);
        eq!(again, exp, "filtering once more {l:?}");
      }
      Ok(())
    });
  }
  h.finish()
}
