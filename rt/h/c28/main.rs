//! deps: bd-matcher bd-log-primitives bd-proto time
//! The real field lookups; oracle: the lookup written out by hand.
#[path = "../common/fv.rs"]
mod fv;
use bd_log_primitives::{FieldsRef, LogFields, LogMessage, LogRef, LogType};
use bd_matcher::FieldProvider;
use fv::*;
use hx::{eq, Hx, Rng};

fn main() {
  let mut h = Hx::new("a case is a log with captured and matching-only fields and every name looked up in it; distinct by fields");
  for i in 0 .. h.n(6000, 300_000) {
    let seed = h.seed.wrapping_mul(31_337) + i;
    let r = &mut Rng::new(seed);
    let c: LogFields = fields(r);
    let m: LogFields = fields(r);
    let (level, kind) = (if r.chance(1, 4) { r.next() as u32 } else { r.us(6) as u32 }, LogType(if r.chance(1, 4) { r.next() as u32 } else { r.us(9) as u32 }));
    h.case(!c.is_empty() && !m.is_empty(), || format!("level {level} type {kind:?} captured {c:?} matching {m:?}"), || {
      let f = FieldsRef::new(&c, &m);
      let msg = LogMessage::String("m".into());
      let l = LogRef { log_type: kind, log_level: level, message: &msg, fields: &f, session_id: "s", occurred_at: time::OffsetDateTime::UNIX_EPOCH };
      for k in NAMES.iter().copied().chain(["absent", "", "K", "k "]) {
        let w = lookup(&c, &m, k);
        eq!(f.matching_field_value(k), first(&m, k).and_then(text), "matching-only field {k:?}");
        eq!(f.field_value(k).map(|x| x.into_owned()), w, "field {k:?} of the fields");
        let w = match k { "log_level" => Some(level.to_string()), "log_type" => Some(kind.0.to_string()), _ => w };
        eq!(l.field_value(k).map(|x| x.into_owned()), w, "field {k:?} of the log");
      }
      Ok(())
    });
  }
  h.finish()
}
