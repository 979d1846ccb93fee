//! deps: bd-log bd-log-metadata bd-log-primitives bd-proto itertools time anyhow log
//! The real collector (included from the tree) with a provider of random fields; oracle: first entry per key
//! over the documented order of sources.
#[allow(dead_code, unused_imports)]
mod metadata {
  include!(concat!(env!("VX_REPO"), "/bd-logger/src/metadata.rs"));
}
use bd_log_metadata::MetadataProvider;
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogFieldValue, LogType};
use hx::{ck, eq, Hx, Rng};
use metadata::MetadataCollector;
use std::sync::{Arc, Mutex};

struct P { f: Mutex<AnnotatedLogFields>, t: time::OffsetDateTime }
impl MetadataProvider for P {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> { Ok(self.t) }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> { Ok(self.f.lock().unwrap().clone()) }
}
const RESERVED: [&str; 11] = ["app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os", "os_version", "radio_type"];
fn key(r: &mut Rng) -> String {
  match r.us(10) {
    0 | 1 => (*r.pick(&RESERVED)).to_string(),
    2 => format!("_{}", r.us(3)),
    3 => (*r.pick(&["", "_", "__", "a_", "os ", "OS", "app_idx", " _x"])).to_string(),
    _ => format!("k{}", r.us(5)),
  }
}
fn field(r: &mut Rng, tag: &str) -> LogField {
  let value = if r.chance(1, 4) { LogFieldValue::Bytes(r.bytes(3)) } else { LogFieldValue::String(format!("{tag}{}", r.us(1000))) };
  LogField { key: key(r), value }
}
fn ann(r: &mut Rng, tag: &str) -> AnnotatedLogFields {
  (0 .. r.us(7)).map(|_| AnnotatedLogField { field: field(r, tag), kind: if r.chance(1, 2) { LogFieldKind::Ootb } else { LogFieldKind::Custom } }).collect()
}
fn allowed(k: &str) -> bool { !RESERVED.contains(&k) && !k.starts_with('_') }
fn split(f: &AnnotatedLogFields) -> (Vec<LogField>, Vec<LogField>) {
  let o = f.iter().filter(|x| x.kind == LogFieldKind::Ootb).map(|x| x.field.clone()).collect();
  let c = f.iter().filter(|x| x.kind == LogFieldKind::Custom && allowed(&x.field.key)).map(|x| x.field.clone()).collect();
  (o, c)
}
fn merge(srcs: &[&[LogField]]) -> Vec<LogField> {
  let mut out: Vec<LogField> = vec![];
  for f in srcs.iter().flat_map(|s| s.iter()) { if !out.iter().any(|x| x.key == f.key) { out.push(f.clone()); } }
  out
}
fn sorted(mut v: Vec<LogField>) -> Vec<LogField> { v.sort_by(|a, b| a.key.cmp(&b.key)); v }

fn main() {
  let mut h = Hx::new("random provider, log, matching and global fields with colliding, reserved and underscore names, for every log type; global fields added and removed between logs; distinct field sets counted");
  let types = [LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View, LogType::Device, LogType::UX, LogType::Span];
  for i in 0 .. h.n(30_000, 400_000) {
    let seed = h.seed * 67_867_967 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let p = Arc::new(P { f: Mutex::default(), t: time::OffsetDateTime::from_unix_timestamp(r.below(1 << 31) as i64).unwrap() });
      let mut c = MetadataCollector::new(p.clone());
      let mut global: Vec<LogField> = vec![];
      for _ in 0 .. 1 + r.us(4) {
        for _ in 0 .. r.us(4) {
          if r.chance(3, 4) {
            let f = field(&mut r, "g");
            log.borrow_mut().push_str(&format!("[add {f:?}]"));
            let ok = c.add_field(f.clone()).is_ok();
            eq!(ok, allowed(&f.key), "add_field({:?}) accepted", f.key);
            if ok { global.retain(|x| x.key != f.key); global.push(f); }
          } else {
            let k = key(&mut r);
            log.borrow_mut().push_str(&format!("[remove {k:?}]"));
            c.remove_field(&k);
            global.retain(|x| x.key != k);
          }
        }
        let (pf, lf, mf) = (ann(&mut r, "p"), ann(&mut r, "l"), ann(&mut r, "m"));
        *p.f.lock().unwrap() = pf.clone();
        let ty = *r.pick(&types);
        log.borrow_mut().push_str(&format!("[log {ty:?} provider {pf:?} fields {lf:?} matching {mf:?}]"));
        let got = c.normalized_metadata_with_extra_fields(lf.clone(), mf.clone(), ty).map_err(|e| e.to_string())?;
        eq!(got.timestamp, p.t, "timestamp");
        let only_match = matches!(ty, LogType::Replay | LogType::Resource | LogType::InternalSDK);
        let ((po, pc), (lo, lc), (mo, mc)) = (split(&pf), split(&lf), split(&mf));
        let none: Vec<LogField> = vec![];
        let (fo, fc, no, nc) = if only_match { (&none, &none, &po, &pc) } else { (&po, &pc, &none, &none) };
        let want = merge(&[fo, &lo, &lc, &global, fc]);
        let wantm = merge(&[no, &mo, &mc, nc]);
        for f in &got.fields { ck!(got.fields.iter().filter(|x| x.key == f.key).count() == 1, "key {:?} appears twice", f.key); }
        for f in &got.matching_fields { ck!(got.matching_fields.iter().filter(|x| x.key == f.key).count() == 1, "matching key {:?} appears twice", f.key); }
        eq!(sorted(got.fields), sorted(want), "fields");
        eq!(sorted(got.matching_fields), sorted(wantm), "matching fields");
      }
      Ok(())
    });
  }
  h.finish()
}
