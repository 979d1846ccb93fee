//! deps: bd-metadata
use bd_metadata::{Metadata, Platform};
use hx::{ck, eq, Hx, Rng};
use std::collections::HashMap;
struct M { p: Platform, sdk: &'static str, e: HashMap<String, String> }
impl Metadata for M {
  fn sdk_version(&self) -> &'static str { self.sdk }
  fn platform(&self) -> &Platform { &self.p }
  fn collect_inner(&self) -> HashMap<String, String> { self.e.clone() }
}
fn main() {
  let mut h = Hx::new("embedding-application entries (own names, SDK names with foreign values, near misses of SDK names) on each platform; distinct entry sets counted");
  let names = ["config_version", "os", "kind", "sdk_version", "OS", "os ", "app_id", "app_version", "os_version", "", "kind_", "sdk", "platform", "ünï", "config-version", "x_1"];
  let vals = ["", "evil", "android", "ios", "mobile", "0", "99", "x", "ünï", "1.0.0"];
  let base = M { p: Platform::Ios, sdk: "s", e: HashMap::new() }.collect();
  let cv = base.get("config_version").cloned().unwrap_or_default();
  h.case(true, || "no entries".into(), || { ck!(!cv.is_empty(), "no config_version"); eq!(base.len(), 4, "entries"); Ok(()) });
  for i in 0 .. h.n(40_000, 400_000) {
    let mut r = Rng::new(h.seed * 32_452_843 + i);
    let mut e = HashMap::new();
    for _ in 0 .. r.us(9) { e.insert((*r.pick(&names)).to_string(), (*r.pick(&vals)).to_string()); }
    let sdk = *r.pick(&["", "1.2.3", "0.0.1-beta", "evil"]);
    let (p, os, kind, pn) = match r.us(4) {
      0 => (Platform::Android, "android", "mobile", "Android"),
      1 => (Platform::Ios, "ios", "mobile", "Ios"),
      2 => (Platform::Pulse, "pulse", "pulse", "Pulse"),
      _ => { let (a, b) = (*r.pick(&["linux", "", "ios"]), *r.pick(&["pc", "", "mobile"])); (Platform::Other(a, b), a, b, "Other") },
    };
    let m = M { p, sdk, e: e.clone() };
    let mut want = e.clone();
    for (k, v) in [("config_version", cv.as_str()), ("os", os), ("kind", kind), ("sdk_version", sdk)] { want.insert(k.into(), v.into()); }
    h.case(e.len() > 1, || { let mut s: Vec<_> = e.iter().collect(); s.sort(); format!("{pn} os {os:?} kind {kind:?} sdk {sdk:?} entries {s:?}") }, || {
      for _ in 0 .. 2 {
        let got = m.collect();
        for (k, v) in &want { eq!(got.get(k), Some(v), "entry {k:?}"); }
        for k in got.keys() { ck!(want.contains_key(k), "unexpected entry {k:?}"); }
      }
      Ok(())
    });
  }
  h.finish()
}
