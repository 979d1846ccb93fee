//! deps: bd-key-value anyhow serde
//! The real Repository (included from the tree) over an in-memory store.
#[path = "../common/mem.rs"]
mod mem;
#[allow(dead_code)]
mod app_version { include!(concat!(env!("VX_REPO"), "/bd-logger/src/app_version.rs")); }
use app_version::{AppVersion, AppVersionExtra, Repository};
use hx::{ck, eq, Hx, Rng};
use mem::Mem;

fn ver(r: &mut Rng) -> (String, i64, Option<String>) {
  let v = (*r.pick(&["", "1", "1.0", "1.0.0", "1.1", "v1", "1.0 ", "ünï"])).to_string();
  if r.chance(1, 2) { (v, *r.pick(&[0, 1, 2, -1, 10, i64::MAX, i64::MIN]), None) } else { (v, 0, Some((*r.pick(&["", "0", "1", "2", "10", "01", "1.0"])).to_string())) }
}
fn mk(v: &(String, i64, Option<String>)) -> AppVersion {
  AppVersion { app_version: v.0.clone(), app_version_extra: match &v.2 { Some(b) => AppVersionExtra::BuildNumber(b.clone()), None => AppVersionExtra::AppVersionCode(v.1) } }
}
fn main() {
  let mut h = Hx::new("random sequences of has_changed/set over versions that differ in version, in extra only, or only in the kind of extra, across processes; distinct sequences counted");
  for i in 0 .. h.n(20_000, 300_000) {
    let seed = h.seed * 15_485_863 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      let mut repo = Repository::new(mem.store());
      let mut rec: Option<(String, i64, Option<String>)> = None;
      let mut pool: Vec<_> = (0 .. 3).map(|_| ver(&mut r)).collect();
      let mut x = pool[0].clone();
      if x.2.is_none() { x.1 = x.1.wrapping_add(1) } else { x.2 = Some("other".into()) }
      pool.push(x);
      for _ in 0 .. 1 + r.us(12) {
        if r.chance(1, 5) { repo = Repository::new(mem.store()); }
        let v = r.pick(&pool).clone();
        let w0 = mem.with(|m| m.sets.len());
        let ask = r.chance(1, 2);
        log.borrow_mut().push_str(&format!("[{} {v:?}]", if ask { "has_changed" } else { "set" }));
        let raw0 = mem.raw();
        if ask {
          let got = repo.has_changed(&mk(&v));
          eq!(got, rec.as_ref().is_some_and(|p| *p != v), "has_changed");
          if rec.is_some() { eq!(mem.raw(), raw0, "what is recorded after a question"); eq!(mem.with(|m| m.sets.len()), w0, "writes of a question"); }
          else { rec = Some(v.clone()); }
        } else {
          let got = repo.set(&mk(&v));
          let want = rec.as_ref().filter(|p| **p != v).map(mk);
          eq!(got, want, "set returns the previous version");
          rec = Some(v.clone());
        }
        // What is recorded: a fresh repository over a copy reports a change against anything else only.
        let copy = Mem::default();
        copy.with(|m| m.map = mem.raw());
        for q in &pool {
          let changed = Repository::new(copy.store()).has_changed(&mk(q));
          eq!(changed, Some(q) != rec.as_ref(), "recorded version compared with {q:?}");
        }
        ck!(mem.with(|m| m.deletes.is_empty()), "something was deleted");
      }
      Ok(())
    });
  }
  h.finish()
}
