//! deps: bd-runtime bd-proto bd-client-common protobuf time anyhow tokio
//! Real loaders over a real directory: updates, confirmations, restarts and damage to the two cache files,
//! against a model that knows only what the files hold.
use bd_client_common::error::UnexpectedErrorHandler;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag, RuntimeManager, Watch};
use hx::{ck, eq, Hx, Rng};
use protobuf::Message;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}
bd_runtime::int_feature_flag!(IntA, "i.a", 7);
bd_runtime::int_feature_flag!(IntB, "i.b", 0);
bd_runtime::bool_feature_flag!(BoolA, "b.a", true);
bd_runtime::bool_feature_flag!(BoolB, "b.b", false);
bd_runtime::duration_feature_flag!(DurA, "d.a", time::Duration::seconds(3));
bd_runtime::bool_feature_flag!(Wrong, "i.a", false);
bd_runtime::int_feature_flag!(Again, "i.a", 9);

#[derive(Clone, Debug, PartialEq)]
enum V { I(u32), B(bool), S(String) }
type Cfg = BTreeMap<&'static str, V>;
fn gen(r: &mut Rng) -> Cfg {
  let mut m = Cfg::new();
  for k in ["i.a", "i.b", "d.a"] { if r.chance(1, 2) { m.insert(k, V::I(*r.pick(&[0, 1, 7, 3000, u32::MAX, 5]))); } }
  for k in ["b.a", "b.b"] { if r.chance(1, 2) { m.insert(k, V::B(r.chance(1, 2))); } }
  if r.chance(1, 2) { m.insert("s.a", V::S((*r.pick(&["", "x", "hello"])).into())); }
  m
}
fn update(c: &Cfg, nonce: &str) -> RuntimeUpdate {
  let mut rt = Runtime::default();
  for (k, v) in c {
    let t = match v { V::I(i) => value::Type::UintValue(*i), V::B(b) => value::Type::BoolValue(*b), V::S(s) => value::Type::StringValue(s.as_str().into()) };
    rt.values.insert((*k).into(), Value { type_: Some(t), ..Default::default() });
  }
  RuntimeUpdate { version_nonce: nonce.into(), runtime: protobuf::MessageField::some(rt), ..Default::default() }
}
fn int(c: &Cfg, k: &str, d: u32) -> u32 { match c.get(k) { Some(V::I(i)) => *i, _ => d } }
fn boo(c: &Cfg, k: &str, d: bool) -> bool { match c.get(k) { Some(V::B(i)) => *i, _ => d } }

// What the cache files hold, as far as the model knows.
#[derive(Clone, Debug)]
enum Count { Missing, N(u32), Bad }
#[derive(Clone, Debug)]
enum Cache { Missing, Holds(Cfg, String), Bad }

struct Watches { ia: Watch<u32, IntA>, ib: Watch<u32, IntB>, ba: Watch<bool, BoolA>, bb: Watch<bool, BoolB>, da: Watch<time::Duration, DurA>, seen: (u32, u32, bool, bool, time::Duration) }
fn shown(c: &Cfg) -> (u32, u32, bool, bool, time::Duration) {
  (int(c, "i.a", 7), int(c, "i.b", 0), boo(c, "b.a", true), boo(c, "b.b", false), match c.get("d.a") { Some(V::I(m)) => time::Duration::milliseconds(i64::from(*m)), _ => time::Duration::seconds(3) })
}
impl Watches {
  fn new(l: &ConfigLoader, c: &Cfg) -> Result<Self, String> {
    let e = |e| format!("register: {e}");
    Ok(Self { ia: IntA::register(l).map_err(e)?, ib: IntB::register(l).map_err(e)?, ba: BoolA::register(l).map_err(e)?, bb: BoolB::register(l).map_err(e)?, da: DurA::register(l).map_err(e)?, seen: shown(c) })
  }
  fn check(&mut self, c: &Cfg, mark: bool) -> Result<(), String> {
    let w = shown(c);
    eq!((self.ia.read(), self.ib.read(), self.ba.read(), self.bb.read(), self.da.read()), w, "values shown by the watches");
    if mark {
      // A value that went away and came back is a change to a watch that looked in between only.
      let s = self.seen;
      if s.0 != w.0 { ck!(self.ia.has_changed(), "i.a changed, watch not told"); }
      if s.1 != w.1 { ck!(self.ib.has_changed(), "i.b changed, watch not told"); }
      if s.2 != w.2 { ck!(self.ba.has_changed(), "b.a changed, watch not told"); }
      if s.3 != w.3 { ck!(self.bb.has_changed(), "b.b changed, watch not told"); }
      if s.4 != w.4 { ck!(self.da.has_changed(), "d.a changed, watch not told"); }
      eq!((self.ia.read_mark_update(), self.ib.read_mark_update(), self.ba.read_mark_update(), self.bb.read_mark_update(), self.da.read_mark_update()), w, "values read");
      self.seen = w;
    }
    Ok(())
  }
  fn unchanged(&self) -> Result<(), String> {
    ck!(!self.ia.has_changed() && !self.ib.has_changed() && !self.ba.has_changed() && !self.bb.has_changed() && !self.da.has_changed(), "a watch was told of a change, its value is as before");
    Ok(())
  }
}

fn main() {
  UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let mut h = Hx::new("a history of processes over one SDK directory: each starts with what the cache files hold, receives updates, may confirm the configuration, and files are damaged in between; distinct histories counted");
  let base = hx::scratch();
  for i in 0 .. h.n(1500, 20_000) {
    let seed = h.seed * 1_000_003 + i;
    let log = std::cell::RefCell::new(String::new());
    let dir = base.join(format!("d{i}"));
    std::fs::create_dir_all(&dir).unwrap();
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let (rc, pb) = (dir.join("runtime/retry_count"), dir.join("runtime/update.pb"));
      let (mut count, mut cache) = (Count::Missing, Cache::Missing);
      // Consecutive starts that applied the same cache without any confirmation or update.
      let mut unsafe_starts = 0;
      let mut nonce_n = 0;
      let fails = i % 5 == 4; // unconfirmed starts only
      for p in 0 .. 2 + r.us(14) {
        // Damage between processes.
        if p > 0 && r.chance(1, if fails { 40 } else { 4 }) {
          let what = r.us(11);
          log.borrow_mut().push_str(&format!("[damage {what}]"));
          let have_dir = dir.join("runtime").exists();
          if have_dir { match what {
            0 => { let _ = std::fs::remove_file(&rc); count = Count::Missing },
            1 => { let _ = std::fs::remove_file(&pb); cache = Cache::Missing },
            2 => { std::fs::write(&rc, b"").unwrap(); count = Count::Bad },
            3 => { std::fs::write(&rc, *r.pick(&[&b"-1"[..], b"x", b"1 ", b" 1", b"\xff", b"4294967296", b"1.0", b"0x1"])).unwrap(); count = Count::Bad },
            4 => { let n = *r.pick(&[0u32, 1, 3, 4, 5, 6, 7, 1000, u32::MAX - 1, u32::MAX]); std::fs::write(&rc, n.to_string()).unwrap(); count = Count::N(n); unsafe_starts = 0 },
            5 => { let _ = std::fs::remove_file(&pb); std::fs::write(&pb, [0u8; 10]).unwrap(); cache = Cache::Bad },
            6 => { // the older, uncompressed format
              let (c, n) = (gen(&mut r), format!("old{p}"));
              std::fs::write(&pb, update(&c, &n).write_to_bytes().unwrap()).unwrap();
              cache = Cache::Holds(c, n); unsafe_starts = 0 },
            7 => if let (Cache::Holds(..), Ok(b)) = (&cache, std::fs::read(&pb)) { // truncated
              let n = 1 + r.us(b.len().max(2) - 1);
              let cut = &b[.. n.min(b.len().saturating_sub(1))];
              // Some prefixes are messages of the older format.
              if !cut.is_empty() && RuntimeUpdate::parse_from_bytes(cut).is_err() { std::fs::write(&pb, cut).unwrap(); cache = Cache::Bad }
            },
            8 => { // only the directory is left
              std::fs::remove_dir_all(dir.join("runtime")).unwrap(); std::fs::create_dir(dir.join("runtime")).unwrap();
              count = Count::Missing; cache = Cache::Missing },
            9 => { std::fs::remove_dir_all(dir.join("runtime")).unwrap(); count = Count::Missing; cache = Cache::Missing },
            _ => { // the counter cannot be rewritten
              let _ = std::fs::remove_file(&rc); let _ = std::fs::create_dir(&rc); count = Count::Bad },
          } }
        }
        // A process starts.
        let loader = ConfigLoader::new(&dir);
        let m = RuntimeManager::new(loader.clone());
        let none = Cfg::new();
        eq!(m.version_nonce(), None, "nonce before anything was loaded");
        let mut w = if r.chance(2, 3) { Some(Watches::new(&loader, &none)?) } else { None };
        if r.chance(1, 12) {
          // Killed before it looks at its cache: nothing changes.
          log.borrow_mut().push_str("[killed at once]");
          continue;
        }
        m.handle_cached_config();
        let was = (count.clone(), cache.clone());
        let applied = match (&count, &cache) { (Count::N(n), Cache::Holds(..)) => *n <= 5, _ => false };
        let (mut cur, mut nonce) = (none.clone(), None);
        log.borrow_mut().push_str(&format!("[start {} {was:?}]", if applied { "applies" } else { "nothing" }));
        if applied {
          if let (Count::N(n), Cache::Holds(c, v)) = (&mut count, &cache) { *n += 1; cur = c.clone(); nonce = Some(v.clone()); }
          unsafe_starts += 1;
          ck!(unsafe_starts <= 6, "the same unconfirmed configuration applied at {unsafe_starts} starts");
          ck!(pb.exists(), "applied, cache file gone");
          eq!(std::fs::read(&rc).ok(), match &count { Count::N(n) => Some(n.to_string().into_bytes()), _ => None }, "the counter file once the cache is applied");
        } else {
          count = Count::Missing;
          cache = Cache::Missing;
          ck!(!rc.exists() && !pb.exists(), "a cache that cannot be used is left on disk (was {was:?})");
          ck!(dir.join("runtime").is_dir(), "no directory to cache into");
        }
        eq!(m.version_nonce(), nonce, "nonce after start (files: {was:?})");
        let steps = if fails { r.us(2) } else { r.us(5) };
        for _ in 0 .. steps {
          let s = loader.snapshot();
          for (k, d) in [("i.a", 1), ("i.b", 2), ("i.c", 3)] { eq!(s.get_integer(k, d), int(&cur, k, d), "integer {k}"); }
          for k in ["b.a", "b.b", "b.c"] { for d in [true, false] { eq!(s.get_bool(k, d), boo(&cur, k, d), "bool {k}"); } }
          eq!(s.get_string("s.a", "dflt"), match cur.get("s.a") { Some(V::S(s)) => s.as_str(), _ => "dflt" }, "string");
          eq!(s.get_duration("d.a", time::Duration::seconds(1)), match cur.get("d.a") { Some(V::I(m)) => time::Duration::milliseconds(i64::from(*m)), _ => time::Duration::seconds(1) }, "duration");
          if let Some(w) = &mut w { w.check(&cur, r.chance(1, 2))?; }
          match r.us(if fails { 3 } else { 8 }) {
            0 if w.is_none() => { log.borrow_mut().push_str("[register]"); w = Some(Watches::new(&loader, &cur)?); w.as_ref().unwrap().unchanged()?; w.as_mut().unwrap().check(&cur, true)?; },
            0 => {
              // Another type under a registered name is refused; another flag of the type shares the watch.
              ck!(Wrong::register(&loader).is_err(), "an integer flag registered as a bool");
              let again = Again::register(&loader).map_err(|e| e.to_string())?;
              eq!(again.read(), int(&cur, "i.a", 7), "second watch of i.a");
              log.borrow_mut().push_str("[wrong type]");
            },
            1 | 2 => {},
            3 | 4 | 5 => {
              nonce_n += 1;
              // Some updates carry no configuration at all: everything is back at its default.
              let bare = r.chance(1, 6);
              let (c, v) = (if bare { Cfg::new() } else { gen(&mut r) }, format!("v{nonce_n}"));
              log.borrow_mut().push_str(&format!("[update {c:?} {v}]"));
              if let Some(w) = &mut w { w.check(&cur, true)?; }
              let same = shown(&c) == shown(&cur);
              let mut u = update(&c, &v);
              if bare { u.runtime = None.into(); }
              m.process_update(&u);
              cur = c; nonce = Some(v);
              if same { if let Some(w) = &w { w.unchanged()?; } }
              unsafe_starts = 0;
              // The counter is a directory when it could not be rewritten.
              if rc.is_dir() { count = Count::Bad } else { count = Count::N(0) }
              cache = Cache::Holds(cur.clone(), nonce.clone().unwrap());
              eq!(std::fs::read(&rc).ok(), Some(b"0".to_vec()), "counter file after an update");
            },
            6 => { // A change and back.
              if let Some(w) = &mut w { w.check(&cur, true)?; }
            },
            _ => {
              log.borrow_mut().push_str("[safe]");
              let first = std::fs::read(&rc).ok();
              m.server_is_available();
              // Only the first confirmation of a process writes.
              let now = std::fs::read(&rc).ok();
              match now { Some(b) if b == b"0" => { count = Count::N(0); unsafe_starts = 0 }, b => ck!(b == first && first.is_some(), "counter file after a confirmation: {b:?}") }
              eq!(now_zero(&rc), true, "the counter after a confirmation");
            },
          }
          eq!(m.version_nonce(), nonce, "nonce");
          if let Some(w) = &mut w { w.check(&cur, false)?; }
        }
      }
      Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
  }
  // A flag registered while updates arrive ends up showing the last one.
  let dir = base.join("threads");
  std::fs::create_dir_all(&dir).unwrap();
  for i in 0 .. h.n(600, 8000) {
    h.case(true, || format!("round {i}: flags registered while an update arrives"), || {
      let loader = ConfigLoader::new(&dir);
      let go = std::sync::atomic::AtomicBool::new(false);
      let c: Cfg = [("i.a", V::I(100 + i as u32)), ("i.b", V::I(5)), ("b.a", V::B(false)), ("b.b", V::B(true)), ("d.a", V::I(1))].into_iter().collect();
      let up = update(&c, "x");
      let mut w = std::thread::scope(|s| {
        let a = s.spawn(|| { while !go.load(std::sync::atomic::Ordering::Acquire) { std::hint::spin_loop(); } Watches::new(&loader, &c) });
        let b = s.spawn(|| { while !go.load(std::sync::atomic::Ordering::Acquire) { std::hint::spin_loop(); } loader.update_snapshot(&up) });
        go.store(true, std::sync::atomic::Ordering::Release);
        b.join().map_err(|_| "panic".to_string())?;
        a.join().map_err(|_| "panic".to_string())?
      })?;
      w.check(&c, false)?;
      eq!(loader.snapshot().get_integer(IntA::path(), 0), 100 + i as u32, "snapshot");
      w.seen = shown(&c);
      Ok(())
    });
  }
  // Whoever sees a cached value sees the start already counted.
  for i in 0 .. h.n(150, 3000) {
    h.case(true, || format!("round {i}: the counter when a cached value appears"), || {
      let rc = dir.join("runtime/retry_count");
      let c: Cfg = [("i.a", V::I(100 + i as u32)), ("b.a", V::B(false))].into_iter().collect();
      ConfigLoader::new(&dir).update_snapshot(&update(&c, "x"));
      let loader = ConfigLoader::new(&dir);
      let w = IntA::register(&loader).map_err(|e| e.to_string())?;
      let stop = std::sync::atomic::AtomicBool::new(false);
      let got = std::thread::scope(|s| {
        let t = s.spawn(|| loop {
          if w.read() != 7 { return Some(std::fs::read(&rc)); }
          if stop.load(std::sync::atomic::Ordering::Acquire) { return None; }
        });
        std::thread::sleep(std::time::Duration::from_micros(200));
        loader.handle_cached_config();
        if w.read() == 7 { stop.store(true, std::sync::atomic::Ordering::Release); }
        t.join().unwrap()
      });
      let got = got.ok_or("the cached value did not appear")?.map_err(|e| format!("counter file: {e}"))?;
      eq!(String::from_utf8_lossy(&got), "1", "the counter when the value appeared");
      Ok(())
    });
  }
  h.finish()
}
fn now_zero(p: &std::path::Path) -> bool { std::fs::read(p).is_ok_and(|b| b == b"0") }
