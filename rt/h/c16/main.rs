//! deps: bd-runtime-config tokio
//! Public API only: a real directory, real files, the real loader; oracle: the table written to the file.
use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags, FeatureFlagsWatch};
use bd_runtime_config::loader::StatsCallbacks;
use hx::{ck, eq, Hx, Rng};
use std::sync::Arc;
use std::time::Duration;

struct NoStats;
impl StatsCallbacks for NoStats {
  fn on_deserialize_success(&self) {}
  fn on_deserialize_failure(&self) {}
  fn on_io_failure(&self) {}
}
#[derive(Clone, Debug)]
enum V { B(bool), I(u64), S(String) }

const INTS: &[u64] = &[0, 1, 2, 42, 4999, 5000, 9998, 9999, 10000, 10001, 65536, u32::MAX as u64, i64::MAX as u64, u64::MAX];
const STRS: &[&str] = &["", "hello", "a b", "ünï", "10", "true", "0"];

fn gen(r: &mut Rng) -> Vec<(String, V)> {
  let n = r.us(7);
  let mut out: Vec<(String, V)> = vec![];
  for i in 0 .. n {
    let v = match r.us(3) { 0 => V::B(r.chance(1, 2)), 1 => V::I(*r.pick(INTS)), _ => V::S((*r.pick(STRS)).to_string()) };
    out.push((format!("k{}", (i * 3 + r.us(3)) % 40), v));
  }
  out.dedup_by(|a, b| a.0 == b.0);
  let mut seen = std::collections::HashSet::new();
  out.retain(|x| seen.insert(x.0.clone()));
  out
}
fn yaml(t: &[(String, V)]) -> String {
  if t.is_empty() { return "values: {}\n".into() }
  let mut s = "values:\n".to_string();
  for (k, v) in t {
    s += &match v { V::B(b) => format!("  {k}: {b}\n"), V::I(i) => format!("  {k}: {i}\n"), V::S(x) => format!("  {k}: \"{x}\"\n") };
  }
  s
}
fn verify(f: &dyn FeatureFlags, t: &[(String, V)], what: &str) -> Result<(), String> {
  for i in 0 .. 41 {
    let k = format!("k{i}");
    let v = t.iter().find(|x| x.0 == k).map(|x| &x.1);
    for d in [true, false] {
      eq!(f.get_bool(&k, d), if let Some(V::B(b)) = v { *b } else { d }, "{what}: get_bool({k}, {d})");
    }
    for d in [0, 7, u64::MAX] {
      eq!(f.get_integer(&k, d), if let Some(V::I(b)) = v { *b } else { d }, "{what}: get_integer({k}, {d})");
    }
    for d in ["", "dflt"] {
      let d = Arc::new(d.to_string());
      eq!(f.get_string(&k, &d).as_str(), if let Some(V::S(b)) = v { b.as_str() } else { d.as_str() }, "{what}: get_string({k}, {d})");
    }
    for d in [true, false] {
      for _ in 0 .. 40 {
        let got = f.feature_enabled(&k, d);
        match v {
          Some(V::I(0)) => ck!(!got, "{what}: feature_enabled({k}) true at 0"),
          Some(V::I(x)) if *x >= 10000 => ck!(got, "{what}: feature_enabled({k}) false at {x}"),
          Some(V::I(_)) => {},
          _ => eq!(got, d, "{what}: feature_enabled({k}, {d}) of a non-integer"),
        }
      }
    }
  }
  Ok(())
}
async fn changed(w: &mut FeatureFlagsWatch) -> bool { tokio::time::timeout(Duration::from_secs(20), w.changed()).await.is_ok_and(|r| r.is_ok()) }

fn main() {
  let mut h = Hx::new("a flag file state (valid table, malformed, or missing) reached through a sequence of file replacements, every flag read with every type and default; distinct tables counted; plus the frequency of enabled draws per percentage value");
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let base = hx::scratch();
  let runs = h.n(12, 120);
  for run in 0 .. runs {
    let mut r = Rng::new(h.seed * 1000 + run);
    let dir = base.join(format!("f{run}"));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("flags.yaml");
    let mut t = vec![];
    if run % 3 != 0 { t = gen(&mut r); std::fs::write(&file, yaml(&t)).unwrap(); }
    let Ok(loader) = rt.block_on(async { new_memory_feature_flags_loader(&dir, &file, NoStats) }) else {
      println!("no file watching here");
      break;
    };
    let mut w = loader.snapshot_watch();
    h.case(!t.is_empty(), || format!("initial {t:?}"), || verify(&*w.borrow().as_ref().ok_or("no snapshot")?.clone(), &t, "initial load"));
    for step in 0 .. 6 {
      // 0..2 valid, 3 malformed text, 4 a negative number, 5 missing, 6 not UTF-8
      let kind = if step == 5 { 0 } else { r.us(7) };
      let mut t = vec![];
      let txt = match kind {
        0 ..= 2 => { t = gen(&mut r); yaml(&t) },
        3 => (*r.pick(&["values: [", "", "values:\n  - 1\n", "other: 1\n", "values:\n  k1: [1]\n"])).to_string(),
        4 => "values:\n  k1: true\n  k2: -1\n".to_string(),
        6 => "values:\n  k1: true\n  k2: \"@\"\n".to_string(),
        _ => String::new(),
      };
      let mut raw = txt.clone().into_bytes();
      if kind == 6 { for b in &mut raw { if *b == b'@' { *b = *r.pick(&[0xffu8, 0xc3, 0x80]); } } }
      let d = format!("run {run} step {step}: file replaced by {txt:?} (kind {kind}, missing: {})", kind == 5);
      h.case(true, || d.clone(), || {
        w.borrow_and_update();
        if kind == 5 {
          // The file goes away by a rename, the same event as a replacement.
          if !file.exists() { return Ok(()); }
          std::fs::rename(&file, dir.join("gone")).unwrap();
        } else {
          let tmp = base.join("next");
          std::fs::write(&tmp, &raw).unwrap();
          std::fs::rename(&tmp, dir.join("..next")).unwrap();
          std::fs::rename(dir.join("..next"), &file).unwrap();
        }
        ck!(rt.block_on(changed(&mut w)), "the new file never took effect");
        std::thread::sleep(Duration::from_millis(15));
        verify(&*w.borrow_and_update().as_ref().ok_or("no snapshot")?.clone(), &t, "after replacement")?;
        // The watch itself is a feature-flag view too.
        for i in 0 .. 41 {
          let k = format!("k{i}");
          let v = t.iter().find(|x| x.0 == k).map(|x| &x.1);
          eq!(w.get_integer(&k, 5), if let Some(V::I(b)) = v { *b } else { 5 }, "watch get_integer({k})");
          eq!(w.get_bool(&k, true), if let Some(V::B(b)) = v { *b } else { true }, "watch get_bool({k})");
        }
        Ok(())
      });
    }
    rt.block_on(loader.shutdown());
  }
  // Frequencies: n draws of a feature with value p are enabled n*p/10000 times, give or take 8 sigma.
  let dir = base.join("freq");
  std::fs::create_dir_all(&dir).unwrap();
  let ps = [1u64, 2, 3, 10, 100, 2500, 5000, 7500, 9990, 9997, 9998, 9999];
  std::fs::write(dir.join("f"), yaml(&ps.iter().map(|p| (format!("p{p}"), V::I(*p))).collect::<Vec<_>>())).unwrap();
  if let Ok(loader) = rt.block_on(async { new_memory_feature_flags_loader(&dir, dir.join("f"), NoStats) }) {
    let f = loader.snapshot_watch().borrow().clone().unwrap();
    let n = h.n(2_000_000, 10_000_000);
    for p in ps {
      h.case(true, || format!("percentage {p} of 10000, {n} draws"), || {
        let name = format!("p{p}");
        let on = (0 .. n).filter(|_| f.feature_enabled(&name, false)).count() as f64;
        let q = p as f64 / 10000.0;
        let (mean, sd) = (n as f64 * q, (n as f64 * q * (1.0 - q)).sqrt());
        ck!((on - mean).abs() <= 8.0 * sd, "enabled {on} times, expected {mean} +- {}", 8.0 * sd);
        Ok(())
      });
    }
    rt.block_on(loader.shutdown());
  }
  h.finish()
}
