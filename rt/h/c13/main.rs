//! deps: bd-device bd-key-value anyhow
//! The real Device over an in-memory store, across "processes" and threads.
#[path = "../common/mem.rs"]
mod mem;
use bd_device::Device;
use bd_key_value::Key;
use hx::{ck, eq, Hx, Rng};
use mem::Mem;
use std::sync::{Arc, Barrier};

fn main() {
  let mut h = Hx::new("a history of processes over one store (empty, holding a given ID, undecodable, or failing), each asking for the ID several times from 1..6 threads; distinct histories counted");
  // The storage key is whatever a fresh device writes under.
  let m = Mem::default();
  Device::new(m.store()).id();
  let key: &'static str = Box::leak(m.with(|i| i.sets.first().map(|x| x.0.clone()).unwrap_or_default()).into_boxed_str());
  let k: &'static Key<String> = Box::leak(Box::new(Key::new(key)));
  h.case(true, || "a fresh store".into(), || {
    eq!(m.with(|i| i.sets.len()), 1, "writes for a new ID");
    Ok(())
  });
  let ids = ["", "x", "0", " ", "3f2504e0-4f89-11d3-9a0c-0305e82c3301", "ünï", "device id with spaces", "\n", "null"];
  let mut all: std::collections::HashSet<String> = Default::default();
  for i in 0 .. h.n(900, 12_000) {
    let seed = h.seed * 7919 + i;
    let log = std::cell::RefCell::new(String::new());
    let fresh = std::cell::RefCell::new(None);
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      let mut want: Option<String> = None;
      match r.us(4) {
        0 => { let v = (*r.pick(&ids)).to_string(); mem.store().set(k, &v); log.borrow_mut().push_str(&format!("stored {v:?} ")); want = Some(v) },
        1 => { mem.with(|x| x.map.insert(key.into(), "!!".into())); log.borrow_mut().push_str("undecodable ") },
        _ => {},
      }
      let mut persisted = want.is_some();
      for p in 0 .. 1 + r.us(4) {
        let sets0 = mem.with(|x| x.sets.len());
        let fail_set = !persisted && r.chance(1, 6);
        let threads = if i % 4 == 0 { 1 + r.us(6) } else { 1 };
        mem.with(|x| { x.fail_set = fail_set; x.slow_us = if threads > 1 { 300 } else { 0 } });
        log.borrow_mut().push_str(&format!("[process {p} threads {threads} failset {fail_set}]"));
        let d = Arc::new(Device::new(mem.store()));
        let bar = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0 .. threads).map(|_| {
          let (d, b) = (d.clone(), bar.clone());
          std::thread::spawn(move || { b.wait(); (0 .. 4).map(|_| d.id()).collect::<Vec<_>>() })
        }).collect();
        let got: Vec<String> = hs.into_iter().flat_map(|x| x.join().unwrap_or_else(|_| vec!["<panicked>".into()])).collect();
        // Later the storage misbehaves; the process keeps its ID.
        mem.with(|x| { x.fail_set = true; x.fail_get = true; x.slow_us = 0 });
        let late = d.id();
        mem.with(|x| { x.fail_set = false; x.fail_get = false });
        let first = got[0].clone();
        for g in got.iter().chain([&late]) { eq!(*g, first, "process {p}: one ID per process"); }
        if let Some(w) = &want { if persisted { eq!(first, *w, "process {p}: the stored ID"); } }
        else { ck!(!first.is_empty(), "generated an empty ID"); *fresh.borrow_mut() = Some(first.clone()); }
        let sets = mem.with(|x| x.sets.len()) - sets0;
        eq!(sets, if persisted || fail_set { 0 } else { 1 }, "process {p}: writes");
        want = Some(first.clone());
        persisted = persisted || !fail_set;
        if !persisted { want = None; }
        if persisted { eq!(mem.store().get(k), want.clone(), "process {p}: what the store holds"); }
        // Another object in the same process (same store) agrees.
        if persisted { eq!(Device::new(mem.store()).id(), want.clone().unwrap(), "second device object"); }
      }
      Ok(())
    });
    if let Some(f) = fresh.into_inner() {
      h.case(false, || format!("seed {seed}"), || { ck!(all.insert(f.clone()), "the same ID {f} was generated for two devices"); Ok(()) });
    }
  }
  h.finish()
}
