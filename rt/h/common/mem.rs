// In-memory Storage that can fail, be slow, and be damaged from outside; counts operations.
use bd_key_value::{Storage, Store};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
#[derive(Default, Clone, Debug)]
pub struct Inner {
  pub map: BTreeMap<String, String>,
  pub sets: Vec<(String, String)>,
  pub gets: u64,
  pub deletes: Vec<String>,
  pub fail_set: bool,
  pub fail_get: bool,
  pub fail_delete: bool,
  pub slow_us: u64,
}
#[derive(Default, Clone)]
pub struct Mem(pub Arc<Mutex<Inner>>);
impl Mem {
  pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R { f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner())) }
  pub fn raw(&self) -> BTreeMap<String, String> { self.with(|i| i.map.clone()) }
  pub fn store(&self) -> Arc<Store> { Arc::new(Store::new(Box::new(self.clone()))) }
  fn nap(&self) {
    let us = self.with(|i| i.slow_us);
    if us > 0 { std::thread::sleep(std::time::Duration::from_micros(us)); }
  }
}
impl Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    self.nap();
    self.with(|i| {
      if i.fail_set { anyhow::bail!("set failed") }
      i.sets.push((key.into(), value.into()));
      i.map.insert(key.into(), value.into());
      Ok(())
    })
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    self.nap();
    self.with(|i| {
      i.gets += 1;
      if i.fail_get { anyhow::bail!("get failed") }
      Ok(i.map.get(key).cloned())
    })
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.with(|i| {
      i.deletes.push(key.into());
      if i.fail_delete { anyhow::bail!("delete failed") }
      i.map.remove(key);
      Ok(())
    })
  }
}
