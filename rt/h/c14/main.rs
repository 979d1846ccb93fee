//! deps: bd-key-value anyhow serde
//! The real Store over a storage that fails and is damaged on demand; oracle: the last value set per key.
#[path = "../common/mem.rs"]
mod mem;
use bd_key_value::{Key, Storable, Store};
use hx::{ck, eq, Hx, Rng};
use mem::Mem;
use std::collections::BTreeMap;

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
enum Kind { A, B(i64), C { x: String, y: Option<u8> } }
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct S { id: String, n: i64, v: Vec<u32>, k: Kind, o: Option<String>, f: f64 }
impl Storable for S {}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
struct U;
impl Storable for U {}

fn txt(r: &mut Rng) -> String {
  match r.us(8) {
    0 => String::new(),
    1 => "\0".into(),
    2 => "ünï©ødé 🎉\n\"'\\".into(),
    3 => "x".repeat(r.us(300)),
    4 => "é".repeat([255, 256, 1000, 4095, 4096, 4097, 70000][r.us(7)]),
    5 => "====".into(),
    6 => format!("{:x}", r.next()),
    _ => (0 .. r.us(12)).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('?')).collect(),
  }
}
fn obj(r: &mut Rng) -> S {
  S {
    id: txt(r), n: r.next() as i64, v: (0 .. r.us(5)).map(|_| r.next() as u32).collect(),
    k: match r.us(3) { 0 => Kind::A, 1 => Kind::B(r.next() as i64), _ => Kind::C { x: txt(r), y: if r.chance(1, 2) { Some(r.us(256) as u8) } else { None } } },
    o: if r.chance(1, 2) { Some(txt(r)) } else { None }, f: [0.0, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY][r.us(5)],
  }
}
fn b64(b: &[u8]) -> String {
  const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut o = String::new();
  for c in b.chunks(3) {
    let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0 .. 4 { if i <= c.len() { o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
  }
  o
}
// Stored texts that no encoder could have produced for these types.
fn damage(r: &mut Rng, cur: Option<&String>) -> String {
  match r.us(9) {
    0 => "!!! not base64 !!!".into(),
    1 => "A".into(),
    2 => b64(&[1, 0, 0]),
    3 => b64(&[5, 0, 0, 0, 0, 0, 0, 0, b'a']),
    4 => b64(&[2, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xfe]),
    5 => b64(&[0xff; 16]),
    6 => b64(&[[0, 0, 0, 0, 0, 0, 0, 0x80].as_slice(), &[65; 40]].concat()),
    7 => match cur { Some(c) if c.len() > 4 => format!("{}*", &c[.. c.len() - 1]), _ => "\u{1F4A5}".into() },
    _ => { let mut b = u64::MAX.to_le_bytes().to_vec(); b.extend(r.bytes(20)); b64(&b) },
  }
}
static KEYS: [&str; 5] = ["", "a", "a.b", "A", "device.state"];
static SK: [Key<String>; 5] = [Key::new(KEYS[0]), Key::new(KEYS[1]), Key::new(KEYS[2]), Key::new(KEYS[3]), Key::new(KEYS[4])];
static OK_: [Key<S>; 5] = [Key::new("o"), Key::new("o.1"), Key::new("o.10"), Key::new("O"), Key::new("oo")];
static UK: Key<U> = Key::new("unit");

fn main() {
  let mut h = Hx::new("random sequences of set/get over 11 keys and 3 value types, with storage errors and stored text damaged in ways that cannot decode; distinct sequences counted");
  for i in 0 .. h.n(6000, 120_000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed}: {}", log.borrow()), || {
      let mut r = Rng::new(seed);
      let mem = Mem::default();
      let store = Store::new(Box::new(mem.clone()));
      // Expected: the value encoded by the current raw text; None after damage.
      let mut s: BTreeMap<usize, Option<String>> = BTreeMap::new();
      let mut o: BTreeMap<usize, Option<S>> = BTreeMap::new();
      let mut unit = false;
      for _ in 0 .. 3 + r.us(25) {
        let k = r.us(5);
        let (fs, fg, fd) = (r.chance(1, 12), r.chance(1, 12), r.chance(1, 6));
        mem.with(|x| { x.fail_set = fs; x.fail_get = fg; x.fail_delete = fd });
        let before = mem.raw();
        let dels = mem.with(|x| x.deletes.len());
        let op = r.us(8);
        log.borrow_mut().push_str(&format!("[op {op} key {k} failset {fs} failget {fg} faildel {fd}]"));
        let mut touched: Option<String> = None;
        match op {
          0 | 1 => {
            let v = txt(&mut r);
            store.set(&SK[k], &v);
            touched = Some(KEYS[k].into());
            if !fs { s.insert(k, Some(v)); }
          },
          2 => {
            let v = obj(&mut r);
            store.set(&OK_[k], &v);
            touched = Some(OK_[k].key().into());
            if !fs { o.insert(k, Some(v)); }
          },
          3 if r.chance(1, 3) => {
            store.set(&UK, &U);
            touched = Some("unit".into());
            if !fs { unit = true; }
            mem.with(|x| x.fail_get = false);
            eq!(store.get(&UK).is_some(), unit, "unit value after set");
          },
          3 | 4 | 5 => {
            let raw = before.get(KEYS[k]).cloned();
            let got = store.get(&SK[k]);
            let want = if fg { None } else { s.get(&k).cloned().flatten() };
            eq!(got, want, "get of key {:?}", KEYS[k]);
            let bad = fg || (raw.is_some() && want.is_none());
            touched = bad.then(|| KEYS[k].into());
            eq!(mem.with(|x| x.deletes[dels ..].to_vec()), if bad { vec![KEYS[k].to_string()] } else { vec![] }, "removals by get");
            if bad && !fd { ck!(!mem.raw().contains_key(KEYS[k]), "undecodable data left behind"); s.remove(&k); }
          },
          6 => {
            let raw = before.get(OK_[k].key()).cloned();
            let got = store.get(&OK_[k]);
            let want = if fg { None } else { o.get(&k).cloned().flatten() };
            eq!(got, want, "get of object key {k}");
            let bad = fg || (raw.is_some() && want.is_none());
            touched = bad.then(|| OK_[k].key().into());
            if bad && !fd { ck!(!mem.raw().contains_key(OK_[k].key()), "undecodable data left behind"); o.remove(&k); }
          },
          _ => {
            let which = r.chance(1, 2);
            let key = if which { KEYS[k] } else { OK_[k].key() };
            let d = damage(&mut r, before.get(key));
            log.borrow_mut().push_str(&format!("damage {d:?}"));
            mem.with(|x| x.map.insert(key.into(), d));
            if which { s.insert(k, None); } else { o.insert(k, None); }
            touched = Some(key.into());
          },
        }
        let after = mem.raw();
        for (x, y) in &before { if Some(x) != touched.as_ref() { eq!(after.get(x), Some(y), "other key {x:?}"); } }
        for x in after.keys() { if Some(x) != touched.as_ref() { ck!(before.contains_key(x), "key {x:?} appeared"); } }
      }
      mem.with(|x| { x.fail_get = false; x.fail_delete = false });
      // A second store over the same storage (a later process) sees the same.
      let again = Store::new(Box::new(mem.clone()));
      for k in 0 .. 5 {
        eq!(again.get(&SK[k]), s.get(&k).cloned().flatten(), "reopened: key {:?}", KEYS[k]);
        eq!(again.get(&OK_[k]), o.get(&k).cloned().flatten(), "reopened: object {k}");
      }
      Ok(())
    });
  }
  h.finish()
}
