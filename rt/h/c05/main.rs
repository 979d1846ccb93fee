//! deps: bd-log-matcher bd-log-primitives bd-proto protobuf
//! The real condition tree with version conditions; oracle: the ordering laws, and an ordering written out by hand.
#[path = "../common/lm.rs"]
mod lm;
use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogMessage, LogType};
use hx::{ck, eq, Hx, Rng};
use lm::*;
use std::cmp::Ordering;

fn holds(a: &str, op: Op, b: &str) -> Result<bool, String> {
  let t = Tree::new(&tag_ver("v", op, b)).map_err(|e| format!("condition refused: {e}"))?;
  let f = vec![field("v", a)];
  Ok(t.do_match(1, LogType::Normal, &LogMessage::String("m".into()), &FieldsRef::new(&f, &none())))
}
// The one ordering as the six operators see it; Err if they disagree.
fn order(a: &str, b: &str) -> Result<Ordering, String> {
  let mut r = vec![];
  for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
    let mut all = true;
    for op in CMP { all &= holds(a, op, b)? == cmp_holds(op, o); }
    if all { r.push(o); }
  }
  if r.len() != 1 {
    let v: Result<Vec<_>, _> = CMP.iter().map(|op| holds(a, *op, b).map(|x| (*op, x))).collect();
    return Err(format!("{a:?} against {b:?}: the operators agree with no single ordering: {:?}", v?));
  }
  Ok(r[0])
}
fn core(s: &str) -> &str { let s = s.split('-').next().unwrap(); s.split('+').next().unwrap() }
#[derive(PartialEq, Debug, Clone)]
enum Seg { N(u32), T(String) }
fn segs(s: &str) -> Vec<Seg> { core(s).split('.').map(|x| x.parse::<u32>().map_or_else(|_| Seg::T(x.into()), Seg::N)).collect() }
fn want(a: &str, b: &str) -> Ordering {
  let (a, b) = (segs(a), segs(b));
  for i in 0 .. a.len().max(b.len()) {
    let z = Seg::N(0);
    let o = match (a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z)) {
      (Seg::N(x), Seg::N(y)) => x.cmp(y),
      (Seg::N(x), Seg::T(y)) => x.to_string().cmp(y),
      (Seg::T(x), Seg::N(y)) => x.cmp(&y.to_string()),
      (Seg::T(x), Seg::T(y)) => x.cmp(y),
    };
    if o.is_ne() { return o; }
  }
  Ordering::Equal
}
fn num(r: &mut Rng) -> String {
  match r.us(8) {
    0 => "0".into(),
    1 => ["00", "007", "010", "2147483647", "2147483648", "4294967295", "4294967294"][r.us(7)].into(),
    2 => format!("{}", r.next() as u32),
    3 => format!("{}", 8 + r.us(5)),
    _ => format!("{}", r.us(4)),
  }
}
fn comp(r: &mut Rng, mixed: bool) -> String {
  if mixed && r.chance(1, 3) { return ["a", "", "b1", "1a", "é", "4294967296", "99999999999", "10 ", "0x1"][r.us(9)].into(); }
  num(r)
}
fn ver(r: &mut Rng, mixed: bool) -> String {
  let n = 1 + r.us(5);
  let mut s = (0 .. n).map(|_| comp(r, mixed)).collect::<Vec<_>>().join(".");
  if r.chance(1, 4) { s += &["-alpha", "-1.2", "+build", "-rc.1+b", "+b-2", "-", "+"][r.us(7)]; }
  s
}
// A neighbour: shares a prefix, differs by padding or in one component.
fn near(r: &mut Rng, a: &str, mixed: bool) -> String {
  let mut v: Vec<String> = core(a).split('.').map(Into::into).collect();
  match r.us(5) {
    0 => v.push("0".into()),
    1 => { v.push("0".into()); v.push(comp(r, mixed)); },
    2 => { let i = r.us(v.len()); v[i] = comp(r, mixed); },
    3 => { if v.len() > 1 { v.pop(); } },
    _ => {},
  }
  let mut s = v.join(".");
  if r.chance(1, 5) { s += "-beta"; }
  s
}
fn main() {
  let mut h = Hx::new("a case is a triple of versions compared pairwise with all six operators; distinct by the triple");
  for i in 0 .. h.n(12000, 400_000) {
    let seed = h.seed.wrapping_mul(77_777) + i;
    let r = &mut Rng::new(seed);
    let mixed = r.chance(1, 3);
    let a = ver(r, mixed);
    let b = if r.chance(2, 3) { near(r, &a, mixed) } else { ver(r, mixed) };
    let c = if r.chance(2, 3) { near(r, &b, mixed) } else { ver(r, mixed) };
    h.case(true, || format!("{a:?} {b:?} {c:?}"), || {
      let (ab, ba, bc, ac) = (order(&a, &b)?, order(&b, &a)?, order(&b, &c)?, order(&a, &c)?);
      eq!(ba, ab.reverse(), "swapping {a:?} and {b:?}");
      eq!(order(&a, &a)?, Ordering::Equal, "{a:?} against itself");
      eq!(ab, want(&a, &b), "order of {a:?} and {b:?}");
      eq!(bc, want(&b, &c), "order of {b:?} and {c:?}");
      eq!(ac, want(&a, &c), "order of {a:?} and {c:?}");
      let numeric = |s: &str| segs(s).iter().all(|x| matches!(x, Seg::N(_)));
      if numeric(&a) && numeric(&b) && numeric(&c) && ab.is_le() && bc.is_le() {
        ck!(ac.is_le() && (ac.is_lt() || (ab.is_eq() && bc.is_eq())), "{a:?} {ab:?} {b:?} {bc:?} {c:?} but {ac:?}");
      }
      let z = format!("{}.0", core(&a));
      eq!(order(&z, &b)?, ab, "a trailing zero component changes the order: {z:?} against {b:?}");
      Ok(())
    });
  }
  h.finish()
}
