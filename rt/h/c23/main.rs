//! deps: bd-time protobuf time
//! The real conversions and rounding; oracle: integer arithmetic on nanoseconds.
use bd_time::{OffsetDateTimeExt, ProtoDurationExt, TimestampExt, ToProtoDuration};
use hx::{eq, Hx, Rng};
use protobuf::well_known_types::duration::Duration as ProtoDuration;
use protobuf::well_known_types::timestamp::Timestamp;
use time::OffsetDateTime;

const G: i128 = 1_000_000_000;
const MIN: i128 = -377_705_116_800 * G;
const MAX: i128 = 253_402_300_800 * G - 1;
fn at(n: i128) -> OffsetDateTime { OffsetDateTime::from_unix_timestamp_nanos(n).unwrap() }
fn instant(r: &mut Rng) -> i128 {
  let s = match r.us(8) {
    0 => r.range(-5, 5) as i128,
    1 => MIN.div_euclid(G) + r.us(3) as i128,
    2 => MAX.div_euclid(G) - r.us(3) as i128,
    3 => 1_700_000_000 + r.range(-100_000, 100_000) as i128,
    4 => 60 * r.range(-1_000_000, 100_000_000) as i128,
    _ => (r.next() as i128).rem_euclid(MAX.div_euclid(G) - MIN.div_euclid(G)) + MIN.div_euclid(G),
  };
  let n = match r.us(5) { 0 | 1 => 0, 2 => [1, 999_999_999, 999_999, 1_000_000, 500_000_000][r.us(5)], _ => r.us(1_000_000_000) as i128 };
  (s * G + n).clamp(MIN, MAX)
}
fn span(r: &mut Rng) -> (i64, i32) {
  let s = match r.us(6) { 0 => 0, 1 => r.range(-3, 3), 2 => i64::MAX - r.us(2) as i64, 3 => i64::MIN + r.us(2) as i64, _ => r.range(-10_000_000_000, 10_000_000_000) };
  let n = match r.us(4) { 0 => 0, 1 => [1, 999_999_999][r.us(2)], _ => r.us(1_000_000_000) as i32 };
  (s, if s < 0 || s == 0 && r.chance(1, 2) { -n } else { n })
}
fn nanos(d: (i64, i32)) -> i128 { i128::from(d.0) * G + i128::from(d.1) }
fn wire(m: &ProtoDuration) -> (i64, i32) { (m.seconds, m.nanos) }

fn main() {
  let mut h = Hx::new("a case is an instant with an interval, or a span; distinct by value");
  for i in 0 .. h.n(60_000, 3_000_000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let r = &mut Rng::new(seed);
    let t = instant(r);
    let k = match r.us(4) { 0 => 1 + r.us(10) as i128, 1 => [60, 300, 3600, 86_400, 604_800][r.us(5)], 2 => 1 + r.us(10_000_000) as i128, _ => 1 + (r.next() as i128).rem_euclid(i64::MAX as i128) };
    // The interval's own sub-second part does not count.
    let sub = if r.chance(1, 4) { r.us(1_000_000_000) as i32 } else { 0 };
    h.case(t % G != 0, || format!("instant {t} ns, interval {k} s + {sub} ns"), || {
      let d = at(t);
      let w: Timestamp = d.into_proto().into_option().ok_or("no timestamp")?;
      eq!((i128::from(w.seconds), i128::from(w.nanos)), (t.div_euclid(G), t.rem_euclid(G)), "wire form");
      eq!(w.to_offset_date_time().unix_timestamp_nanos(), t, "there and back");
      eq!(i128::from(d.unix_timestamp_ms()), t.div_euclid(1_000_000), "milliseconds");
      let iv = time::Duration::new(k as i64, sub);
      let down = t.div_euclid(k * G) * (k * G);
      if down >= MIN { eq!(d.floor(iv).unix_timestamp_nanos(), down, "rounded down"); }
      let up = if t == down { t } else { down + k * G };
      if up <= MAX { eq!(d.ceil(iv).unix_timestamp_nanos(), up, "rounded up"); }
      Ok(())
    });
  }
  for i in 0 .. h.n(40_000, 2_000_000) {
    let seed = h.seed.wrapping_mul(1_000_033) + i;
    let r = &mut Rng::new(seed);
    let s = span(r);
    let n = nanos(s);
    h.case(s.1 != 0, || format!("span {} s {} ns", s.0, s.1), || {
      let p = ProtoDuration { seconds: s.0, nanos: s.1, ..Default::default() };
      let d = p.to_time_duration();
      eq!(d.whole_nanoseconds(), n, "read from the wire");
      eq!(wire(&d.into_proto().into_option().ok_or("no span")?), s, "there and back");
      let a = p.to_std_duration_absolute();
      eq!(i128::try_from(a.as_nanos()).unwrap(), n.abs(), "absolute");
      match p.to_std_duration_checked() {
        Some(a) => eq!(i128::try_from(a.as_nanos()).unwrap(), n, "checked"),
        None => eq!(n < 0, true, "refused, though not negative"),
      }
      if n >= 0 {
        let a = std::time::Duration::new(s.0 as u64, s.1 as u32);
        eq!(wire(&a.into_proto().into_option().ok_or("no span")?), s, "standard span to the wire");
      }
      Ok(())
    });
  }
  // What a server may send: the signs of the parts need not agree.
  for i in 0 .. h.n(10_000, 500_000) {
    let seed = h.seed.wrapping_mul(1_000_037) + i;
    let r = &mut Rng::new(seed);
    let s = (match r.us(3) { 0 => r.range(-2, 3), 1 => r.range(-10_000, 10_000), _ => 0 }, r.range(-999_999_999, 1_000_000_000) as i32);
    h.case(s.0 < 0 || s.1 < 0, || format!("wire duration {} s {} ns", s.0, s.1), || {
      let p = ProtoDuration { seconds: s.0, nanos: s.1, ..Default::default() };
      let a = p.to_std_duration_checked();
      if s.0 < 0 || s.1 < 0 { eq!(a, None, "a negative part, accepted"); }
      else { eq!(a.map(|a| a.as_nanos()), Some(nanos(s) as u128), "checked"); }
      Ok(())
    });
  }
  h.finish()
}
