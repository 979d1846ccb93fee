//! deps: bd-rt
use hx::{eq, Hx, Rng};
use std::os::unix::ffi::OsStrExt;
// Independent reading of the hint: the number's decimal text, by float parsing of the standard library.
fn want(s: Option<&str>) -> usize {
  let host = std::thread::available_parallelism().map_or(1, |x| x.get()).clamp(1, 4096);
  match s.and_then(|s| s.parse::<f64>().ok()) {
    Some(f) if f.is_finite() && f.abs() >= f64::MIN_POSITIVE => {
      let t = f.trunc();
      if t < 1.0 { 1 } else if t >= 18446744073709551615.0 { usize::MAX } else { t as usize }
    },
    _ => host,
  }
}
fn main() {
  let mut h = Hx::new("a value of NUM_CPUS (unset, number, non-normal number, not a number, not text); distinct values counted");
  let mut vals: Vec<String> = ["", " ", "0", "-0", "0.0", "1", "2", "2.9", "0.5", "0.999", "1.0", "1.5", "-1", "-3.7", "4095.9", "4096", "4097", "5000", "100000", "1e3", "1E2", "1e-3", "1e-310", "5e-324", "2.2250738585072014e-308", "2.2250738585072009e-308", "1e30", "1e308", "1e309", "-1e309", "inf", "-inf", "+inf", "infinity", "NaN", "nan", "-nan", "abc", "4x", "x4", "0x10", "1_000", "1,5", " 4", "4 ", "+8", "8.", ".8", ".", "1e", "4294967296", "18446744073709551615", "18446744073709551616", "9007199254740993", "٣", "4\n", "three", "max", "auto"].iter().map(|s| (*s).to_string()).collect();
  let mut r = Rng::new(h.seed);
  for _ in 0 .. h.n(20_000, 400_000) {
    vals.push(match r.us(6) { 0 => format!("{}", r.below(20000)), 1 => format!("{}.{}", r.below(5000), r.below(1000)), 2 => format!("{}", f64::from_bits(r.next())), 3 => format!("{:e}", f64::from_bits(r.next())), 4 => format!("-{}", r.below(100)), _ => String::from_utf8_lossy(&r.bytes(4)).replace('\0', "0") });
  }
  std::env::remove_var("NUM_CPUS");
  h.case(true, || "unset".into(), || { eq!(bd_rt::num_cpus(), want(None), "NUM_CPUS unset"); Ok(()) });
  for v in vals {
    std::env::set_var("NUM_CPUS", &v);
    h.case(true, || format!("NUM_CPUS={v:?}"), || { eq!(bd_rt::num_cpus(), want(Some(&v)), "num_cpus()"); Ok(()) });
  }
  std::env::set_var("NUM_CPUS", std::ffi::OsStr::from_bytes(&[0x34, 0xff]));
  h.case(true, || "NUM_CPUS is not UTF-8".into(), || { eq!(bd_rt::num_cpus(), want(None), "num_cpus()"); Ok(()) });
  h.finish()
}
