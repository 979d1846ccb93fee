//! Shared by the harness binaries: options, random numbers, bookkeeping of cases, report.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
  pub fn new(s: u64) -> Self { Self(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  /// 0 .. n
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
  pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
  pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
  pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0 .. n).map(|_| self.next() as u8).collect() }
}

// Twice the number of cases finished, plus one while one runs.
static AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Hx {
  pub seed: u64,
  pub thorough: bool,
  pub rng: Rng,
  out: String,
  rule: String,
  evals: u64,
  seen: HashSet<u64>,
  samples: Vec<String>,
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{u:04x}")).collect::<String>()),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

impl Hx {
  pub fn new(rule: &str) -> Self {
    let a: Vec<String> = std::env::args().collect();
    let g = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let seed: u64 = g("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    // A case that does not come back within two and a half minutes is reported as one that hangs.
    let out = g("--out").unwrap_or_default();
    std::thread::spawn(move || {
      let mut last = (u64::MAX, std::time::Instant::now());
      loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = AT.load(std::sync::atomic::Ordering::Relaxed);
        if now != last.0 || now % 2 == 0 { last = (now, std::time::Instant::now()); continue; }
        if last.1.elapsed().as_secs() < 150 { continue; }
        let c = format!("evaluation {} of --seed {seed}", now / 2 + 1);
        let e = "does not return (150 s)";
        println!("FAIL case: {c}\n  {e}");
        if !out.is_empty() { let _ = std::fs::write(&out, format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"\", \"samples\": [], \"case\": {}, \"error\": {}}}", now / 2 + 1, now / 2 + 1, esc(&c), esc(e))); }
        std::process::exit(1);
      }
    });
    Self {
      seed,
      thorough: g("--tier").as_deref() == Some("thorough"),
      rng: Rng::new(seed),
      out: g("--out").unwrap_or_default(),
      rule: rule.into(),
      evals: 0,
      seen: HashSet::new(),
      samples: vec![],
    }
  }
  /// Number of cases for the tier.
  pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
  fn report(&self, fail: Option<(&str, &str)>) {
    let mut s = format!(
      "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]",
      self.evals,
      self.seen.len(),
      esc(&self.rule),
      self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
    );
    if let Some((c, e)) = fail {
      s.push_str(&format!(", \"case\": {}, \"error\": {}", esc(c), esc(e)));
    }
    s.push('}');
    if self.out.is_empty() { println!("{s}") } else { std::fs::write(&self.out, s).unwrap(); }
  }
  /// Runs one case. `desc` identifies it (and counts it as distinct when `nontrivial`).
  pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    self.evals += 1;
    AT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    AT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if nontrivial || self.samples.is_empty() {
      let d = desc();
      let mut h = std::collections::hash_map::DefaultHasher::new();
      d.hash(&mut h);
      let new = nontrivial && self.seen.insert(h.finish());
      if new && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 977 == 0)) {
        self.samples.push(d.chars().take(600).collect());
      }
    }
    let e = match r {
      Ok(Ok(())) => return,
      Ok(Err(e)) => e,
      Err(p) => {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
      },
    };
    let d = desc();
    println!("FAIL case: {d}\n  {e}");
    self.report(Some((&d, &e)));
    std::process::exit(1);
  }
  pub fn finish(self) -> ! {
    self.report(None);
    println!("ok evaluations={} distinct={}", self.evals, self.seen.len());
    std::process::exit(0)
  }
}
pub fn scratch() -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("VX_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string())) }
#[macro_export]
macro_rules! ck {
  ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! eq {
  ($a:expr, $b:expr, $($m:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } } };
}
