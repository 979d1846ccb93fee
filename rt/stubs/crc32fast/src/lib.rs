//! Stand-in for crc32fast: the same CRC-32 (IEEE), table driven.
#[derive(Clone, Debug, Default)]
pub struct Hasher(u32);
const fn table() -> [u32; 256] {
  let mut t = [0u32; 256];
  let mut i = 0;
  while i < 256 {
    let mut c = i as u32;
    let mut k = 0;
    while k < 8 { c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 }; k += 1; }
    t[i] = c;
    i += 1;
  }
  t
}
static T: [u32; 256] = table();
impl Hasher {
  pub fn new() -> Self { Self(0) }
  pub fn update(&mut self, b: &[u8]) {
    let mut c = !self.0;
    for x in b { c = T[((c ^ u32::from(*x)) & 0xff) as usize] ^ (c >> 8); }
    self.0 = !c;
  }
  pub fn reset(&mut self) { self.0 = 0 }
  pub fn finalize(self) -> u32 { self.0 }
}
pub fn hash(b: &[u8]) -> u32 { let mut h = Hasher::new(); h.update(b); h.finalize() }
impl std::hash::Hasher for Hasher { fn finish(&self) -> u64 { u64::from(self.clone().finalize()) } fn write(&mut self, b: &[u8]) { self.update(b) } }
