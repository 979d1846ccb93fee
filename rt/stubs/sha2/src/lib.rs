//! Stand-in for sha2::Sha256.
use std::fmt;
pub trait Digest { fn new() -> Self; fn update(&mut self, b: impl AsRef<[u8]>); fn finalize(self) -> Output; fn digest(b: impl AsRef<[u8]>) -> Output where Self: Sized { let mut s = Self::new(); s.update(b); s.finalize() } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Output(pub [u8; 32]);
impl fmt::LowerHex for Output { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.0 { write!(f, "{b:02x}")?; } Ok(()) } }
impl std::ops::Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Output> for [u8; 32] { fn from(o: Output) -> Self { o.0 } }
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
const fn primes() -> [u32; 64] {
  [0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2]
}
impl Digest for Sha256 {
  fn new() -> Self { Self::default() }
  fn update(&mut self, b: impl AsRef<[u8]>) { self.0.extend_from_slice(b.as_ref()) }
  fn finalize(self) -> Output {
    let k = primes();
    let mut h: [u32; 8] = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];
    let mut m = self.0;
    let l = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&l.to_be_bytes());
    for c in m.chunks(64) {
      let mut w = [0u32; 64];
      for i in 0 .. 16 { w[i] = u32::from_be_bytes(c[i * 4 .. i * 4 + 4].try_into().unwrap()); }
      for i in 16 .. 64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
      }
      let mut v = h;
      for i in 0 .. 64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
      }
      for i in 0 .. 8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut o = [0u8; 32];
    for i in 0 .. 8 { o[i * 4 .. i * 4 + 4].copy_from_slice(&h[i].to_be_bytes()); }
    Output(o)
  }
}
