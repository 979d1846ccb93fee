//! deps: bd-buffer
//! Random histories of reservations, commits out of order and reads on the real volatile and file
//! buffers (small ones, so that every alignment of wrap, gap, reader and reservations comes up); oracle:
//! the addresses of the regions handed out, checked against each other and the buffer's memory.
include!("../common/rb.rs");
use hx::Hx;
fn main() {
  let mut h = Hx::new("random histories on volatile (1-6 producers) and file buffers of 5 to 312 bytes: reservations of every size (0, just fitting, one over, near 2^32), commits out of order, reads, locks, misuse; distinct histories with a drop or a refusal counted");
  let path = hx::scratch().join("c01.rb");
  let opt = Opt { regions: true, delivery: false };
  for i in 0 .. h.n(150_000, 2_500_000) {
    let seed = h.seed * 67_867_967 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || history(seed, &opt, &log, &path).map(|_| ()));
  }
  // Buffers of more than 2 GiB (their memory is not touched but for the records' lengths): the end of a
  // reservation does not fit into 32 bits.
  for (len, first, second) in [(3u32 << 30, 1u32 << 31, 1u32 << 31), (u32::MAX, u32::MAX - 100, 200), (u32::MAX, u32::MAX - 100, 92), ((1 << 31) + 5, (1 << 31) - 8, (1 << 31) - 8)] {
    h.case(true, || format!("large volatile buffer: len {len}, reservations of {first} and {second}"), || {
      let b = VolatileRingBuffer::new("large".to_string(), len, std::sync::Arc::new(RingBufferStats::default()));
      let mut p = b.clone().register_producer().map_err(|e| e.to_string())?;
      let a = { let m = p.reserve(first, false).map_err(|e| format!("first reservation: {e}"))?; hx::ck!(m.len() == first as usize, "length {}", m.len()); m.as_ptr() as usize };
      p.commit().map_err(|e| e.to_string())?;
      match p.reserve(second, false) {
        Ok(m) => { let at = m.as_ptr() as usize; hx::ck!(m.len() == second as usize && at >= a && at - a + second as usize + 4 <= len as usize, "outside the memory: {} {}", at - a, m.len()); }
        Err(e) => return Err(format!("second reservation: {e}")),
      }
      Ok(())
    });
  }
  h.finish()
}
