@include prelude.inc
@include iter.inc
@text
pub fn vx_assert(b: bool) requires b {}
global size_of usize == 8;
pub enum AbslCode { InvalidArgument, FailedPrecondition, Unavailable, Aborted, ResourceExhausted, DataLoss, Unimplemented }
pub enum Error { AbslStatus(AbslCode, String) }
pub type Result<T> = core::result::Result<T, Error>;
// What a four-byte number reads as, in this machine's byte order.
pub uninterp spec fn w4(a: u8, b: u8, c: u8, d: u8) -> u32;
pub open spec fn word(m: Seq<u8>, i: int) -> u32 { w4(m[i], m[i + 1], m[i + 2], m[i + 3]) }
// ---- A run of bytes of the buffer's memory: where it begins, and the bytes. (There is no way to make one but to
// take a part of another, so its length never changes.)
pub struct Slc { pub g: Ghost<(int, Seq<u8>)> }
impl Slc {
  pub open spec fn at(&self) -> int { self.g@.0 }
  pub open spec fn view(&self) -> Seq<u8> { self.g@.1 }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn sub(&mut self, a: usize, b: usize) -> (r: &mut Slc)
    requires a <= b <= old(self)@.len(),
    ensures
      r.at() == old(self).at() + a, r@ == old(self)@.subrange(a as int, b as int),
      final(self).at() == old(self).at(), final(self)@.len() == old(self)@.len(),
      forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == (if a <= i < b { final(r)@[i - a] } else { old(self)@[i] }),
      *final(r) == *r ==> *final(self) == *old(self),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn fill(&mut self, x: u8)
    ensures final(self)@.len() == old(self)@.len(), final(self).at() == old(self).at(),
      forall|i: int| 0 <= i < old(self)@.len() ==> final(self)@[i] == x,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u32(&mut self, x: u32)
    requires old(self)@.len() == 4,
    ensures final(self)@.len() == 4, final(self).at() == old(self).at(), word(final(self)@, 0) == x,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u32(&self) -> (r: u32)
    requires self@.len() == 4,
    ensures r == word(self@, 0),
  { unimplemented!() }
  // The pointer outlives the borrow: what it points at.
  #[verifier::external_body]
  pub fn detach(&mut self) -> (r: Region)
    ensures r.start as int == old(self).at(), r.len as int == old(self)@.len(), r.was@ == old(self)@, *final(self) == *old(self),
  { unimplemented!() }
}
pub struct Region { pub start: usize, pub len: usize, pub was: Ghost<Seq<u8>> }
// The buffer's memory, with the records in it that are committed and not yet read, oldest first.
pub struct Mem { pub s: Slc, pub q: Ghost<Seq<Range>> }
impl Mem {
  pub fn len(&self) -> (r: usize) ensures r == self.s@.len() { self.s.len() }
}
pub struct Counter { pub n: u64 }
#[verifier::external_body]
pub fn vx_stat(s: &Counter) {}
#[verifier::external_body]
pub fn vx_stat_by(s: &Counter, n: u64) {}
// tokio's watch channel: sending fails only without receivers, and the buffer keeps one.
#[verifier::external_body]
pub struct WatchTx {}
#[verifier::external_body]
#[derive(Debug)]
pub struct WatchErr {}
impl WatchTx {
  pub uninterp spec fn cur(&self) -> bool;
  #[verifier::external_body]
  pub fn send(&mut self, b: bool) -> (r: core::result::Result<(), WatchErr>)
    ensures r is Ok, final(self).cur() == b,
  { unimplemented!() }
}
#[verifier::external_body]
pub struct WatchRx {}
impl WatchTx {
  #[verifier::external_body]
  pub fn subscribe(&self) -> WatchRx { unimplemented!() }
}
impl WatchRx {
  #[verifier::external_body]
  pub fn vx_clone(&self) -> WatchRx { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_seen(&mut self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct Condvar {}
impl Condvar {
  #[verifier::external_body]
  pub fn notify_all(&self) { unimplemented!() }
}
// Threads holding a lock handle.
pub struct LockCount { pub g: Ghost<int> }
impl LockCount {
  #[verifier::external_body]
  pub fn load(&self) -> (r: u32) { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_add(&self, n: u32) -> (r: u32) { unimplemented!() }
}
impl Clone for LockCount { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
// A condition variable's wait_while returns only with the condition false.
#[verifier::external_body]
pub fn vx_returned(b: bool) ensures b { unimplemented!() }
@type_rule Box<dyn Fn(&mut ExtraLockedData) + Send> => ()
@type_rule Box<dyn Fn(&ExtraLockedData) -> bool + Send> => ()
@type_rule SendSyncNonNull<[u8]> => Mem
@type_rule SendSyncNonNull<__T> => __T
@type_rule NonNull<[u8]> => Mem
@type_rule NonNull<__T> => __T
@type_rule &mut [u8] => &mut Slc
@type_rule StartReadReturn<'a> => StartReadReturn
@type_rule Arc<AtomicU32> => LockCount
@type_rule Arc<RingBufferStats> => RingBufferStats
@type_rule MutexGuard<'_, __T> => __T
@type_rule Mutex<__T> => __T
@type_rule tokio::sync::watch::Sender<bool> => WatchTx
@type_rule tokio::sync::watch::Receiver<bool> => WatchRx
@type_rule std::result::Result<__T, __E> => core::result::Result<__T, __E>
@macro debug_assert => call1 vx_assert
@macro log::trace => drop
@macro log::debug => drop
@macro log::warn => drop
@rule std::mem::size_of::<u32>() => 4usize
@guard __p.lock()
@rule __x.cloned() => match __x { Some(vx_v) => Some(vx_v.vx_clone()), None => None }
@rule std::ptr::null_mut() => vx_null()
@rule TempReservationData::default() => vx_no_reservation()
@rule self.memory.0.len() => self.memory.len()
@rule self.memory.0.as_mut() => &mut self.memory.s
@rule self.next_write_start.0.as_mut() => &mut self.next_write_start
@rule self.committed_write_start.0.as_mut() => &mut self.committed_write_start
@rule self.last_write_end_before_wrap.0.as_mut() => &mut self.last_write_end_before_wrap
@rule self.next_read_start.0.as_mut() => &mut self.next_read_start
@rule self.memory()[__a .. __b] => *self.memory().sub(__a, __b)
@rule guard.memory()[__a .. __b] => *guard.memory().sub(__a, __b)
@rule __s.copy_from_slice(&__x.to_ne_bytes()) => __s.put_u32(__x)
@rule u32::from_ne_bytes(__s.try_into().unwrap()) => __s.get_u32()
@rule __x.inc_by(__n) => vx_stat_by(__x, __n)
@rule __x.inc() => vx_stat(__x)
@rule __x.into() => (__x as u64)
@rule __c.wait_while(guard, |guard| __b) => { if __b { __c.vx_wait(guard); vx_returned(!(__b)); } }
@rule __c.wait(guard) => __c.vx_wait(guard)
@rule __l.fetch_add(__n, Ordering::Relaxed) => __l.fetch_add(__n)
@rule __l.load(Ordering::Relaxed) => __l.load()
@rule std::mem::transmute::<&mut [u8], &'a mut [u8]>(__x) => __x.detach()
@rule std::mem::transmute::<&[u8], &'a [u8]>(__x) => __x
@rule (guard.has_read_reservation_cb)(__e) => guard.vx_has_read_reservation()
@rule (guard.has_write_reservation_cb)(__e) => guard.vx_has_write_reservation()
@rule (self.has_read_reservation_cb)(__e) => self.vx_has_read_reservation()
@rule (self.has_write_reservation_cb)(__e) => self.vx_has_write_reservation()
@rule (self.on_total_data_loss_cb)(__e) => self.vx_on_total_data_loss()
@type bd-buffer/src/buffer/mod.rs RingBufferStats
@type bd-buffer/src/buffer/common_ring_buffer.rs Cursor
@derive Clone, Copy
@type bd-buffer/src/buffer/common_ring_buffer.rs AllowOverwrite
@derive Clone, Copy
@type bd-buffer/src/buffer/common_ring_buffer.rs Range
@derive Clone
@type bd-buffer/src/buffer/common_ring_buffer.rs TempReservationData
@type bd-buffer/src/buffer/common_ring_buffer.rs LockHandleImpl
@type bd-buffer/src/buffer/common_ring_buffer.rs WaitForDrainData
@type bd-buffer/src/buffer/common_ring_buffer.rs Conditions
@type bd-buffer/src/buffer/common_ring_buffer.rs LockedData
@nogenerics
@dropfield thread_synchronizer
@type bd-buffer/src/buffer/common_ring_buffer.rs StartReadReturn
@nogenerics
@field extra_space: Region
@field record_data: Region
@type bd-buffer/src/buffer/common_ring_buffer.rs CommonRingBuffer
@nogenerics
@text
// What `#[derive(Default)]` gives.
pub fn vx_no_reservation() -> (r: TempReservationData)
  ensures r == (TempReservationData { range: Range { start: 0, size: 0 }, next_write_start: 0, last_write_end_before_wrap: None }),
{ TempReservationData { range: Range { start: 0, size: 0 }, next_write_start: 0, last_write_end_before_wrap: None } }
@fn bd-buffer/src/buffer/mod.rs to_u32
@spec
  requires value <= u32::MAX,
  ensures r == value,
