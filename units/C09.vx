@include prelude.inc
@text
pub fn vx_assert(b: bool) requires b {}
pub trait MemorySized: Sized {
  // bytes in memory, as size() reports them (a value does not change while queued)
  spec fn bytes(&self) -> nat;
  fn size(&self) -> (r: usize) ensures r == self.bytes();
}
pub open spec fn total<T: MemorySized>(s: Seq<T>) -> nat
  decreases s.len(),
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().bytes() } }
// ---- The counter shared with other senders and the receiver: every read may see any value the others left.
// Of it, only what this operation itself added or took away is known.
pub struct Usage { pub g: Ghost<(int, int)> }
impl Usage {
  // added minus taken away by this side so far
  pub open spec fn mine(&self) -> int { self.g@.0 }
  // the counter right after the last addition
  pub open spec fn peak(&self) -> int { self.g@.1 }
  #[verifier::external_body]
  pub fn fetch_add(&mut self, n: u64) -> (r: u64)
    ensures final(self).mine() == old(self).mine() + n, final(self).peak() == r + n, r + n <= u64::MAX,
  { unimplemented!() }
  // Nobody takes away more than the counter holds for him.
  #[verifier::external_body]
  pub fn fetch_sub(&mut self, n: u64) -> (r: u64)
    requires old(self).mine() >= n,
    ensures final(self).mine() == old(self).mine() - n, final(self).peak() == old(self).peak(), r >= n,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&mut self) -> (r: u64)
    ensures *final(self) == *old(self), r >= old(self).mine(),
  { unimplemented!() }
}
// ---- tokio's bounded channel: what it accepts it hands out once, in order.
pub enum TokioTrySendError<T> { Full(T), Closed(T) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Chan<T> { q: std::collections::VecDeque<T> }
impl<T> Chan<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn try_send(&mut self, m: T) -> (r: Result<(), TokioTrySendError<T>>)
    ensures
      r is Ok ==> final(self)@ == old(self)@.push(m),
      r is Err ==> final(self)@ == old(self)@ && (r->Err_0 == TokioTrySendError::Full(m) || r->Err_0 == TokioTrySendError::Closed(m)),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn recv(&mut self) -> (r: Option<T>)
    ensures
      r is Some ==> old(self)@.len() > 0 && r->Some_0 == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
      r is None ==> final(self)@ == old(self)@,
  { unimplemented!() }
}
pub enum Error { FullCountOverflow, FullSizeOverflow }
@type_rule impl Iterator<Item = T> => Vec<T>
@macro debug_assert => call1 vx_assert
@type_rule TokioSender<T> => Vec<T>
@type_rule TokioReceiver<L> => Vec<L>
@type bd-logger/src/pre_config_buffer.rs PreConfigBuffer
@type bd-logger/src/memory_bound.rs MemoryReservationErrorNoMemory
@type bd-logger/src/memory_bound.rs TrySendError
@type bd-logger/src/memory_bound.rs Sender
@dropfield tx memory_capacity_usage
@extra pub _t: Ghost<Option<T>>,
@type bd-logger/src/memory_bound.rs Receiver
@dropfield rx memory_capacity_usage
@extra pub _t: Ghost<Option<L>>,
@text
impl<T: MemorySized + std::fmt::Debug> PreConfigBuffer<T> {
  pub open spec fn wf(&self) -> bool {
    self.current_size == total(self.items@) && self.items@.len() <= self.max_count && total(self.items@) <= self.max_size
  }
  pub open spec fn fits(&self, log: T) -> bool { self.items@.len() < self.max_count && total(self.items@) + log.bytes() <= self.max_size }
}
@fn bd-logger/src/pre_config_buffer.rs PreConfigBuffer::new
@impl impl<T: MemorySized + std::fmt::Debug> PreConfigBuffer<T>
@spec
  ensures r.wf(), r.items@.len() == 0, r.max_count == max_count, r.max_size == max_size,
@fn bd-logger/src/pre_config_buffer.rs PreConfigBuffer::push
@impl impl<T: MemorySized + std::fmt::Debug> PreConfigBuffer<T>
@spec
  requires
    old(self).wf(),
    // sizes of things in memory do not add up past the address space
    old(self).current_size + log.bytes() <= usize::MAX,
  ensures
    final(self).wf(), final(self).max_count == old(self).max_count, final(self).max_size == old(self).max_size,
    r is Ok <==> old(self).fits(log),
    r is Ok ==> final(self).items@ == old(self).items@.push(log),
    r is Err ==> *final(self) == *old(self),
    r is Err ==> (r->Err_0 is FullCountOverflow <==> old(self).items@.len() >= old(self).max_count),
@before Ok(())
  proof { assert(self.items@.drop_last() =~= old(self).items@); }
@fn bd-logger/src/pre_config_buffer.rs PreConfigBuffer::pop_all
@impl impl<T: MemorySized + std::fmt::Debug> PreConfigBuffer<T>

@frule __v.into_iter() => __v
@spec
  ensures r@ == self.items@,
@fn bd-logger/src/memory_bound.rs Sender::void_memory_reservation
@impl impl<T: MemorySized> Sender<T>
@extra_param usage: &mut Usage
@frule self.memory_capacity_usage.load(__o) => usage.load()
@frule self.memory_capacity_usage.fetch_sub(__n, __o) => usage.fetch_sub(__n)
@spec
  requires old(usage).mine() >= memory_amount,
  ensures final(usage).mine() == old(usage).mine() - memory_amount, final(usage).peak() == old(usage).peak(),
@fn bd-logger/src/memory_bound.rs Sender::try_reserve_memory
@impl impl<T: MemorySized> Sender<T>
@extra_param usage: &mut Usage
@frule self.memory_capacity_usage.fetch_add(__n, __o) => usage.fetch_add(__n)
@frule self.memory_capacity_usage.fetch_sub(__n, __o) => usage.fetch_sub(__n)
@frule self.void_memory_reservation(__n) => self.void_memory_reservation(__n, usage)
@spec
  requires old(usage).mine() >= 0,
  ensures
    // accepted exactly when the accounted bytes stayed within the capacity
    r is Ok <==> final(usage).peak() <= self.memory_capacity,
    final(usage).mine() == old(usage).mine() + if r is Ok { memory_amount as int } else { 0 },
@fn bd-logger/src/memory_bound.rs Sender::try_send
@impl impl<T: MemorySized> Sender<T>
@extra_param usage: &mut Usage
@extra_param chan: &mut Chan<T>
@frule self.tx.try_send(__m) => chan.try_send(__m)
@frule self.void_memory_reservation(__n) => self.void_memory_reservation(__n, usage)
@frule self.try_reserve_memory(__n) => self.try_reserve_memory(__n, usage)
@spec
  requires old(usage).mine() >= 0,
  ensures
    // the bytes this sender added are exactly those of what it put into the channel
    final(usage).mine() - old(usage).mine() == total(final(chan)@) - total(old(chan)@),
    r is Ok ==> final(chan)@ == old(chan)@.push(message) && final(usage).peak() <= self.memory_capacity,
    r is Err ==> final(chan)@ == old(chan)@,
    match r {
      Ok(()) => true,
      Err(TrySendError::FullSizeOverflow(m)) => m == message && final(usage).peak() > self.memory_capacity,
      Err(TrySendError::FullCountOverflow(m)) => m == message && final(usage).peak() <= self.memory_capacity,
      Err(TrySendError::Closed(m)) => m == message && final(usage).peak() <= self.memory_capacity,
    },
@entry
  proof { assert(chan@.push(message).drop_last() =~= chan@); }
@fn bd-logger/src/memory_bound.rs Receiver::recv
@impl impl<T: MemorySized> Receiver<T>
@extra_param usage: &mut Usage
@extra_param chan: &mut Chan<T>
@frule self.rx.recv().await => chan.recv()
@frule self.memory_capacity_usage.fetch_sub(__n, __o) => usage.fetch_sub(__n)
@spec
  // the counter holds what the queued messages took
  requires old(usage).mine() >= total(old(chan)@),
  ensures
    final(usage).mine() - old(usage).mine() == total(final(chan)@) - total(old(chan)@),
    r is Some ==> old(chan)@.len() > 0 && r->Some_0 == old(chan)@[0] && final(chan)@ == old(chan)@.drop_first(),
    r is None ==> final(chan)@ == old(chan)@,
@entry
  proof { if chan@.len() > 0 { lemma_first(chan@); } }
@text
pub proof fn lemma_first<T: MemorySized>(s: Seq<T>)
  requires s.len() > 0,
  ensures total(s) == s[0].bytes() + total(s.drop_first()),
  decreases s.len(),
{
  if s.len() == 1 { assert(s.drop_first() =~= Seq::<T>::empty()); assert(s.drop_last() =~= Seq::<T>::empty()); }
  else {
    lemma_first(s.drop_last());
    assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
    assert(s.drop_first().last() == s.last());
  }
}
