@type_rule LockedData<ExtraLockedData> => LockedData
@type_rule CommonRingBuffer<ExtraLockedData> => CommonRingBuffer
@type_rule Weak<RingBufferImpl> => Option<RingBufferImpl>
@type_rule SendPointer<Container<Reservation>> => SendPointer
@include rbt.inc
@text
// ---- The queue of write reservations, oldest first; each entry keeps its address while it is queued.
pub struct Ptr { pub id: Ghost<int>, pub null: bool }
pub struct SendPointer(pub Ptr);
impl Ptr {
  pub fn is_null(&self) -> (r: bool) ensures r == self.null { self.null }
}
pub fn vx_null() -> (r: Ptr) ensures r.null { Ptr { id: Ghost(0), null: true } }
pub struct Entry { pub id: int, pub v: Reservation }
pub struct Queue { pub g: Ghost<Seq<Entry>> }
impl Queue {
  pub open spec fn view(&self) -> Seq<Entry> { self.g@ }
  pub open spec fn has(&self, id: int) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).id == id }
  pub open spec fn open(&self, id: int) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).id == id && !self@[i].v.committed }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn front(&self) -> (r: Option<&Reservation>)
    ensures r is Some <==> self@.len() > 0, r is Some ==> *r->Some_0 == self@[0].v,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn pop_front(&mut self)
    ensures final(self)@ == (if old(self)@.len() > 0 { old(self)@.drop_first() } else { old(self)@ }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn emplace_back(&mut self, v: Reservation) -> (r: Ptr)
    ensures !r.null, !old(self).has(r.id@), final(self)@ == old(self)@.push(Entry { id: r.id@, v }),
  { unimplemented!() }
  // The entry at that address, which must still be queued.
  #[verifier::external_body]
  pub fn entry(&mut self, p: &Ptr) -> (r: &mut Reservation)
    requires !p.null, old(self).has(p.id@),
    ensures
      exists|i: int| 0 <= i < old(self)@.len() && (#[trigger] old(self)@[i]).id == p.id@ && *r == old(self)@[i].v
        && final(self)@ == old(self)@.update(i, Entry { id: p.id@, v: *final(r) }),
  { unimplemented!() }
}
@type_rule IntrusiveQueueWithFreeList<Reservation> => Queue
@rule Self::inner_start_read(__g, __c, __b) => Self::vx_inner_start_read(&mut __g, __c, __b)
@rule &mut common_ring_buffer => &mut *common_ring_buffer
@rule __q.map_mut(__p, |__r| __b) => { let __r = __q.entry(&__p); __b }
@type bd-buffer/src/buffer/volatile_ring_buffer.rs Reservation
@derive Clone
@type bd-buffer/src/buffer/volatile_ring_buffer.rs ActiveConsumerData
@type bd-buffer/src/buffer/volatile_ring_buffer.rs ExtraLockedData
@type bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl
@type bd-buffer/src/buffer/volatile_ring_buffer.rs ProducerImpl
@type bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl
@text
pub open spec fn en(r: Range) -> int { r.start + r.size }
// Two runs of bytes have one in common.
pub open spec fn inter(a: Range, b: Range) -> bool { a.start <= en(b) - 1 && en(a) - 1 >= b.start }
// ---- Where the records that are unread or reserved lie, oldest first: they follow each other, and at most once
// the next one is at the beginning of the memory again, with the gap left behind noted in `l`.
pub open spec fn lap(s: Seq<Range>, j: int) -> bool { s[j].start < s[0].start }
pub open spec fn ends(l: Option<u32>, e: int) -> bool { l is Some && l->0 == e - 1 }
pub open spec fn step(s: Seq<Range>, l: Option<u32>, i: int) -> bool {
  if lap(s, i) == lap(s, i + 1) { s[i + 1].start == en(s[i]) && !ends(l, en(s[i])) }
  else { s[i + 1].start == 0 && ends(l, en(s[i])) }
}
pub open spec fn layout(s: Seq<Range>, nws: int, l: Option<u32>, len: int, extra: int) -> bool {
  &&& 0 <= nws <= len
  &&& s.len() > 0 ==> nws == en(s.last())
  &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).size > extra && en(s[i]) <= len
  &&& forall|j: int| 0 <= j < s.len() && #[trigger] lap(s, j) ==> en(s[j]) <= s[0].start
  &&& forall|i: int, j: int| 0 <= i < j < s.len() && #[trigger] lap(s, i) ==> #[trigger] lap(s, j)
  &&& forall|i: int, j: int| 0 <= i < j < s.len() && #[trigger] lap(s, i) == #[trigger] lap(s, j) ==> en(s[i]) <= s[j].start
  &&& forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] step(s, l, i)
}
pub open spec fn after(s: Seq<Range>, l: Option<u32>) -> u32 { if ends(l, en(s[0])) { 0 } else { en(s[0]) as u32 } }
pub open spec fn l_after(s: Seq<Range>, l: Option<u32>) -> Option<u32> { if ends(l, en(s[0])) { None } else { l } }
// The oldest goes.
pub proof fn lemma_pop(s: Seq<Range>, nws: int, l: Option<u32>, len: int, extra: int)
  requires layout(s, nws, l, len, extra), s.len() > 0, extra >= 0,
  ensures
    s.len() > 1 ==> s[1].start == after(s, l),
    s.len() > 1 ==> layout(s.drop_first(), nws, l_after(s, l), len, extra),
    layout(s.drop_first(), nws, l, len, extra) || (s.len() > 1 && ends(l, en(s[0]))),
    s.len() > 1 && lap(s, 1) ==> layout(s.drop_first(), nws, None, len, extra) && layout(s.drop_first(), nws, l, len, extra),
{
  let t = s.drop_first();
  assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i + 1] by {}
  if s.len() > 1 {
    assert(step(s, l, 0));
    assert(s[0].size > extra);
    assert(t.last() == s.last());
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).size > extra && en(t[i]) <= len by { assert(s[i + 1].size > extra); }
    if lap(s, 1) {
      assert forall|j: int| 0 <= j < t.len() implies !#[trigger] lap(t, j) && lap(s, j + 1) by {
        if j > 0 { assert(lap(s, 1) && lap(s, j + 1)); assert(en(s[1]) <= s[j + 1].start); assert(s[1].size > extra); }
      }
      assert forall|i: int, j: int| 0 <= i < j < t.len() implies en(t[i]) <= t[j].start by { assert(lap(t, i) == lap(t, j)); assert(lap(s, i + 1) && lap(s, j + 1)); assert(en(s[i + 1]) <= s[j + 1].start); }
      assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(t, None, i) by {
        assert(step(s, l, i + 1)); assert(!lap(t, i) && !lap(t, i + 1)); assert(lap(s, i + 1) && lap(s, i + 2));
      }
      assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(t, l, i) by {
        assert(step(t, None, i)); assert(lap(s, i + 1)); assert(en(s[i + 1]) <= s[0].start); assert(s[0].size > extra);
      }
    } else {
      assert forall|j: int| 0 <= j < t.len() implies (#[trigger] lap(t, j) == lap(s, j + 1)) by {
        if j > 0 {
          if lap(s, j + 1) { assert(en(s[j + 1]) <= s[0].start); assert(s[j + 1].size > extra); }
          else { assert(en(s[1]) <= s[j + 1].start) by { assert(lap(s, 1) == lap(s, j + 1)); } }
        }
      }
      assert forall|j: int| 0 <= j < t.len() && #[trigger] lap(t, j) implies en(t[j]) <= t[0].start by { assert(lap(s, j + 1)); }
      assert forall|i: int, j: int| 0 <= i < j < t.len() && #[trigger] lap(t, i) implies #[trigger] lap(t, j) by { assert(lap(s, i + 1)); assert(lap(s, j + 1)); }
      assert forall|i: int, j: int| 0 <= i < j < t.len() && #[trigger] lap(t, i) == #[trigger] lap(t, j) implies en(t[i]) <= t[j].start by { assert(lap(s, i + 1) == lap(s, j + 1)); }
      assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(t, l, i) by { assert(step(s, l, i + 1)); assert(lap(t, i) == lap(s, i + 1)); assert(lap(t, i + 1) == lap(s, i + 2)); }
    }
  }
}
// Different records share no byte.
pub proof fn lemma_apart(s: Seq<Range>, nws: int, l: Option<u32>, len: int, extra: int, i: int, j: int)
  requires layout(s, nws, l, len, extra), 0 <= i < s.len(), 0 <= j < s.len(), i != j, extra >= 0,
  ensures !inter(s[i], s[j]),
{
  let (a, b) = if i < j { (i, j) } else { (j, i) };
  assert(s[a].size > extra && s[b].size > extra && s[0].size > extra);
  if lap(s, a) == lap(s, b) { assert(en(s[a]) <= s[b].start); }
  else {
    assert(lap(s, b));
    assert(en(s[b]) <= s[0].start);
    if a > 0 { assert(!lap(s, a)); assert(!lap(s, 0)); assert(en(s[0]) <= s[a].start); }
  }
}
// Where the next record would go.
pub open spec fn place(nws: int, w: int, len: int) -> int { if nws + w <= len { nws } else { 0 } }
pub open spec fn temp_ok(t: TempReservationData, nws: int, w: int, len: int) -> bool {
  &&& t.range.start == place(nws, w, len) && t.range.size == w && t.next_write_start == place(nws, w, len) + w
  &&& t.last_write_end_before_wrap is Some <==> nws + w > len
  &&& t.last_write_end_before_wrap is Some ==> t.last_write_end_before_wrap->0 == nws - 1
}
pub open spec fn gap(t: TempReservationData, len: int) -> Range { Range { start: (t.last_write_end_before_wrap->0 + 1) as u32, size: (len - (t.last_write_end_before_wrap->0 + 1)) as u32 } }
// The new record, or the gap it leaves by wrapping, covers a byte of `r`.
pub open spec fn hits(t: TempReservationData, r: Range, len: int) -> bool {
  inter(r, t.range) || (t.last_write_end_before_wrap is Some && inter(gap(t, len), r))
}
pub open spec fn l_push(t: TempReservationData, l: Option<u32>) -> Option<u32> {
  let m = if t.last_write_end_before_wrap is Some { t.last_write_end_before_wrap } else { l };
  if m is Some && en(t.range) - 1 > m->0 { None } else { m }
}
// A new one that does not hit the oldest hits none.
pub proof fn lemma_push(s: Seq<Range>, nws: int, l: Option<u32>, len: int, extra: int, w: int, t: TempReservationData)
  requires layout(s, nws, l, len, extra), extra >= 0, extra < w <= len <= u32::MAX, temp_ok(t, nws, w, len), s.len() > 0 ==> !hits(t, s[0], len),
  ensures layout(s.push(t.range), t.next_write_start as int, l_push(t, l), len, extra),
{
  let n = s.len() as int;
  let p = s.push(t.range);
  let m = l_push(t, l);
  assert forall|i: int| 0 <= i < n implies p[i] == s[i] by {}
  assert(p[n] == t.range);
  if n > 0 {
    let last = n - 1;
    assert(s[0].size > extra && s[last].size > extra);
    assert forall|j: int| 0 <= j < n implies #[trigger] lap(p, j) == lap(s, j) by {}
    let g = gap(t, len);
    if nws + w <= len {
      if lap(s, last) {
        assert(en(s[last]) <= s[0].start);
        assert(t.range.start == en(s[last]));
        assert(en(t.range) <= s[0].start);
        assert(lap(p, n));
      } else {
        if last > 0 { assert(!lap(s, 0)); assert(en(s[0]) <= s[last].start); }
        assert(!lap(p, n));
        assert forall|j: int| 0 <= j < n implies !lap(s, j) by { if j < last { if lap(s, j) { assert(lap(s, last)); } } }
      }
      assert forall|i: int| 0 <= i < n && lap(p, i) == lap(p, n) implies en(p[i]) <= p[n].start by {
        if i < last { assert(lap(s, i) == lap(s, last)); assert(en(s[i]) <= s[last].start); }
      }
      assert(step(p, m, last));
    } else {
      if lap(s, last) {
        assert(en(s[last]) <= s[0].start);
        assert(en(s[0]) <= len);
        assert(inter(g, s[0]));
        assert(false);
      }
      if last > 0 { assert(!lap(s, 0)); assert(en(s[0]) <= s[last].start); }
      assert forall|j: int| 0 <= j < n implies !lap(s, j) by { if j < last { if lap(s, j) { assert(lap(s, last)); } } }
      assert(s[0].start >= w);
      assert(lap(p, n));
      assert(m == t.last_write_end_before_wrap);
      assert(step(p, m, last));
    }
    assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] step(p, m, i) by {
      if i < last {
        assert(step(s, l, i));
        assert(lap(p, i) == lap(s, i) && lap(p, i + 1) == lap(s, i + 1));
        assert(s[i].size > extra && s[i + 1].size > extra);
        if nws + w <= len {
          if lap(s, i) != lap(s, i + 1) {
            // the one gap there is stays noted: the new record ends before it
            assert(!lap(s, i));
            assert(lap(s, i + 1)) ;
            if i + 1 < last { assert(lap(s, last)); }
            assert(lap(p, n));
            if i > 0 { assert(!lap(s, 0)); assert(en(s[0]) <= s[i].start); }
          }
        } else {
          assert(!lap(s, i) && !lap(s, i + 1));
          assert(lap(s, i) == lap(s, last));
          assert(en(s[i]) <= s[last].start);
        }
      }
    }
    assert forall|i: int, j: int| 0 <= i < j < p.len() && #[trigger] lap(p, i) == #[trigger] lap(p, j) implies en(p[i]) <= p[j].start by {
      if j < n { assert(lap(s, i) == lap(s, j)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < p.len() && #[trigger] lap(p, i) implies #[trigger] lap(p, j) by {
      if j < n { assert(lap(s, i)); assert(lap(s, j)); } else if i < last { assert(lap(s, i)); assert(lap(s, last)); }
    }
    assert forall|j: int| 0 <= j < p.len() && #[trigger] lap(p, j) implies en(p[j]) <= p[0].start by { if j < n { assert(lap(s, j)); } }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).size > extra && en(p[i]) <= len by { if i < n { assert(s[i].size > extra); } }
  } else {
    assert(!lap(p, 0));
  }
}
// ---- The state guarded by the lock.
pub open spec fn ranges(es: Seq<Entry>) -> Seq<Range> { Seq::new(es.len(), |i: int| es[i].v.range) }
impl ExtraLockedData {
  pub open spec fn resv(&self) -> Seq<Range> { ranges(self.reservations@) }
  pub open spec fn reading(&self) -> Option<Range> { if self.consumer is Some { self.consumer->0.reservation } else { None } }
  // Committed reservations wait only behind an uncommitted one.
  pub open spec fn front(&self) -> bool { self.reservations@.len() > 0 ==> !self.reservations@[0].v.committed }
  pub open spec fn distinct(&self) -> bool {
    forall|i: int, j: int| 0 <= i < j < self.reservations@.len() ==> (#[trigger] self.reservations@[i]).id != (#[trigger] self.reservations@[j]).id
  }
}
impl LockedData {
  pub open spec fn bytes(&self) -> Seq<u8> { self.memory.s@ }
  pub open spec fn mlen(&self) -> int { self.memory.s@.len() as int }
  pub open spec fn extra(&self) -> int { self.extra_bytes_per_record as int }
  pub open spec fn q(&self) -> Seq<Range> { self.memory.q@ }
  pub open spec fn slots(&self) -> Seq<Range> { self.q() + self.extra_locked_data.resv() }
  pub open spec fn shape(&self) -> bool { self.memory.s.at() == 0 && self.mlen() <= u32::MAX && 4 <= self.extra_bytes_per_record <= 8 }
  pub open spec fn indices(&self) -> bool {
    &&& self.next_read_start == (if self.q().len() == 0 { None } else { Some(self.q()[0].start) })
    &&& self.committed_write_start == (if self.q().len() == 0 { None } else { Some(self.q().last().start) })
  }
  // each record's length is in its place in the memory
  pub open spec fn sizes(&self, s: Seq<Range>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> word(self.bytes(), (#[trigger] s[i]).start + self.extra() - 4) == s[i].size - self.extra()
  }
  pub open spec fn laid(&self) -> bool {
    layout(self.slots(), self.next_write_start as int, self.last_write_end_before_wrap, self.mlen(), self.extra())
  }
  pub open spec fn wf(&self) -> bool { self.core() && self.extra_locked_data.front() }
  pub open spec fn core(&self) -> bool {
    &&& self.shape() && self.laid() && self.indices() && self.sizes(self.slots())
    &&& !self.pending_total_data_loss_reset && self.allow_overwrite is Yes
    &&& self.extra_locked_data.distinct()
    &&& self.extra_locked_data.reading() is Some ==> self.q().len() > 0 && self.q()[0] == self.extra_locked_data.reading()->0
  }
  // Nothing differs but bytes of the memory.
  pub open spec fn same_ctl(&self, o: Self) -> bool {
    *self == (LockedData { memory: Mem { s: self.memory.s, ..o.memory }, ..o }) && self.mlen() == o.mlen() && self.memory.s.at() == o.memory.s.at()
  }
  pub open spec fn same(&self, o: Self) -> bool { self.same_ctl(o) && self.bytes() =~= o.bytes() }
  // A byte differs only within [a, b).
  pub open spec fn wrote(&self, o: Self, a: int, b: int) -> bool {
    self.mlen() == o.mlen() && forall|i: int| 0 <= i < o.mlen() && !(a <= i < b) ==> #[trigger] self.bytes()[i] == o.bytes()[i]
  }
  // The bytes of the records `s` are what they were.
  pub open spec fn kept(&self, o: Self, s: Seq<Range>) -> bool {
    self.mlen() == o.mlen() && forall|j: int, x: int| 0 <= j < s.len() && (#[trigger] s[j]).start <= x < en(s[j]) ==> #[trigger] self.bytes()[x] == o.bytes()[x] 
  }
  // The k oldest unread records are gone; nothing else.
  pub open spec fn dropped(&self, o: Self, k: int) -> bool {
    &&& *self == (LockedData { memory: self.memory, next_read_start: self.next_read_start, committed_write_start: self.committed_write_start,
          last_write_end_before_wrap: self.last_write_end_before_wrap, ..o })
    &&& 0 <= k <= o.q().len() && self.q() == o.q().skip(k)
    &&& self.kept(o, self.slots())
  }
  pub open spec fn head_ok(&self) -> bool {
    &&& self.slots()[0] == self.q()[0] && self.q()[0].size > self.extra() && en(self.q()[0]) <= self.mlen()
    &&& word(self.bytes(), self.q()[0].start + self.extra() - 4) == self.q()[0].size - self.extra()
  }
  // What other threads may have done while this one waited.
  pub open spec fn later(&self, o: Self) -> bool {
    &&& self.wf() && self.extra_bytes_per_record == o.extra_bytes_per_record && self.mlen() == o.mlen()
    &&& self.extra_locked_data.consumer == o.extra_locked_data.consumer
  }
  // The callbacks the buffer is made with, as `new` is checked to give them.
  #[verifier::external_body]
  pub fn vx_has_read_reservation(&self) -> (r: bool) ensures has_read(self.extra_locked_data, r) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_has_write_reservation(&self) -> (r: bool) ensures has_write(self.extra_locked_data, r) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_on_total_data_loss(&mut self)
    ensures *final(self) == *old(self), // `|_| {}`
  { unimplemented!() }
  // The record being read is next_read (q[0]) after this advance; what is left is q.drop_first().
  pub open spec fn advanced(&self, o: Self, size: u32) -> bool {
    let s = o.next_read_start->0;
    let last = s == o.committed_write_start->0;
    let w = o.last_write_end_before_wrap is Some && o.last_write_end_before_wrap->0 == s + size - 1;
    *self == (LockedData {
      memory: Mem { q: Ghost(o.q().drop_first()), ..o.memory },
      next_read_start: if last { None } else if w { Some(0u32) } else { Some((s + size) as u32) },
      committed_write_start: if last { None } else { o.committed_write_start },
      last_write_end_before_wrap: if !last && w { None } else { o.last_write_end_before_wrap },
      ..o
    })
  }
}
pub open spec fn has_read(e: ExtraLockedData, r: bool) -> bool { r == (e.reading() is Some) }
pub open spec fn has_write(e: ExtraLockedData, r: bool) -> bool { r == (e.resv().len() > 0) }
pub proof fn lemma_head(o: LockedData)
  requires o.shape(), o.laid(), o.sizes(o.slots()), o.q().len() > 0,
  ensures o.head_ok(),
{
  let s = o.slots();
  assert(s[0] == o.q()[0]);
  assert(s[0].size > o.extra());
}
// `o` with bytes of its oldest record changed (`m`), then the oldest record gone (`f`).
pub proof fn lemma_advanced(o: LockedData, m: LockedData, f: LockedData)
  requires
    o.wf(), o.q().len() > 0, o.extra_locked_data.reading() is None,
    m.same_ctl(o), m.wrote(o, o.q()[0].start as int, o.q()[0].start + o.extra() - 4),
    f.advanced(m, o.q()[0].size),
  ensures f.wf(), f.dropped(o, 1),
{
  let s = o.slots();
  let t = f.slots();
  lemma_head(o);
  assert(f.q() =~= o.q().skip(1));
  assert(t =~= s.drop_first());
  lemma_pop(s, o.next_write_start as int, o.last_write_end_before_wrap, o.mlen(), o.extra());
  if o.q().len() > 1 {
    assert(s[1] == o.q()[1]);
    assert(o.q().last() == s[o.q().len() - 1]);
    assert(o.q().last().start != o.q()[0].start) by {
      lemma_apart(s, o.next_write_start as int, o.last_write_end_before_wrap, o.mlen(), o.extra(), 0, o.q().len() - 1);
      assert(s[o.q().len() - 1].size > o.extra());
    }
  } else {
    if s.len() > 1 && ends(o.last_write_end_before_wrap, en(s[0])) {
      assert(step(s, o.last_write_end_before_wrap, 0));
    }
  }
  assert forall|j: int, x: int| 0 <= j < t.len() && (#[trigger] t[j]).start <= x < en(t[j]) implies #[trigger] f.bytes()[x] == o.bytes()[x] by {
    assert(t[j] == s[j + 1]);
    lemma_apart(s, o.next_write_start as int, o.last_write_end_before_wrap, o.mlen(), o.extra(), 0, j + 1);
    assert(s[j + 1].size > o.extra());
    assert(s[0].size > o.extra() && !inter(s[0], s[j + 1]));
    assert(!(s[0].start <= x < en(s[0])));
    assert(f.bytes() == m.bytes());
    assert(m.bytes()[x] == o.bytes()[x]);
  }
  assert forall|i: int| 0 <= i < t.len() implies word(f.bytes(), (#[trigger] t[i]).start + f.extra() - 4) == t[i].size - f.extra() by {
    assert(t[i] == s[i + 1]);
    assert(s[i + 1].size > o.extra());
    let a = t[i].start + f.extra() - 4;
    assert(f.bytes()[a] == o.bytes()[a] && f.bytes()[a + 1] == o.bytes()[a + 1] && f.bytes()[a + 2] == o.bytes()[a + 2] && f.bytes()[a + 3] == o.bytes()[a + 3]);
  }
}
pub proof fn lemma_dropped(o: LockedData, m: LockedData, f: LockedData, k: int)
  requires m.dropped(o, k), f.dropped(m, 1),
  ensures f.dropped(o, k + 1),
{
  assert(f.q() =~= o.q().skip(k + 1));
  let t = f.slots();
  assert forall|j: int, x: int| 0 <= j < t.len() && (#[trigger] t[j]).start <= x < en(t[j]) implies #[trigger] f.bytes()[x] == o.bytes()[x] by {
    assert(t =~= m.slots().drop_first());
    assert(f.slots()[j] == m.slots()[j + 1]);
    assert(f.bytes()[x] == m.bytes()[x]);
  }
}
impl Condvar {
  #[verifier::external_body]
  pub fn vx_wait(&self, d: &mut LockedData)
    requires old(d).wf(),
    ensures final(d).later(*old(d)),
      final(d).q().len() > 0 ==> final(d).head_ok(), // follows from wf (lemma_head)
  { unimplemented!() }
}
@fn bd-buffer/src/buffer/common_ring_buffer.rs intersect
@spec
  requires a.start + a.size >= 1, b.start + b.size >= 1, en(*a) <= u32::MAX, en(*b) <= u32::MAX,
  ensures r == inter(*a, *b),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::is_shutdown
@impl impl LockedData
@spec
  ensures r == self.shutdown_lock is Some,
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::overflow_add
@impl impl LockedData
@spec
  ensures r is Some <==> sum(refs(addends@)) <= u32::MAX, r is Some ==> r->0 == sum(refs(addends@)),
@loop 0
  invariant total + sum(vx_it0.rest()) == sum(refs(addends@)),
  ensures total == sum(refs(addends@)),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof { if vx_it0.rest().len() > 0 { lemma_sum(vx_it0.rest().drop_first()); } }
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::next_write_start
@impl impl LockedData
@spec
  ensures *r == old(self).next_write_start, *final(self) == (LockedData { next_write_start: *final(r), ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::committed_write_start
@impl impl LockedData
@spec
  ensures *r == old(self).committed_write_start, *final(self) == (LockedData { committed_write_start: *final(r), ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::last_write_end_before_wrap
@impl impl LockedData
@spec
  ensures *r == old(self).last_write_end_before_wrap, *final(self) == (LockedData { last_write_end_before_wrap: *final(r), ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::next_read_start
@impl impl LockedData
@spec
  ensures *r == old(self).next_read_start, *final(self) == (LockedData { next_read_start: *final(r), ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::memory
@impl impl LockedData
@spec
  ensures *r == old(self).memory.s, *final(self) == (LockedData { memory: Mem { s: *final(r), ..old(self).memory }, ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::next_read_start_to_use
@impl impl LockedData
@spec
  ensures
    cursor is No ==> *r == old(self).next_read_start && *final(self) == (LockedData { next_read_start: *final(r), ..*old(self) }),
    cursor is Yes ==> *r == old(self).next_cursor_read_start && *final(self) == (LockedData { next_cursor_read_start: *final(r), ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::record_size_offset
@impl impl LockedData
@spec
  requires self.shape(), start + self.extra() <= u32::MAX,
  ensures r == start + self.extra() - 4,
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::extra_data
@impl impl LockedData
@spec
  requires old(self).shape(), start + old(self).extra() - 4 <= old(self).mlen(),
  ensures
    r.at() == start, r@ == old(self).bytes().subrange(start as int, start + old(self).extra() - 4),
    final(self).same_ctl(*old(self)),
    forall|i: int| 0 <= i < old(self).mlen() ==> #[trigger] final(self).bytes()[i] ==
      (if start <= i < start + old(self).extra() - 4 { final(r)@[i - start] } else { old(self).bytes()[i] }),
    *final(r) == *r ==> *final(self) == *old(self),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::zero_extra_data
@impl impl LockedData
@spec
  requires old(self).shape(), start + old(self).extra() - 4 <= old(self).mlen(),
  ensures final(self).same_ctl(*old(self)), final(self).wrote(*old(self), start as int, start + old(self).extra() - 4),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::finish_reservation
@impl impl LockedData
@spec
  requires
    old(self).shape(), reservation.size == original_size + old(self).extra(), en(*reservation) <= old(self).mlen(),
  ensures
    r.at() == reservation.start + old(self).extra(), r@.len() == original_size,
    final(self).mlen() == old(self).mlen(), final(self).memory.s.at() == 0,
    *final(self) == (LockedData { memory: Mem { s: final(self).memory.s, ..old(self).memory }, last_write_end_before_wrap:
      if old(self).last_write_end_before_wrap is Some && en(*reservation) - 1 > old(self).last_write_end_before_wrap->0 { None } else { old(self).last_write_end_before_wrap }, ..*old(self) }),
    forall|i: int| 0 <= i < old(self).mlen() && !(reservation.start <= i < en(*reservation)) ==> #[trigger] final(self).bytes()[i] == old(self).bytes()[i],
    word(final(self).bytes(), reservation.start + old(self).extra() - 4) == original_size,
@before self.zero_extra_data(reservation.start)
  let ghost b1 = self.bytes();
  proof {
    let o = reservation.start + self.extra() - 4;
    assert(forall|i: int| 0 <= i < b1.len() && !(o <= i < o + 4) ==> b1[i] == old(self).bytes()[i]);
    assert(word(b1, o) == original_size);
  }
@after self.zero_extra_data(reservation.start)
  let ghost b2 = self.bytes();
  proof {
    let o = reservation.start + self.extra() - 4;
    assert(forall|i: int| 0 <= i < b1.len() && !(reservation.start <= i < o) ==> b2[i] == b1[i]);
    assert(word(b2, o) == original_size);
  }
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::load_next_read_size
@impl impl LockedData
@spec
  requires
    old(self).shape(), (if cursor is No { old(self).next_read_start } else { old(self).next_cursor_read_start }) is Some,
    (if cursor is No { old(self).next_read_start } else { old(self).next_cursor_read_start })->0 + old(self).extra() <= u32::MAX,
  ensures
    final(self).same(*old(self)),
    ({
      let s = (if cursor is No { old(self).next_read_start } else { old(self).next_cursor_read_start })->0;
      let n = word(old(self).bytes(), s + old(self).extra() - 4);
      let fits = s + old(self).extra() <= old(self).mlen() && n > 0 && s + old(self).extra() + n <= old(self).mlen();
      &&& cursor is No ==> (r is Ok <==> fits)
      &&& r is Ok ==> fits && r->Ok_0 == n
    }),
@entry
  reveal_with_fuel(sum, 5);
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::intersect_in_wrap_gap
@impl impl LockedData
@spec
  requires self.shape(), en(*range) >= 1, en(*range) <= u32::MAX,
    reservation_data.last_write_end_before_wrap is Some ==> reservation_data.last_write_end_before_wrap->0 < self.mlen(),
  ensures r == (reservation_data.last_write_end_before_wrap is Some && inter(gap(*reservation_data, self.mlen()), *range)),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::intersect_reservation
@impl impl LockedData
@spec
  requires self.shape(), en(*range) >= 1, en(*range) <= u32::MAX, en(reservation_data.range) >= 1, en(reservation_data.range) <= u32::MAX,
    reservation_data.last_write_end_before_wrap is Some ==> reservation_data.last_write_end_before_wrap->0 < self.mlen(),
  ensures r == hits(*reservation_data, *range, self.mlen()),
@text
pub open spec fn sum<'a>(s: Seq<&'a u32>) -> int
  decreases s.len(),
{ if s.len() == 0 { 0 } else { *s[0] + sum(s.drop_first()) } }
pub proof fn lemma_sum<'a>(s: Seq<&'a u32>)
  ensures sum(s) >= 0,
  decreases s.len(),
{ if s.len() > 0 { lemma_sum(s.drop_first()); } }
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::return_record_refused
@impl impl LockedData
@spec
  ensures r == Error::AbslStatus(code, r->AbslStatus_1),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::total_data_loss_reset
@impl impl LockedData
@entry
  self.memory.q = Ghost(Seq::empty());
@spec
  ensures
    final(self).q().len() == 0, final(self).mlen() == old(self).mlen(), final(self).memory.s.at() == old(self).memory.s.at(),
    *final(self) == (LockedData { memory: final(self).memory, next_write_start: 0, committed_write_start: None, last_write_end_before_wrap: None,
      next_read_start: None, next_cursor_read_start: None, ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::on_total_data_loss
@impl impl LockedData
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::maybe_do_total_data_loss_reset
@impl impl LockedData
@spec
  ensures !old(self).pending_total_data_loss_reset ==> *final(self) == *old(self),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::advance_next_read
@impl impl LockedData
@entry
  if let Cursor::No = cursor { self.memory.q = Ghost(self.memory.q@.drop_first()); }
@spec
  requires
    old(self).committed_write_start is Some, (if cursor is No { old(self).next_read_start } else { old(self).next_cursor_read_start }) is Some,
    1 <= (if cursor is No { old(self).next_read_start } else { old(self).next_cursor_read_start })->0 + size <= u32::MAX,
  ensures
    cursor is No ==> final(self).advanced(*old(self), size),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::advance_next_read_due_to_write
@impl impl LockedData
@spec
  requires
    old(guard).wf(), reservation_data.range.size > old(guard).extra(), reservation_data.range.size <= old(guard).mlen(),
    temp_ok(*reservation_data, old(guard).next_write_start as int, reservation_data.range.size as int, old(guard).mlen()),
    old(guard).extra_locked_data.reading() is Some ==> !hits(*reservation_data, old(guard).extra_locked_data.reading()->0, old(guard).mlen()),
  ensures
    r is Ok, final(guard).wf(),
    // only what is in the way goes, and always the oldest
    exists|k: int| #[trigger] final(guard).dropped(*old(guard), k) && (forall|i: int| 0 <= i < k ==> hits(*reservation_data, #[trigger] old(guard).q()[i], old(guard).mlen())),
    final(guard).q().len() > 0 ==> !hits(*reservation_data, final(guard).q()[0], final(guard).mlen()),
@entry
  let ghost mut k: int = 0;
  proof { assert(guard.q().skip(0) =~= guard.q()); }
@loop 0
  invariant
    guard.wf(), guard.dropped(*old(guard), k),
    reservation_data.range.size > guard.extra(), reservation_data.range.size <= guard.mlen(),
    temp_ok(*reservation_data, guard.next_write_start as int, reservation_data.range.size as int, guard.mlen()),
    guard.extra_locked_data.reading() is Some ==> !hits(*reservation_data, guard.extra_locked_data.reading()->0, guard.mlen()),
    forall|i: int| 0 <= i < k ==> hits(*reservation_data, #[trigger] old(guard).q()[i], old(guard).mlen()),
  ensures
    guard.q().len() > 0 ==> !hits(*reservation_data, guard.q()[0], guard.mlen()),
  decreases guard.q().len(),
@loop_entry 0
  let ghost g0 = *guard;
  proof { if guard.q().len() > 0 { lemma_head(*guard); } }
@before guard.zero_extra_data(next_read_start)
  let ghost g1 = *guard;
  proof { assert(g1.same(g0)); assert(g1.memory.s == g0.memory.s); assert(g1 == g0); }
@after guard.zero_extra_data(next_read_start)
  let ghost g2 = *guard;
@after guard.advance_next_read(next_read_actual_size, Cursor::No)
  proof {
    assert(old(guard).q()[k] == g0.q()[0]);
    lemma_advanced(g0, g2, *guard);
    lemma_dropped(*old(guard), g0, *guard, k);
    k = k + 1;
  }
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::calculate_next_write_start
@impl impl LockedData
@spec
  requires old(self).shape(), old(self).next_write_start <= old(self).mlen(), 0 < write_size <= old(self).mlen(),
  ensures
    *final(self) == *old(self),
    temp_ok(r, old(self).next_write_start as int, write_size as int, old(self).mlen()),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::start_reserve_common
@impl impl LockedData
@entry
  reveal_with_fuel(sum, 5);
@spec
  requires self.shape(),
  ensures
    r is Ok ==> r->Ok_0 == size + self.extra() && size > 0 && r->Ok_0 <= self.mlen() && !self.pending_total_data_loss_reset,
    r is Err && size > 0 && size + self.extra() <= self.mlen() && !self.pending_total_data_loss_reset ==> (r->Err_0 matches Error::AbslStatus(AbslCode::FailedPrecondition, _)),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::finish_commit_common
@impl impl LockedData
@spec
  requires old(self).shape(), en(*reservation) <= old(self).mlen(), reservation.size > old(self).extra(),
  ensures
    r.at() == reservation.start, r@ == old(self).bytes().subrange(reservation.start as int, reservation.start + old(self).extra() - 4),
    final(self).mlen() == old(self).mlen(), final(self).memory.s.at() == 0,
    *final(self) == (LockedData { memory: Mem { s: final(self).memory.s, ..old(self).memory }, readable: final(self).readable, ..*old(self) }),
    final(self).readable.cur(), *final(r) == *r ==> final(self).memory == old(self).memory,
    forall|i: int| 0 <= i < old(self).mlen() ==> #[trigger] final(self).bytes()[i] ==
      (if reservation.start <= i < reservation.start + old(self).extra() - 4 { final(r)@[i - reservation.start] } else { old(self).bytes()[i] }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::advance_next_commited_write_start
@impl impl LockedData
@entry
  self.memory.q = Ghost(self.memory.q@.push(*reservation));
@spec
  requires reservation.size >= old(self).extra_bytes_per_record,
  ensures
    *final(self) == (LockedData {
      memory: Mem { q: Ghost(old(self).q().push(*reservation)), ..old(self).memory },
      committed_write_start: Some(reservation.start),
      next_read_start: if old(self).next_read_start is None { Some(reservation.start) } else { old(self).next_read_start },
      next_cursor_read_start: if old(self).next_cursor_read_start is None { Some(reservation.start) } else { old(self).next_cursor_read_start },
      ..*old(self) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::finish_read_common
@impl impl LockedData
@spec
  requires
    old(guard).next_read_start is Some, old(guard).committed_write_start is Some, reservation.size >= old(guard).extra_bytes_per_record,
    1 <= old(guard).next_read_start->0 + reservation.size <= u32::MAX, !old(guard).pending_total_data_loss_reset,
  ensures
    (LockedData { wait_for_drain_data: old(guard).wait_for_drain_data, ..*final(guard) }).advanced(*old(guard), reservation.size),
    final(guard).wait_for_drain_data is None || final(guard).wait_for_drain_data == old(guard).wait_for_drain_data,
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::start_read
@impl impl LockedData

@spec
  requires old(guard).wf(), old(guard).extra_locked_data.reading() == *old(reserved_read), cursor is No,
  ensures
    // one record at a time
    *old(reserved_read) is Some ==> r is Err && *final(guard) == *old(guard) && *final(reserved_read) == *old(reserved_read),
    *old(reserved_read) is None ==> final(guard).wf() && final(guard).mlen() == old(guard).mlen() && final(guard).extra_bytes_per_record == old(guard).extra_bytes_per_record
      && final(guard).extra_locked_data.consumer == old(guard).extra_locked_data.consumer,
    *old(reserved_read) is None && old(guard).q().len() > 0 ==> r is Ok && final(guard).same(*old(guard)),
    *old(reserved_read) is None && old(guard).q().len() == 0 && !block ==> r is Err && final(guard).same(LockedData { readable: final(guard).readable, ..*old(guard) }) && !final(guard).readable.cur(),
    *old(reserved_read) is None && r is Err ==> *final(reserved_read) is None,
    // the oldest unread record, exactly its bytes
    *old(reserved_read) is None && r is Ok ==> {
      let d = r->Ok_0.record_data;
      let h = final(guard).q()[0];
      &&& final(guard).q().len() > 0 && *final(reserved_read) == Some(h)
      &&& d.start == h.start + final(guard).extra() && d.len == h.size - final(guard).extra()
      &&& d.was@ == final(guard).bytes().subrange(h.start + final(guard).extra(), en(h))
    },
@loop 0
  invariant_except_break
    guard.same(*old(guard)),
  invariant
    guard.wf(), cursor is No, *reserved_read is None, guard.mlen() == old(guard).mlen(), guard.extra_bytes_per_record == old(guard).extra_bytes_per_record,
    guard.extra_locked_data.consumer == old(guard).extra_locked_data.consumer,
  ensures guard.q().len() > 0, old(guard).q().len() > 0 || block, old(guard).q().len() > 0 ==> guard.same(*old(guard)), vx_brk0 is Some, vx_brk0->0 == guard.q()[0].size - guard.extra(),
    guard.q()[0].size > guard.extra(), en(guard.q()[0]) <= guard.mlen(), guard.wf(), guard.next_read_start is Some,
  decreases 0nat,
@loop_entry 0
  proof { if guard.q().len() > 0 { lemma_head(*guard); } }
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::lock_common
@impl impl LockedData
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::shutdown_common
@impl impl LockedData
@spec
  ensures
    final(guard).shutdown_lock is Some, *final(guard) == (LockedData { shutdown_lock: final(guard).shutdown_lock, ..*old(guard) }),
@fn bd-buffer/src/buffer/common_ring_buffer.rs LockedData::wait_for_drain
@impl impl LockedData
@spec
  requires old(guard).wf(),
  ensures
    old(guard).q().len() == 0 ==> *final(guard) == *old(guard),
    final(guard).wf(),
@text
impl ProducerImpl {
  pub open spec fn st(&self) -> LockedData { self.buffer->0.common_ring_buffer.locked_data }
  // The reservation this producer holds is queued and not committed.
  pub open spec fn holds(&self) -> bool { self.buffer is Some && !self.reservation.0.null ==> self.st().extra_locked_data.reservations.open(self.reservation.0.id@) }
  pub open spec fn wf(&self) -> bool { (self.buffer is Some ==> self.st().wf()) && self.holds() }
}
impl ConsumerImpl {
  pub open spec fn st(&self) -> LockedData { self.buffer->0.common_ring_buffer.locked_data }
}
pub proof fn lemma_members(o: LockedData)
  requires o.laid(),
  ensures
    o.slots().len() == o.q().len() + o.extra_locked_data.resv().len(),
    forall|i: int| 0 <= i < o.q().len() ==> o.slots()[i] == o.q()[i] && (#[trigger] o.q()[i]).size > o.extra() && en(o.q()[i]) <= o.mlen(),
    forall|i: int| 0 <= i < o.extra_locked_data.reservations@.len() ==>
      o.slots()[o.q().len() + i] == (#[trigger] o.extra_locked_data.reservations@[i]).v.range && o.extra_locked_data.reservations@[i].v.range == o.extra_locked_data.resv()[i]
        && o.extra_locked_data.reservations@[i].v.range.size > o.extra() && en(o.extra_locked_data.reservations@[i].v.range) <= o.mlen(),
{
  let s = o.slots();
  assert forall|i: int| 0 <= i < o.q().len() implies o.slots()[i] == o.q()[i] && (#[trigger] o.q()[i]).size > o.extra() && en(o.q()[i]) <= o.mlen() by { assert(s[i].size > o.extra()); }
  assert forall|i: int| 0 <= i < o.extra_locked_data.reservations@.len() implies
      o.slots()[o.q().len() + i] == (#[trigger] o.extra_locked_data.reservations@[i]).v.range && o.extra_locked_data.reservations@[i].v.range == o.extra_locked_data.resv()[i]
        && o.extra_locked_data.reservations@[i].v.range.size > o.extra() && en(o.extra_locked_data.reservations@[i].v.range) <= o.mlen() by { assert(s[o.q().len() + i].size > o.extra()); }
}
// A placed record is queued: the layout stays one, and it shares no byte with any other.
pub proof fn lemma_reserved(g: LockedData, f: LockedData, t: TempReservationData, e: Entry)
  requires
    g.wf(), temp_ok(t, g.next_write_start as int, t.range.size as int, g.mlen()), g.extra() < t.range.size <= g.mlen(),
    g.q().len() > 0 ==> !hits(t, g.q()[0], g.mlen()),
    g.extra_locked_data.resv().len() > 0 ==> !hits(t, g.extra_locked_data.resv()[0], g.mlen()),
    f == (LockedData { memory: Mem { s: f.memory.s, ..g.memory }, next_write_start: t.next_write_start, last_write_end_before_wrap: l_push(t, g.last_write_end_before_wrap),
      extra_locked_data: ExtraLockedData { reservations: f.extra_locked_data.reservations, ..g.extra_locked_data }, ..g }),
    f.mlen() == g.mlen(), f.memory.s.at() == 0, f.wrote(g, t.range.start as int, en(t.range)),
    word(f.bytes(), t.range.start + g.extra() - 4) == t.range.size - g.extra(),
    f.extra_locked_data.reservations@ == g.extra_locked_data.reservations@.push(e), e.v == (Reservation { range: t.range, committed: false }),
    !g.extra_locked_data.reservations.has(e.id),
  ensures
    f.wf(), f.kept(g, g.slots()), forall|i: int| 0 <= i < g.slots().len() ==> !inter(#[trigger] g.slots()[i], t.range),
{
  let s = g.slots();
  lemma_members(g);
  lemma_push(s, g.next_write_start as int, g.last_write_end_before_wrap, g.mlen(), g.extra(), t.range.size as int, t);
  let p = f.slots();
  assert(f.extra_locked_data.resv() =~= g.extra_locked_data.resv().push(t.range));
  assert(p =~= s.push(t.range));
  assert forall|i: int| 0 <= i < s.len() implies !inter(#[trigger] s[i], t.range) by {
    lemma_apart(p, f.next_write_start as int, f.last_write_end_before_wrap, f.mlen(), f.extra(), i, s.len() as int);
    assert(p[i] == s[i]);
  }
  assert forall|j: int, x: int| 0 <= j < s.len() && (#[trigger] s[j]).start <= x < en(s[j]) implies #[trigger] f.bytes()[x] == g.bytes()[x] by {
    assert(s[j].size > g.extra());
    assert(!inter(s[j], t.range));
  }
  assert forall|i: int| 0 <= i < p.len() implies word(f.bytes(), (#[trigger] p[i]).start + f.extra() - 4) == p[i].size - f.extra() by {
    if i < s.len() {
      assert(p[i] == s[i]);
      assert(s[i].size > g.extra());
      let a = s[i].start + f.extra() - 4;
      assert(f.bytes()[a] == g.bytes()[a] && f.bytes()[a + 1] == g.bytes()[a + 1] && f.bytes()[a + 2] == g.bytes()[a + 2] && f.bytes()[a + 3] == g.bytes()[a + 3]);
    }
  }
  let rs = f.extra_locked_data.reservations@;
  assert forall|i: int, j: int| 0 <= i < j < rs.len() implies (#[trigger] rs[i]).id != (#[trigger] rs[j]).id by {
    assert(rs[i] == g.extra_locked_data.reservations@[i]);
    if j < rs.len() - 1 { assert(rs[j] == g.extra_locked_data.reservations@[j]); }
  }
}
@text
// What a reservation of `t.range` makes of the state `o`.
pub open spec fn reserved_at(f: LockedData, o: LockedData, t: TempReservationData, k: int, id: int) -> bool {
  // placed next, or at the beginning where it would not fit there; inside the memory
  &&& temp_ok(t, o.next_write_start as int, t.range.size as int, o.mlen()) && en(t.range) <= o.mlen() && f.mlen() == o.mlen() && f.extra() == o.extra()
  // queued last, the others as they were
  &&& f.extra_locked_data.reservations@ == o.extra_locked_data.reservations@.push(Entry { id, v: Reservation { range: t.range, committed: false } })
  &&& f.extra_locked_data.consumer == o.extra_locked_data.consumer
  // no byte shared with any other reservation, the record being read, or any unread record
  &&& forall|i: int| 0 <= i < o.extra_locked_data.resv().len() ==> !inter(#[trigger] o.extra_locked_data.resv()[i], t.range)
  &&& o.extra_locked_data.reading() is Some ==> !inter(o.extra_locked_data.reading()->0, t.range)
  &&& forall|i: int| 0 <= i < f.q().len() ==> !inter(#[trigger] f.q()[i], t.range)
  // what is dropped is the oldest, and only what is in the way; all else stays, byte for byte
  &&& 0 <= k <= o.q().len() && f.q() == o.q().skip(k)
  &&& forall|i: int| 0 <= i < k ==> hits(t, #[trigger] o.q()[i], o.mlen())
  &&& f.kept(o, f.q() + o.extra_locked_data.resv())
}
pub open spec fn reserved(f: LockedData, o: LockedData, d: Region, size: u32, id: int) -> bool {
  exists|t: TempReservationData, k: int| #[trigger] reserved_at(f, o, t, k, id)
    && d.start == t.range.start + o.extra() && d.len == size && t.range.size == size + o.extra()
}
pub open spec fn room(g: LockedData, o: LockedData, t: TempReservationData) -> bool {
  exists|k: int| #[trigger] g.dropped(o, k) && (forall|i: int| 0 <= i < k ==> hits(t, #[trigger] o.q()[i], o.mlen()))
}
pub proof fn lemma_reserve(o: LockedData, g: LockedData, f: LockedData, t: TempReservationData, e: Entry)
  requires
    o.wf(), g.wf(), room(g, o, t), temp_ok(t, g.next_write_start as int, t.range.size as int, g.mlen()), g.extra() < t.range.size <= g.mlen(),
    g.q().len() > 0 ==> !hits(t, g.q()[0], g.mlen()),
    g.extra_locked_data.resv().len() > 0 ==> !hits(t, g.extra_locked_data.resv()[0], g.mlen()),
    f == (LockedData { memory: Mem { s: f.memory.s, ..g.memory }, next_write_start: t.next_write_start, last_write_end_before_wrap: l_push(t, g.last_write_end_before_wrap),
      extra_locked_data: ExtraLockedData { reservations: f.extra_locked_data.reservations, ..g.extra_locked_data }, ..g }),
    f.mlen() == g.mlen(), f.memory.s.at() == 0, f.wrote(g, t.range.start as int, en(t.range)),
    word(f.bytes(), t.range.start + g.extra() - 4) == t.range.size - g.extra(),
    f.extra_locked_data.reservations@ == g.extra_locked_data.reservations@.push(e), e.v == (Reservation { range: t.range, committed: false }),
    !g.extra_locked_data.reservations.has(e.id),
  ensures f.wf(), exists|k: int| #[trigger] reserved_at(f, o, t, k, e.id),
{
  lemma_reserved(g, f, t, e);
  let k = choose|k: int| #[trigger] g.dropped(o, k) && (forall|i: int| 0 <= i < k ==> hits(t, #[trigger] o.q()[i], o.mlen()));
  let u = g.slots();
  assert forall|i: int| 0 <= i < o.extra_locked_data.resv().len() implies !inter(#[trigger] o.extra_locked_data.resv()[i], t.range) by {
    assert(u[g.q().len() + i] == o.extra_locked_data.resv()[i]);
  }
  assert forall|i: int| 0 <= i < f.q().len() implies !inter(#[trigger] f.q()[i], t.range) by { assert(u[i] == f.q()[i]); }
  assert(f.q() + o.extra_locked_data.resv() == u);
  assert(f.kept(o, u)) by {
    assert forall|j: int, x: int| 0 <= j < u.len() && (#[trigger] u[j]).start <= x < en(u[j]) implies #[trigger] f.bytes()[x] == o.bytes()[x] by {
      assert(f.bytes()[x] == g.bytes()[x]);
      assert(g.bytes()[x] == o.bytes()[x]);
    }
  }
  if o.extra_locked_data.reading() is Some { assert(g.extra_locked_data.reading() is Some); assert(f.q()[0] == o.extra_locked_data.reading()->0); }
  assert(reserved_at(f, o, t, k, e.id));
}
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ProducerImpl::reserve
@impl impl ProducerImpl
@ret r: Result<Region>
@frule self.buffer.upgrade() => &mut self.buffer
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).buffer is Some == old(self).buffer is Some,
    // refused: nothing is different
    r is Err ==> *final(self) == *old(self),
    r is Ok ==> old(self).buffer is Some && old(self).reservation.0.null && size > 0 && !final(self).reservation.0.null,
    r is Ok ==> reserved(final(self).st(), old(self).st(), r->Ok_0, size, final(self).reservation.0.id@),
@entry
  proof { if self.buffer is Some { lemma_members(self.st()); } }
@after LockedData::advance_next_read_due_to_write(__a, __b, __c, __d)?
  let ghost g = parent.common_ring_buffer.locked_data;
  let ghost t = temp_reservation_data;
@before Ok(memory)
  proof {
    let f = self.st();
    let rs = f.extra_locked_data.reservations@;
    assert(room(g, old(self).st(), t));
    lemma_reserve(old(self).st(), g, f, t, rs.last());
    assert(rs[rs.len() - 1] == rs.last());
  }
@text
// The reservation `id` committed, and with it every reservation that is committed and has none that is not before it
// become unread records, in the order they were reserved.
pub open spec fn marked(es: Seq<Entry>, i: int) -> Seq<Entry> { es.update(i, Entry { id: es[i].id, v: Reservation { range: es[i].v.range, committed: true } }) }
pub open spec fn committed_at(f: LockedData, o: LockedData, id: int, i: int, k: int) -> bool {
  let es = o.extra_locked_data.reservations@;
  let m = marked(es, i);
  &&& 0 <= i < es.len() && es[i].id == id
  &&& 0 <= k <= m.len() && (forall|j: int| 0 <= j < k ==> (#[trigger] m[j]).v.committed)
  &&& f.extra_locked_data.reservations@ == m.skip(k)
  &&& f.q() == o.q() + ranges(m.take(k))
  // no byte of the memory and nothing of the reader is different
  &&& f.memory.s == o.memory.s && f.extra_locked_data.consumer == o.extra_locked_data.consumer
}
pub open spec fn committed(f: LockedData, o: LockedData, id: int) -> bool { exists|i: int, k: int| #[trigger] committed_at(f, o, id, i, k) && f.extra_locked_data.front() }
// One more at the front is committed: it is unread now.
pub proof fn lemma_popped(o: LockedData, g: LockedData, f: LockedData, id: int, i: int, k: int)
  requires
    g.core(), committed_at(g, o, id, i, k), g.extra_locked_data.reservations@.len() > 0, g.extra_locked_data.reservations@[0].v.committed,
    f.extra_locked_data == (ExtraLockedData { reservations: f.extra_locked_data.reservations, ..g.extra_locked_data }),
    f.extra_locked_data.reservations@ == g.extra_locked_data.reservations@.drop_first(),
    ({
      let r = g.extra_locked_data.reservations@[0].v.range;
      f == (LockedData {
        memory: Mem { q: Ghost(g.q().push(r)), ..g.memory },
        committed_write_start: Some(r.start),
        next_read_start: if g.next_read_start is None { Some(r.start) } else { g.next_read_start },
        next_cursor_read_start: f.next_cursor_read_start,
        extra_locked_data: f.extra_locked_data,
        ..g })
    }),
  ensures f.core(), committed_at(f, o, id, i, k + 1), f.slots() == g.slots(),
{
  let es = o.extra_locked_data.reservations@;
  let m = marked(es, i);
  let r = g.extra_locked_data.reservations@[0].v.range;
  assert(m.skip(k)[0] == m[k]);
  assert(f.extra_locked_data.reservations@ =~= m.skip(k + 1));
  assert(ranges(m.take(k + 1)) =~= ranges(m.take(k)).push(r));
  assert(f.q() =~= o.q() + ranges(m.take(k + 1)));
  assert(f.slots() =~= g.slots());
  let a = f.extra_locked_data.reservations@;
  assert forall|x: int, y: int| 0 <= x < y < a.len() implies (#[trigger] a[x]).id != (#[trigger] a[y]).id by {
    assert(a[x] == g.extra_locked_data.reservations@[x + 1] && a[y] == g.extra_locked_data.reservations@[y + 1]);
  }
}
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ProducerImpl::commit
@impl impl ProducerImpl
@frule self.buffer.upgrade() => &mut self.buffer
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).buffer is Some == old(self).buffer is Some,
    r is Err ==> *final(self) == *old(self),
    r is Ok ==> old(self).buffer is Some && !old(self).reservation.0.null && final(self).reservation.0.null,
    r is Ok ==> committed(final(self).st(), old(self).st(), old(self).reservation.0.id@),
@entry
  let ghost id = self.reservation.0.id@;
  let ghost mut i: int = 0;
  let ghost mut k: int = 0;
  proof {
    if self.buffer is Some && !self.reservation.0.null {
      let es = self.st().extra_locked_data.reservations@;
      i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).id == id && !es[i].v.committed;
      lemma_members(self.st());
    }
  }
@after __p.finish_commit_common(__r)
  proof {
    let o = old(self).st();
    let es = o.extra_locked_data.reservations@;
    let m = marked(es, i);
    let g = parent.common_ring_buffer.locked_data;
    assert(g.extra_locked_data.reservations@ =~= m);
    assert(m.skip(0) =~= m);
    assert(o.q() + ranges(m.take(0)) =~= o.q());
    assert(g.extra_locked_data.resv() =~= o.extra_locked_data.resv());
    assert(g.slots() == o.slots());
    assert(committed_at(g, o, id, i, 0));
  }
@loop 0
  invariant
    parent.common_ring_buffer.locked_data.core(), committed_at(parent.common_ring_buffer.locked_data, old(self).st(), id, i, k),
  ensures
    parent.common_ring_buffer.locked_data.extra_locked_data.front(),
  decreases parent.common_ring_buffer.locked_data.extra_locked_data.reservations@.len(),
@loop_entry 0
  let ghost g = parent.common_ring_buffer.locked_data;
  proof { lemma_members(g); }
@after __p.pop_front()
  proof { lemma_popped(old(self).st(), g, parent.common_ring_buffer.locked_data, id, i, k); k = k + 1; }
@text
impl ConsumerImpl {
  // A consumer that exists is the buffer's consumer.
  pub open spec fn wf(&self) -> bool { self.buffer is Some ==> self.st().wf() && self.st().extra_locked_data.consumer is Some }
}
// The oldest unread record is what is being read, exactly its bytes.
pub open spec fn reads(f: LockedData, d: Region) -> bool {
  let h = f.q()[0];
  &&& f.q().len() > 0 && f.extra_locked_data.reading() == Some(h)
  &&& d.start == h.start + f.extra() && d.len == h.size - f.extra() && en(h) <= f.mlen()
  &&& d.was@ == f.bytes().subrange(h.start + f.extra(), en(h))
}
// Nothing but what is being read.
pub open spec fn same_but_reading(f: LockedData, o: LockedData) -> bool {
  f.same(LockedData { extra_locked_data: ExtraLockedData { consumer: f.extra_locked_data.consumer, ..o.extra_locked_data }, ..o })
}
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl::inner_start_read
@impl impl ConsumerImpl
@as vx_inner_start_read
@param common_ring_buffer: &mut LockedData
@ret r: Result<Region>
@spec
  requires old(common_ring_buffer).wf(), old(common_ring_buffer).extra_locked_data.consumer is Some,
  ensures
    final(common_ring_buffer).wf(), final(common_ring_buffer).extra_locked_data.consumer is Some,
    r is Err ==> final(common_ring_buffer).extra_locked_data.reading() == old(common_ring_buffer).extra_locked_data.reading(),
    old(common_ring_buffer).extra_locked_data.reading() is Some ==> r is Err && *final(common_ring_buffer) == *old(common_ring_buffer),
    r is Ok ==> reads(*final(common_ring_buffer), r->Ok_0),
    old(common_ring_buffer).extra_locked_data.reading() is None && old(common_ring_buffer).q().len() > 0 ==> r is Ok && same_but_reading(*final(common_ring_buffer), *old(common_ring_buffer)),
    old(common_ring_buffer).q().len() == 0 && !block ==> r is Err && final(common_ring_buffer).q().len() == 0,
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl::start_read
@impl impl ConsumerImpl
@ret r: Result<Region>
@frule self.buffer.upgrade() => &mut self.buffer
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).buffer is Some == old(self).buffer is Some, old(self).buffer is None ==> r is Err,
    // one record at a time
    old(self).buffer is Some && old(self).st().extra_locked_data.reading() is Some ==> r is Err && final(self).st() == old(self).st(),
    old(self).buffer is Some && r is Err ==> final(self).st().extra_locked_data.reading() == old(self).st().extra_locked_data.reading(),
    old(self).buffer is Some && r is Ok ==> reads(final(self).st(), r->Ok_0),
    old(self).buffer is Some && old(self).st().extra_locked_data.reading() is None && old(self).st().q().len() > 0 ==> r is Ok && same_but_reading(final(self).st(), old(self).st()),
    old(self).buffer is Some && old(self).st().q().len() == 0 && !block ==> r is Err && final(self).st().q().len() == 0,
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl::finish_read
@impl impl ConsumerImpl
@frule self.buffer.upgrade() => &mut self.buffer
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).buffer is Some == old(self).buffer is Some, old(self).buffer is None ==> r is Err,
    r is Err ==> *final(self) == *old(self),
    old(self).buffer is Some ==> (r is Ok <==> old(self).st().extra_locked_data.reading() is Some),
    // the record that was read is gone, and nothing else
    r is Ok ==> finished(final(self).st(), old(self).st()),
@entry
  proof { if self.buffer is Some && self.st().q().len() > 0 { lemma_head(self.st()); } }
@after LockedData::finish_read_common(__a, __b, __c)
  proof {
    let o = old(self).st();
    let f = parent.common_ring_buffer.locked_data;
    let o1 = LockedData { extra_locked_data: f.extra_locked_data, ..o };
    let f1 = LockedData { wait_for_drain_data: o.wait_for_drain_data, ..f };
    assert(o1.slots() == o.slots());
    assert(f1.advanced(o1, o.q()[0].size));
    lemma_advanced(o1, o1, f1);
    assert(f1.slots() == f.slots());
    assert(finished(f, o));
  }
@text
pub open spec fn finished(f: LockedData, o: LockedData) -> bool {
  &&& f.q() == o.q().skip(1) && f.extra_locked_data.reservations == o.extra_locked_data.reservations && f.extra_locked_data.reading() is None
  &&& f.next_write_start == o.next_write_start && f.kept(o, f.slots())
}
// Handles refer to the buffer they were made by.
#[verifier::external_body]
pub fn vx_weak(b: &RingBufferImpl) -> (r: Option<RingBufferImpl>) ensures r is Some, r->0.common_ring_buffer.locked_data == b.common_ring_buffer.locked_data { unimplemented!() }
@rule Box::new(__x) => __x
@rule Arc::<Self>::downgrade(&self) => vx_weak(&self)
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl::register_producer
@impl impl RingBufferImpl
@self &mut self
@ret r: Result<ProducerImpl>
@spec
  requires old(self).common_ring_buffer.locked_data.wf(),
  ensures *final(self) == *old(self), r is Ok, r->Ok_0.wf(), r->Ok_0.reservation.0.null,
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl::register_consumer
@impl impl RingBufferImpl
@self &mut self
@ret r: Result<ConsumerImpl>
@spec
  requires old(self).common_ring_buffer.locked_data.wf(),
  ensures
    final(self).common_ring_buffer.locked_data.wf(),
    // at most one consumer
    r is Ok <==> old(self).common_ring_buffer.locked_data.extra_locked_data.consumer is None,
    r is Err ==> *final(self) == *old(self),
    r is Ok ==> final(self).common_ring_buffer.locked_data.extra_locked_data.consumer is Some && final(self).common_ring_buffer.locked_data.extra_locked_data.reading() is None
      && same_but_reading(final(self).common_ring_buffer.locked_data, old(self).common_ring_buffer.locked_data),
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl::drop
@impl impl ConsumerImpl
@as vx_drop
@frule self.buffer.upgrade() => &mut self.buffer
@spec
  requires old(self).wf(),
  ensures
    // the record that was being read, if any, is unread again
    old(self).buffer is Some ==> final(self).buffer is Some && final(self).st().wf() && final(self).st().extra_locked_data.consumer is None && same_but_reading(final(self).st(), old(self).st()),
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl::wait_for_drain
@impl impl RingBufferImpl
@self &mut self
@spec
  requires old(self).common_ring_buffer.locked_data.wf(),
  ensures
    final(self).common_ring_buffer.locked_data.wf(),
    old(self).common_ring_buffer.locked_data.q().len() == 0 ==> *final(self) == *old(self),
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl::shutdown
@impl impl RingBufferImpl
@self &mut self
@spec
  requires old(self).common_ring_buffer.locked_data.wf(),
  ensures
    final(self).common_ring_buffer.locked_data.wf(), final(self).common_ring_buffer.locked_data.shutdown_lock is Some,
    final(self).common_ring_buffer.locked_data == (LockedData { shutdown_lock: final(self).common_ring_buffer.locked_data.shutdown_lock, ..old(self).common_ring_buffer.locked_data }),
@type_rule impl Fn(&mut ExtraLockedData) + Send + 'static => ()
@type_rule impl Fn(&ExtraLockedData) -> bool + Send + 'static => ()
@rule tokio::sync::watch::channel(__b) => vx_channel(__b)
@rule Mutex::new(__x) => __x
@rule SendSyncNonNull(__x) => __x
@rule AtomicU32::default().into() => vx_unlocked()
@rule (*unsafe { __x.as_ref() }) => __x
@rule Conditions::default() => vx_conditions()
@text
#[verifier::external_body]
pub fn vx_channel(b: bool) -> (r: (WatchTx, WatchRx)) ensures r.0.cur() == b { unimplemented!() }
#[verifier::external_body]
pub fn vx_unlocked() -> LockCount { unimplemented!() }
#[verifier::external_body]
pub fn vx_conditions() -> Conditions { unimplemented!() }
@fn bd-buffer/src/buffer/common_ring_buffer.rs CommonRingBuffer::new
@impl impl CommonRingBuffer
@spec
  requires memory.s.at() == 0, memory.q@.len() == 0, memory.s@.len() <= u32::MAX, extra_bytes_per_record <= 4, allow_overwrite is Yes,
    next_write_start <= memory.s@.len(), next_read_start is None, committed_write_start is None,
    extra_locked_data.resv().len() == 0, extra_locked_data.consumer is None,
  ensures r.locked_data.wf(), r.locked_data.q().len() == 0, r.locked_data.memory == memory, r.locked_data.next_write_start == next_write_start,
@type_rule Pin<Box<ControlData>> => ControlData
@type_rule Vec<u8> => VecMem
@type_rule PhantomPinned => ()
@type bd-buffer/src/buffer/volatile_ring_buffer.rs ControlData
@text
// The allocation: as many bytes as its length was set to, at most its capacity.
pub struct VecMem { pub m: Mem, pub cap: Ghost<int> }
impl VecMem {
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: Self) ensures r.cap@ >= n, r.m.s@.len() == 0, r.m.s.at() == 0, r.m.q@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn set_len(&mut self, n: usize)
    requires n <= old(self).cap@,
    ensures final(self).m.s@.len() == n, final(self).m.s.at() == old(self).m.s.at(), final(self).m.q == old(self).m.q,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: Mem) ensures r == self.m { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_some_extra() -> ExtraLockedData { unimplemented!() }
pub fn vx_is_has_read(b: bool, e: &ExtraLockedData) requires has_read(*e, b) {}
pub fn vx_is_has_write(b: bool, e: &ExtraLockedData) requires has_write(*e, b) {}
#[verifier::external_body]
pub fn vx_no_extra() -> (r: ExtraLockedData) ensures r.consumer is None, r.reservations@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_condvar() -> Condvar { unimplemented!() }
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs RingBufferImpl::new
@impl impl RingBufferImpl
@ret r: Self
@frule Vec::with_capacity(__n) => VecMem::with_capacity(__n)
@frule __x.spare_capacity_mut() => ()
@frule __x.as_slice().into() => __x.as_slice()
@frule (&__x).into() => __x
@frule Box::pin(__x) => __x
@frule Arc::new(__x) => __x
@frule PhantomPinned => ()
@frule ExtraLockedData::default() => vx_no_extra()
@frule Condvar::default() => vx_condvar()
@frule CommonRingBuffer::new(__a, __b, __c, __d, __e, __f, __g, __h, __i, __j, |_| {}, |__m| __l, |__o| __n) => {
  { let __m = &vx_some_extra(); vx_is_has_read(__l, __m); }
  { let __o = &vx_some_extra(); vx_is_has_write(__n, __o); }
  CommonRingBuffer::new(__a, __b, __c, __d, __e, __f, __g, __h, __i, __j, (), (), ())
}
@spec
  ensures r.common_ring_buffer.locked_data.wf(), r.common_ring_buffer.locked_data.q().len() == 0, r.common_ring_buffer.locked_data.mlen() == size,
    r.common_ring_buffer.locked_data.next_write_start == 0,
@fn bd-buffer/src/buffer/volatile_ring_buffer.rs ConsumerImpl::read
@impl impl ConsumerImpl
@ret r: Result<Region>
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@frule self.buffer.upgrade() => &mut self.buffer
@frule self.readable.clone() => self.readable.vx_clone()
@frule __x.borrow_and_update() => &__x.vx_seen()
@frule __x.changed().await => vx_changed(&mut __x, &mut parent.common_ring_buffer.locked_data)
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).buffer is Some == old(self).buffer is Some, old(self).buffer is None ==> r is Err,
    r is Ok ==> reads(final(self).st(), r->Ok_0),
@loop 0
  invariant parent.common_ring_buffer.locked_data.wf(), parent.common_ring_buffer.locked_data.extra_locked_data.consumer is Some,
@text
// Awaiting a change: other tasks and threads may do anything to the buffer meanwhile.
#[verifier::external_body]
pub fn vx_changed(r: &mut WatchRx, d: &mut LockedData) -> (x: core::result::Result<(), WatchErr>)
  requires old(d).wf(),
  ensures x is Ok, final(d).later(*old(d)),
{ unimplemented!() }
