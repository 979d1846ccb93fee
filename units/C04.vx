@include prelude.inc
@text
// ---- Bytes, as the bytes crate's buffers hold them.
#[verifier::external_body]
pub struct BytesMut { v: Vec<u8> }
#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl Bytes {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub open spec fn be32(s: Seq<u8>) -> nat { s[0] as nat * 0x100_0000 + s[1] as nat * 0x1_0000 + s[2] as nat * 0x100 + s[3] as nat }
pub uninterp spec fn to_be(n: u32) -> Seq<u8>;
// The big-endian bytes of a number.
#[verifier::external_body]
pub broadcast proof fn axiom_to_be(n: u32)
  ensures (#[trigger] to_be(n)).len() == 4, be32(to_be(n)) == n,
{}
impl BytesMut {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  pub uninterp spec fn cap(&self) -> nat;
  #[verifier::external_body]
  pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0, r.cap() >= n { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn extend_from_slice(&mut self, d: &[u8]) ensures final(self)@ == old(self)@ + d@ { unimplemented!() }
  // Reading past the end panics.
  #[verifier::external_body]
  pub fn get_u8(&mut self) -> (r: u8)
    requires old(self)@.len() >= 1,
    ensures r == old(self)@[0], final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u32(&mut self) -> (r: u32)
    requires old(self)@.len() >= 4,
    ensures r == be32(old(self)@), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
    requires n <= old(self)@.len(),
    ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u8(&mut self, x: u8)
    ensures final(self)@ == old(self)@.push(x), final(self).cap() >= old(self).cap(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u32(&mut self, x: u32)
    ensures final(self)@ == old(self)@ + to_be(x), final(self).cap() >= old(self).cap(),
  { unimplemented!() }
  // The new bytes hold anything; more than was allocated is undefined behaviour.
  #[verifier::external_body]
  pub fn set_len(&mut self, n: usize)
    requires old(self)@.len() <= n <= old(self).cap(),
    ensures final(self)@.len() == n, final(self)@.subrange(0, old(self)@.len() as int) == old(self)@, final(self).cap() == old(self).cap(),
  { unimplemented!() }
}
pub fn vx_take_buf(b: &mut BytesMut)
  ensures final(b)@.len() == 0,
{ *b = BytesMut::new(); }
#[verifier::external_body]
pub struct DeferredCounter {}
impl DeferredCounter {
  #[verifier::external_body]
  pub fn default() -> DeferredCounter { unimplemented!() }
  #[verifier::external_body]
  pub fn inc_by(&mut self, n: usize) { unimplemented!() }
}
// ---- Messages: a serialisation and its inverse.
#[verifier::external_body]
pub struct ProtoError {}
#[verifier::external_body]
pub struct IoErr {}
pub enum Error { Protobuf(ProtoError), Protocol(&'static str), Io(IoErr) }
impl From<IoErr> for Error {
  fn from(e: IoErr) -> Error { Error::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<IoErr> for Error {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(e: IoErr) -> Error { Error::Io(e) }
}
impl Bytes {
  #[verifier::external_body]
  pub fn vx_from_vec(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
}
pub uninterp spec fn ser<M>(m: M) -> Seq<u8>;
pub uninterp spec fn parse_msg<M>(b: Seq<u8>) -> Option<M>;
#[verifier::external_body]
pub proof fn axiom_ser<M>(m: M)
  ensures parse_msg::<M>(ser(m)) == Some(m),
{}
#[verifier::external_body]
pub fn vx_parse<M>(b: &Bytes) -> (r: Result<M, Error>)
  ensures r is Ok <==> parse_msg::<M>(b@) is Some, r is Ok ==> parse_msg::<M>(b@) == Some(r->Ok_0),
{ unimplemented!() }
// ---- zlib: a deterministic machine. What it has been fed so far is all that matters.
#[verifier::external_body]
pub struct ZlibDecoder {}
impl ZlibDecoder {
  // What was written out so far and not taken.
  pub uninterp spec fn out(&self) -> Seq<u8>;
}
pub uninterp spec fn z_feed(z: ZlibDecoder, b: Seq<u8>) -> (ZlibDecoder, bool);
pub uninterp spec fn z_flush(z: ZlibDecoder) -> (ZlibDecoder, bool);
pub uninterp spec fn z_taken(z: ZlibDecoder) -> ZlibDecoder;
// A decoder made by new or given back by a successful reset.
pub uninterp spec fn z_new() -> ZlibDecoder;
// What ending the stream writes out, if the stream can be ended.
pub uninterp spec fn z_end(z: ZlibDecoder) -> Option<Seq<u8>>;
impl ZlibDecoder {
  #[verifier::external_body]
  pub fn new(v: Vec<u8>) -> (r: ZlibDecoder) ensures v@.len() == 0 ==> r == z_new() { unimplemented!() }
  // A decoder that failed stays as it is: nothing is known about it afterwards.
  #[verifier::external_body]
  pub fn write_all(&mut self, b: &BytesMut) -> (r: Result<(), IoErr>)
    ensures r is Ok <==> z_feed(*old(self), b@).1, r is Ok ==> *final(self) == z_feed(*old(self), b@).0,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn flush(&mut self) -> (r: Result<(), IoErr>)
    ensures r is Ok <==> z_flush(*old(self)).1, r is Ok ==> *final(self) == z_flush(*old(self)).0,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn reset(&mut self, v: Vec<u8>) -> (r: Result<Vec<u8>, IoErr>)
    ensures
      r is Ok <==> z_end(*old(self)) is Some,
      r is Ok ==> r->Ok_0@ == z_end(*old(self))->Some_0 && (v@.len() == 0 ==> *final(self) == z_new()),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_take_out(&mut self) -> (r: Vec<u8>)
    ensures r@ == old(self).out(), *final(self) == z_taken(*old(self)),
  { unimplemented!() }
}
// Fresh per payload for a stateless stream; one continuous zlib stream for a stateful one.
pub open spec fn unz(d: Option<Decompressor>, b: Seq<u8>) -> (Option<Decompressor>, Option<Seq<u8>>) {
  match d {
    None => (d, None),
    Some(Decompressor::StatelessZlib) => {
      let (z, ok) = z_feed(z_new(), b);
      (d, if ok { z_end(z) } else { None })
    },
    Some(Decompressor::StatefulZlib(z)) => {
      let (z1, ok1) = z_feed(z, b);
      let (z2, ok2) = z_flush(z1);
      if ok1 && ok2 { (Some(Decompressor::StatefulZlib(z_taken(z2))), Some(z2.out())) } else { (d, None) }
    },
  }
}
pub fn vx_try_usize(x: u32) -> (r: Result<usize, AnyErr>)
  ensures r == Ok::<usize, AnyErr>(x as usize),
{ Ok(x as usize) }
// ---- The property's reading of a byte stream.
pub ghost struct Out<M> { pub msgs: Seq<M>, pub d: Option<Decompressor>, pub rest: Seq<u8>, pub err: bool }
pub open spec fn complete(s: Seq<u8>) -> bool { s.len() >= 5 && s.len() >= 5 + size(s) }
pub open spec fn size(s: Seq<u8>) -> nat { be32(s.subrange(1, 5)) }
pub open spec fn body(s: Seq<u8>) -> Seq<u8> { s.subrange(5, 5 + size(s) as int) }
pub open spec fn tail(s: Seq<u8>) -> Seq<u8> { s.subrange(5 + size(s) as int, s.len() as int) }
pub open spec fn content(d: Option<Decompressor>, s: Seq<u8>) -> (Option<Decompressor>, Option<Seq<u8>>) {
  if s[0] == 1 { unz(d, body(s)) } else { (d, Some(body(s))) }
}
pub open spec fn run<M>(d: Option<Decompressor>, s: Seq<u8>) -> Out<M>
  decreases s.len(),
{
  if !complete(s) { Out { msgs: Seq::empty(), d, rest: s, err: false } }
  else {
    let (d2, c) = content(d, s);
    match c {
      None => Out { msgs: Seq::empty(), d: d2, rest: s, err: true },
      Some(b) => match parse_msg::<M>(b) {
        None => Out { msgs: Seq::empty(), d: d2, rest: s, err: true },
        Some(m) => { let o = run::<M>(d2, tail(s)); Out { msgs: seq![m] + o.msgs, d: o.d, rest: o.rest, err: o.err } },
      },
    }
  }
}
// The first byte only says whether the payload is compressed.
pub open spec fn norm(s: Seq<u8>) -> Seq<u8> { if s.len() >= 5 { s.update(0, if s[0] == 1 { 1u8 } else { 0u8 }) } else { s } }
pub proof fn lemma_be_bound(s: Seq<u8>)
  requires s.len() >= 5,
  ensures size(s) <= u32::MAX,
{}
pub proof fn lemma_norm<M>(d: Option<Decompressor>, s: Seq<u8>, t: Seq<u8>)
  ensures
    run::<M>(d, norm(s) + t).msgs == run::<M>(d, s + t).msgs,
    run::<M>(d, norm(s) + t).err == run::<M>(d, s + t).err,
    run::<M>(d, norm(s) + t).d == run::<M>(d, s + t).d,
    norm(run::<M>(d, norm(s) + t).rest) == norm(run::<M>(d, s + t).rest),
{
  if s.len() >= 5 {
    let a = norm(s) + t;
    let b = s + t;
    assert(a.subrange(1, 5) =~= b.subrange(1, 5));
    assert(a.len() == b.len());
    if complete(a) {
      assert(body(a) =~= body(b));
      assert(tail(a) =~= tail(b));
    } else {
      assert(norm(a) =~= norm(b));
    }
  }
}
// The messages of a stream do not depend on where it is cut.
pub proof fn lemma_split<M>(d: Option<Decompressor>, a: Seq<u8>, b: Seq<u8>)
  requires !run::<M>(d, a).err,
  ensures
    ({ let o = run::<M>(d, a); let o2 = run::<M>(o.d, norm(o.rest) + b); let w = run::<M>(d, a + b);
       &&& w.msgs == o.msgs + o2.msgs
       &&& w.err == o2.err
       &&& w.d == o2.d
       &&& norm(w.rest) == norm(o2.rest) }),
  decreases a.len(),
{
  let o = run::<M>(d, a);
  if !complete(a) {
    lemma_norm::<M>(d, a, b);
    assert(o.msgs + run::<M>(o.d, norm(o.rest) + b).msgs =~= run::<M>(o.d, norm(o.rest) + b).msgs);
  } else {
    assert((a + b).subrange(1, 5) =~= a.subrange(1, 5));
    assert(body(a + b) =~= body(a));
    assert(tail(a + b) =~= tail(a) + b);
    let (d2, c) = content(d, a);
    let m = parse_msg::<M>(c->Some_0)->Some_0;
    lemma_split::<M>(d2, tail(a), b);
    let o1 = run::<M>(d2, tail(a));
    let o2 = run::<M>(o.d, norm(o.rest) + b);
    assert(seq![m] + (o1.msgs + o2.msgs) =~= (seq![m] + o1.msgs) + o2.msgs);
  }
}
// What is left over never contains a whole frame.
pub proof fn lemma_rest<M>(d: Option<Decompressor>, s: Seq<u8>)
  requires !run::<M>(d, s).err,
  ensures !complete(run::<M>(d, s).rest),
  decreases s.len(),
{ if complete(s) { lemma_rest::<M>(content(d, s).0, tail(s)); } }
pub open spec fn frame(flag: u8, b: Seq<u8>) -> Seq<u8> { seq![flag] + to_be(b.len() as u32) + b }
// Decoding an encoded message gives the message back.
pub proof fn lemma_roundtrip<M>(d: Option<Decompressor>, m: M, t: Seq<u8>)
  requires ser(m).len() <= u32::MAX,
  ensures
    run::<M>(d, frame(0, ser(m)) + t).msgs == seq![m] + run::<M>(d, t).msgs,
    run::<M>(d, frame(0, ser(m)) + t).rest == run::<M>(d, t).rest,
{
  broadcast use axiom_to_be;
  axiom_ser(m);
  let s = frame(0, ser(m)) + t;
  assert(s.subrange(1, 5) =~= to_be(ser(m).len() as u32));
  assert(body(s) =~= ser(m));
  assert(tail(s) =~= t);
}
pub proof fn lemma_be_inj(a: Seq<u8>)
  requires a.len() == 4,
  ensures to_be(be32(a) as u32) == a, be32(a) <= u32::MAX,
{
  broadcast use axiom_to_be;
  let b = to_be(be32(a) as u32);
  assert(be32(a) == be32(b));
  assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
  assert(a =~= b);
}
pub open spec fn holds<M>(o: Option<Vec<M>>, s: Seq<M>) -> bool { o is Some && o->Some_0@ == s }
pub trait Message: Sized {
  // Serialised sizes are below 2^32 (protobuf refuses larger messages).
  fn compute_size(&self) -> (r: u64)
    ensures r == ser(*self).len(), r <= u32::MAX - 5;
}

@known decompress
@rule __x.and_then(|()| __b) => match __x { Ok(()) => __b, Err(vx_e) => Err(vx_e) }
@rule bytes.into() => Bytes::vx_from_vec(bytes)
@macro thread_local => drop
@rule DECOMPRESSOR.with_borrow_mut(|decompressor| __b) => { let decompressor = &mut self.vx_shared; __b }
@rule std::mem::take(decompressor.get_mut()) => decompressor.vx_take_out()
@rule __a as f64 * 1.0 / __b as f64 => 0u8
@type_rule ZlibDecoder<Vec<u8>> => ZlibDecoder
@rule __x.try_into() => vx_try_usize(__x)
@rule MessageType::parse_from_tokio_bytes(&__b) => vx_parse::<MessageType>(&__b)
@rule std::mem::take(&mut self.input_buffer) => vx_take_buf(&mut self.input_buffer)
@rule matches!(__x, OptimizeFor::Memory) => match __x { OptimizeFor::Memory => true, _ => false }
@type_rule PhantomData<__T> => Ghost<Option<__T>>
@type bd-grpc-codec/src/lib.rs GRPC_MESSAGE_PREFIX_LEN
@type bd-grpc-codec/src/lib.rs OptimizeFor
@type bd-grpc-codec/src/lib.rs Decompressor
@type bd-grpc-codec/src/lib.rs Decoder
@extra pub vx_shared: ZlibDecoder
@text
impl<MessageType: Message> Decoder<MessageType> {
  // The bytes received and not yet delivered (compression flag normalised).
  pub open spec fn pending(&self) -> Seq<u8> {
    match self.current_message_size {
      None => self.input_buffer@,
      Some(n) => seq![if self.current_message_compressed { 1u8 } else { 0u8 }] + to_be(n as u32) + self.input_buffer@,
    }
  }
  // The per-thread decompressor is ready for the next payload, of this stream or another.
  pub open spec fn shared_ok(&self) -> bool { self.vx_shared == z_new() }
  pub open spec fn wf(&self) -> bool {
    self.current_message_size is Some ==> self.current_message_size->Some_0 <= u32::MAX
  }
}
@fn bd-grpc-codec/src/lib.rs Decoder::decompress
@impl impl<MessageType: Message> Decoder<MessageType>
@ret r: Result<Bytes, Error>
@spec
  requires
    message_size <= old(self).input_buffer@.len(),
    old(self).shared_ok(),
  ensures
    final(self).shared_ok(),
    r is Ok <==> unz(old(self).decompressor, old(self).input_buffer@.subrange(0, message_size as int)).1 is Some,
    r is Ok ==> {
      &&& unz(old(self).decompressor, old(self).input_buffer@.subrange(0, message_size as int)).1 == Some(r->Ok_0@)
      &&& final(self).decompressor == unz(old(self).decompressor, old(self).input_buffer@.subrange(0, message_size as int)).0
    },
    final(self).input_buffer@ == old(self).input_buffer@.subrange(message_size as int, old(self).input_buffer@.len() as int),
    final(self).current_message_size == old(self).current_message_size,
    final(self).current_message_compressed == old(self).current_message_compressed,
    final(self).optimize_for == old(self).optimize_for,
@fn bd-grpc-codec/src/lib.rs Decoder::decode_data
@impl impl<MessageType: Message> Decoder<MessageType>
@ret r: Result<Vec<MessageType>, Error>
@spec
  requires
    old(self).wf(),
    old(self).shared_ok(),
    old(self).input_buffer@.len() + data@.len() <= usize::MAX,
  ensures
    final(self).shared_ok(),
    ({ let o = run::<MessageType>(old(self).decompressor, old(self).pending() + data@);
       &&& r is Ok <==> !o.err
       &&& r is Ok ==> r->Ok_0@ == o.msgs && final(self).wf() && final(self).pending() == norm(o.rest) && final(self).decompressor == o.d
             && (final(self).current_message_size is Some <==> o.rest.len() >= 5) }),
@entry
  let ghost d0 = self.decompressor;
  let ghost s0 = self.pending() + data@;
@after self.input_buffer.extend_from_slice(__d)
  assert(self.pending() =~= s0);
  assert(Seq::<MessageType>::empty() + run::<MessageType>(d0, s0).msgs =~= run::<MessageType>(d0, s0).msgs);
@loop 0
  invariant
    self.wf(), self.shared_ok(),
    d0 == old(self).decompressor, s0 == old(self).pending() + data@,
    ({ let o0 = run::<MessageType>(d0, s0); let o = run::<MessageType>(self.decompressor, self.pending());
       &&& o0.msgs == messages@ + o.msgs
       &&& o0.err == o.err
       &&& o0.d == o.d
       &&& norm(o0.rest) == norm(o.rest) }),
  ensures
    self.wf(), self.shared_ok(),
    ({ let o0 = run::<MessageType>(d0, s0);
       &&& !o0.err
       &&& holds(vx_brk0, o0.msgs)
       &&& o0.d == self.decompressor
       &&& norm(o0.rest) == self.pending()
       &&& (self.current_message_size is Some <==> o0.rest.len() >= 5) }),
  decreases self.pending().len(), if self.current_message_size is None { 1nat } else { 0nat },
@loop_entry 0
  broadcast use axiom_to_be;
  let ghost p0 = self.pending();
  let ghost b0 = self.input_buffer@;
  let ghost dd = self.decompressor;
  let ghost m0 = messages@;
  proof {
    lemma_norm::<MessageType>(dd, p0, Seq::empty());
    assert(norm(p0) + Seq::<u8>::empty() =~= norm(p0));
    assert(p0 + Seq::<u8>::empty() =~= p0);
    assert(messages@ + Seq::<MessageType>::empty() =~= messages@);
    if self.current_message_size is Some {
      let n = self.current_message_size->Some_0;
      assert(p0.subrange(1, 5) =~= to_be(n as u32));
      assert(norm(p0) =~= p0);
      if complete(p0) {
        assert(body(p0) =~= b0.subrange(0, n as int));
        assert(tail(p0) =~= b0.subrange(n as int, b0.len() as int));
      }
    } else {
      if p0.len() >= 5 {
        assert(b0.subrange(1, b0.len() as int).subrange(0, 4) =~= b0.subrange(1, 5));
        let k = be32(b0.subrange(1, 5));
        lemma_be_inj(b0.subrange(1, 5));
        assert(b0.subrange(1, b0.len() as int).subrange(4, b0.len() - 1) =~= b0.subrange(5, b0.len() as int));
        assert(norm(p0) =~= seq![if b0[0] == 1 { 1u8 } else { 0u8 }] + to_be(k as u32) + b0.subrange(5, b0.len() as int));
      }
    }
  }
@after messages.push(__x)
  assert(m0 + run::<MessageType>(dd, p0).msgs =~= messages@ + run::<MessageType>(self.decompressor, self.pending()).msgs);

//@ ---- encoding
@text
pub struct SliceFrom { pub at: usize }
impl BytesMut {
  #[verifier::external_body]
  pub fn vx_from(&self, n: usize) -> (r: Option<SliceFrom>)
    ensures n <= self@.len() ==> r == Some(SliceFrom { at: n }),
  { unimplemented!() }
  // Serialises into the slice; too small a slice is an error.
  #[verifier::external_body]
  pub fn vx_write<M: Message>(&mut self, s: SliceFrom, m: &M) -> (r: Result<(), ProtoErr>)
    ensures
      s.at + ser(*m).len() <= old(self)@.len() ==> r is Ok
        && final(self)@ == old(self)@.subrange(0, s.at as int) + ser(*m) + old(self)@.subrange(s.at + ser(*m).len(), old(self)@.len() as int),
  { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct ProtoErr {}
#[verifier::external_body]
pub struct Compressor {}
pub uninterp spec fn is_zip(z: Seq<u8>, b: Seq<u8>) -> bool;
pub open spec fn zipped(r: Seq<u8>, b: Seq<u8>) -> bool { exists|z: Seq<u8>| #[trigger] is_zip(z, b) && r == frame(1, z) }
pub mod protobuf { pub use super::Message; }
@known encode_compressed
@rule handle_unexpected_error_with_details(__a, __b, __c) => ()
@type bd-grpc-codec/src/lib.rs GRPC_MIN_MESSAGE_SIZE_COMPRESSION_THRESHOLD
@type bd-grpc-codec/src/lib.rs Encoder
@field _type: Ghost<Option<MessageType>>
@text
impl<MessageType: Message> Encoder<MessageType> {
  #[verifier::external_body]
  pub fn encode_compressed(c: &mut Option<Compressor>, message: &MessageType) -> (r: Result<Bytes, Error>)
    requires *old(c) is Some,
    ensures r is Ok ==> zipped(r->Ok_0@, ser(*message)),
  { unimplemented!() }
}
@fn bd-grpc-codec/src/lib.rs Encoder::encode_uncompressed
@impl impl<MessageType: Message> Encoder<MessageType>
@frule __b.get_mut(__n ..) => __b.vx_from(__n)
@frule CodedOutputStream::bytes(__s) => __s
@frule message.write_to_with_cached_sizes(&mut __o) => buffer.vx_write(__o, message)
@spec
  ensures r@ == frame(0, ser(*message)),
@after buffer.put_u32(__n)
  broadcast use axiom_to_be;
  let ghost hd = buffer@;
  assert(hd =~= seq![0u8] + to_be(message_size as u32));
@after buffer.vx_write(__o, message).unwrap()
  assert(buffer@ =~= hd + ser(*message));
@fn bd-grpc-codec/src/lib.rs Encoder::encode
@impl impl<MessageType: Message> Encoder<MessageType>
@frule (&mut self.compressor, __c) => (&self.compressor, __c)
@frule Self::encode_compressed(compressor, message) => Self::encode_compressed(&mut self.compressor, message)
@spec
  ensures
    // Uncompressed frames: one zero byte, the big-endian length, the payload. Everything else is a compressed frame.
    r@ == frame(0, ser(*message)) || (old(self).compressor is Some && ser(*message).len() >= 100 && zipped(r@, ser(*message))),
