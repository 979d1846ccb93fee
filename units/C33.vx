// C33: log uploads, over stand-ins for the ring buffers, the API task and the clock.
@include prelude.inc
@include iter.inc
@include select.inc
@include vmap.inc
@rule __x.await => __x
@rule __x.unwrap_infallible() => __x
@rule Arc::new(__x) => __x
@type_rule Arc<__T> => __T
@rule __x.to_vec() => __x.vx_clone()
@text
#[verifier::external_body]
pub struct Counter {}
impl Counter {
  #[verifier::external_body]
  pub fn inc(&self) { }
  #[verifier::external_body]
  pub fn inc_by(&self, n: u64) { }
}
impl Clone for Counter { #[verifier::external_body] fn clone(&self) -> Self { Counter {} } }
// A flag, as it reads now.
pub struct IntWatch { pub v: u32 }
impl IntWatch {
  pub fn read(&self) -> (r: u32) ensures r == self.v { self.v }
  #[verifier::external_body]
  pub fn changed(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
}
impl Clone for IntWatch { fn clone(&self) -> (r: Self) { IntWatch { v: self.v } } }
#[derive(Clone, Copy)]
pub struct Span { pub ns: u64 }
pub struct SpanWatch { pub v: Span }
impl SpanWatch { pub fn read(&self) -> (r: Span) ensures r == self.v { self.v } }
impl Span {
  pub fn unsigned_abs(self) -> (r: Span) ensures r == self { self }
  pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { self.ns == 0 }
}
@type_rule IntWatch<__T> => IntWatch
@type_rule DurationWatch<__T> => SpanWatch
@type_rule Watch<time::Duration, __T> => SpanWatch
@text
pub struct Instant { pub at: u64, pub after: u32 }
// The instant so many milliseconds from now.
#[verifier::external_body]
pub fn vx_in_ms(n: u32) -> (r: Instant) ensures r.after == n { unimplemented!() }
#[verifier::external_body]
pub fn vx_sleep_until(t: Option<Instant>) requires t is Some { unimplemented!() }
impl Clone for Instant { fn clone(&self) -> (r: Self) { Instant { at: self.at, after: self.after } } }
impl Copy for Instant {}
// ---- What went on: the records read from a buffer, how many of them left it, the uploads that ended and how.
pub struct Call { pub logs: Seq<Vec<u8>>, pub buffer: Seq<char>, pub end: UploadResult }
pub struct World { pub read: Ghost<Seq<Vec<u8>>>, pub freed: Ghost<nat>, pub calls: Ghost<Seq<Call>>, pub down: Ghost<bool>, pub empty: Ghost<bool> }
// The logs of the uploads that were acknowledged or given up, in order.
pub open spec fn settled(c: Seq<Call>) -> Seq<Vec<u8>> decreases c.len() {
  if c.len() == 0 { Seq::empty() } else if c.last().end is Canceled { settled(c.drop_last()) } else { settled(c.drop_last()) + c.last().logs }
}
// The logs of all of them.
pub open spec fn offered(c: Seq<Call>) -> Seq<Vec<u8>> decreases c.len() {
  if c.len() == 0 { Seq::empty() } else { offered(c.drop_last()) + c.last().logs }
}
pub broadcast proof fn lemma_settled(c: Seq<Call>, x: Call)
  ensures #[trigger] settled(c.push(x)) == (if x.end is Canceled { settled(c) } else { settled(c) + x.logs }),
{ assert(c.push(x).drop_last() =~= c); }
pub broadcast proof fn lemma_offered(c: Seq<Call>, x: Call)
  ensures #[trigger] offered(c.push(x)) == offered(c) + x.logs,
{ assert(c.push(x).drop_last() =~= c); }
pub open spec fn bytes(l: Seq<Vec<u8>>) -> int decreases l.len() { if l.len() == 0 { 0 } else { bytes(l.drop_last()) + l.last()@.len() } }
pub struct ComponentShutdown {}
impl ComponentShutdown {
  #[verifier::external_body]
  pub fn cancelled(&mut self, w: &mut World) ensures *final(w) == (World { down: final(w).down, ..*old(w) }), final(w).down@ { unimplemented!() }
}
// A continuous buffer's reader. No record leaves the buffer before its upload has ended; once told to stop all that
// is not through stays (what the select! of a stopped task may still pick is left open).
pub struct CursorConsumer {}
impl CursorConsumer {
  #[verifier::external_body]
  pub fn read(&mut self, w: &mut World) -> (r: Result<Vec<u8>, AnyErr>)
    ensures
      r is Ok ==> *final(w) == (World { read: final(w).read, ..*old(w) }) && final(w).read@ == old(w).read@.push(r->Ok_0) && bytes(final(w).read@) <= usize::MAX,
      r is Err ==> *final(w) == *old(w),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn advance_read_cursor(&mut self, w: &mut World) -> (r: Result<(), AnyErr>)
    requires old(w).down@ || old(w).freed@ < settled(old(w).calls@).len(),
    ensures
      r is Ok ==> *final(w) == (World { freed: final(w).freed, ..*old(w) }) && final(w).freed@ == old(w).freed@ + 1,
      r is Err ==> *final(w) == *old(w),
  { unimplemented!() }
}
// The stream buffer's reader: one record at a time.
pub struct StreamConsumer {}
impl StreamConsumer {
  #[verifier::external_body]
  pub fn read(&mut self, w: &mut World) -> (r: Result<Vec<u8>, AnyErr>)
    requires old(w).freed@ == old(w).read@.len(),
    ensures
      r is Ok ==> *final(w) == (World { read: final(w).read, ..*old(w) }) && final(w).read@ == old(w).read@.push(r->Ok_0),
      r is Err ==> *final(w) == *old(w),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn finish_read(&mut self, w: &mut World) -> (r: Result<(), AnyErr>)
    requires old(w).down@ || offered(old(w).calls@) == old(w).read@,
    ensures
      r is Ok ==> *final(w) == (World { freed: final(w).freed, ..*old(w) }) && final(w).freed@ == old(w).freed@ + 1,
      r is Err ==> *final(w) == *old(w),
  { unimplemented!() }
}
@type_rule Box<dyn bd_buffer::RingBufferConsumer> => StreamConsumer
@type_rule bd_buffer::CursorConsumer => CursorConsumer
@type_rule service::Upload => Upload
@text
// A trigger buffer's reader: each record is gone once read. `Unavailable`: there are none (`empty`).
pub enum AbslCode { Unavailable, Other }
pub enum Error { AbslStatus(AbslCode, u8), Other }
impl From<Error> for AnyErr { #[verifier::external_body] fn from(e: Error) -> AnyErr { unimplemented!() } }
pub struct Consumer {}
impl Consumer {
  #[verifier::external_body]
  pub fn try_read(&mut self, w: &mut World) -> (r: Result<Vec<u8>, Error>)
    ensures
      r is Ok ==> *final(w) == (World { read: final(w).read, empty: final(w).empty, ..*old(w) }) && final(w).read@ == old(w).read@.push(r->Ok_0) && final(w).read@.len() < 0x7fff_ffff && bytes(final(w).read@) <= usize::MAX,
      r is Err ==> *final(w) == (World { empty: final(w).empty, ..*old(w) }),
      final(w).empty@ <==> r is Err && r->Err_0 is AbslStatus && r->Err_0->AbslStatus_0 is Unavailable,
  { unimplemented!() }
}
// A log as it was written, and when.
pub uninterp spec fn stamped(l: Seq<u8>) -> Option<Option<int>>;
pub struct Log { pub at: Option<Stamp> }
#[derive(Clone, Copy)]
pub struct Stamp { pub t: i128 }
impl Log { pub fn timestamp(&self) -> (r: Option<Stamp>) ensures r == self.at { self.at } }
#[verifier::external_body]
pub fn root_as_log(l: &Vec<u8>) -> (r: Result<Log, AnyErr>)
  ensures r is Ok <==> stamped(l@) is Some, r is Ok ==> match stamped(l@)->0 { Some(t) => r->Ok_0.at is Some && r->Ok_0.at->0.t == t, None => r->Ok_0.at is None },
{ unimplemented!() }
#[derive(Clone, Copy)]
pub struct OffsetDateTime { pub t: i128 }
pub fn vx_when(s: Stamp) -> (r: OffsetDateTime) ensures r.t == s.t { OffsetDateTime { t: s.t } }
pub fn vx_older(a: OffsetDateTime, b: OffsetDateTime) -> (r: bool) ensures r == (a.t < b.t) { a.t < b.t }
#[verifier::external_body]
pub fn vx_ago(d: Span) -> (r: OffsetDateTime) { unimplemented!() }
@type_rule time::OffsetDateTime => OffsetDateTime
@text
pub open spec fn wanted(window: Option<OffsetDateTime>, l: Vec<u8>) -> bool {
  window is None || match stamped(l@) { Some(Some(t)) => t >= window->0.t, _ => true }
}
pub open spec fn kept(window: Option<OffsetDateTime>, s: Seq<Vec<u8>>) -> Seq<Vec<u8>> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if wanted(window, s.last()) { kept(window, s.drop_last()).push(s.last()) } else { kept(window, s.drop_last()) }
}
pub broadcast proof fn lemma_kept(window: Option<OffsetDateTime>, s: Seq<Vec<u8>>, l: Vec<u8>)
  ensures #[trigger] kept(window, s.push(l)) == (if wanted(window, l) { kept(window, s).push(l) } else { kept(window, s) }), kept(window, s).len() <= s.len(),
  decreases s.len(),
{
  assert(s.push(l).drop_last() =~= s);
  if s.len() > 0 { lemma_kept(window, s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); }
}
pub broadcast proof fn lemma_bytes(s: Seq<Vec<u8>>, l: Vec<u8>)
  ensures #[trigger] bytes(s.push(l)) == bytes(s) + l@.len(),
{ assert(s.push(l).drop_last() =~= s); }
// A suffix of what was read.
pub broadcast proof fn lemma_sum(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, l: Vec<u8>)
  ensures #[trigger] (a + b).push(l) == a + b.push(l),
{ assert((a + b).push(l) =~= a + b.push(l)); }
pub proof fn lemma_none(s: Seq<Vec<u8>>)
  ensures 0 <= bytes(s),
  decreases s.len(),
{ if s.len() > 0 { lemma_none(s.drop_last()); } }
@type bd-logger/src/service.rs UploadResult
@type bd-logger/src/service.rs UploadRequest
@type bd-api/src/upload.rs LogBatch
@type bd-logger/src/consumer.rs Flags
@type bd-logger/src/consumer.rs BatchBuilder
@type bd-logger/src/consumer.rs ContinuousBufferUploader
@type bd-logger/src/consumer.rs StreamedBufferUpload
@type bd-logger/src/consumer.rs CompleteBufferUpload
@text
impl Clone for Flags { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for UploadRequest { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for LogBatch { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
// The upload service (rate limit: property C08; the request and its retries: below): it ends, somehow.
#[verifier::external_body]
pub struct Upload {}
pub open spec fn ended(o: World, n: World, q: UploadRequest, r: UploadResult) -> bool {
  n == (World { calls: n.calls, ..o }) && n.calls@ == o.calls@.push(Call { logs: q.log_upload.logs@, buffer: q.log_upload.buffer_id@, end: r })
}
impl Upload {
  // A continuous buffer's logs go out in the order they were read, none twice, none left out.
  #[verifier::external_body]
  pub fn vx_continuous(&mut self, q: UploadRequest, w: &mut World) -> (r: UploadResult)
    requires q.log_upload.logs@.len() > 0, old(w).down@ || settled(old(w).calls@) + q.log_upload.logs@ == old(w).read@,
    ensures ended(*old(w), *final(w), q, r),
  { unimplemented!() }
  // Streamed logs, one by one.
  #[verifier::external_body]
  pub fn vx_stream(&mut self, q: UploadRequest, w: &mut World) -> (r: UploadResult)
    requires q.log_upload.logs@.len() == 1, old(w).down@ || offered(old(w).calls@) + q.log_upload.logs@ == old(w).read@,
    ensures ended(*old(w), *final(w), q, r),
  { unimplemented!() }
  // A trigger buffer's logs, save those that are too old.
  #[verifier::external_body]
  pub fn vx_trigger(&mut self, q: UploadRequest, window: Option<OffsetDateTime>, w: &mut World) -> (r: UploadResult)
    requires q.log_upload.logs@.len() > 0, offered(old(w).calls@) + q.log_upload.logs@ == kept(window, old(w).read@),
    ensures ended(*old(w), *final(w), q, r),
  { unimplemented!() }
}
// ---- Batches.
impl BatchBuilder {
  pub open spec fn ok(&self) -> bool { self.total_bytes == bytes(self.logs@) }
  pub open spec fn over(&self) -> bool { self.logs@.len() > 0 && (self.total_bytes >= self.flags.max_match_size_bytes.v || self.logs@.len() >= self.flags.max_batch_size_logs.v) }
}
@fn bd-logger/src/consumer.rs BatchBuilder::new
@spec
  ensures r.ok(), r.logs@.len() == 0, r.flags == flags,
@fn bd-logger/src/consumer.rs BatchBuilder::add_log
@spec
  requires old(self).ok(), old(self).total_bytes + data@.len() <= usize::MAX,
  ensures final(self).ok(), final(self).logs@ == old(self).logs@.push(data), final(self).flags == old(self).flags,
@entry
  broadcast use lemma_bytes;
@fn bd-logger/src/consumer.rs BatchBuilder::limit_reached
@spec
  ensures r == self.over(),
@fn bd-logger/src/consumer.rs BatchBuilder::take
@frule self.logs.drain(..).collect() => vx_take(&mut self.logs)
@spec
  ensures final(self).ok(), final(self).logs@.len() == 0, r@ == old(self).logs@, final(self).flags == old(self).flags,
@text
#[verifier::external_body]
pub fn vx_take(v: &mut Vec<Vec<u8>>) -> (r: Vec<Vec<u8>>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
@text
#[verifier::external_body]
pub fn vx_uuid() -> (r: String) { unimplemented!() }
@fn bd-logger/src/service.rs UploadRequest::new
@frule TrackedLogBatch::upload_uuid() => vx_uuid()
@spec
  ensures r.log_upload == log_upload,
@text
// ---- Continuous buffers.
impl ContinuousBufferUploader {
  // Read so far: what was uploaded or given up (and has left the buffer), then the batch.
  pub open spec fn inv(&self, w: World) -> bool {
    &&& self.batch_builder.ok()
    &&& self.batch_builder.total_bytes <= bytes(w.read@)
    &&& w.down@ || (w.freed@ == settled(w.calls@).len() && settled(w.calls@) + self.batch_builder.logs@ == w.read@)
  }
}
@fn bd-logger/src/consumer.rs ContinuousBufferUploader::new
@spec
  ensures r.batch_builder.ok(), r.batch_builder.logs@.len() == 0, r.flush_batch_deadline is None, r.batch_builder.flags == feature_flags, r.feature_flags == feature_flags,
@fn bd-logger/src/consumer.rs ContinuousBufferUploader::flush_current_batch
@extra_param vx_w: &mut World
@frule __s.ready().call(__q) => __s.vx_continuous(__q, vx_w)
@frule self.shutdown.cancelled() => self.shutdown.cancelled(vx_w)
@frule self.consumer.advance_read_cursor() => self.consumer.advance_read_cursor(vx_w)
@spec
  requires old(self).inv(*old(vx_w)), old(self).batch_builder.logs@.len() > 0,
  ensures
    final(self).feature_flags == old(self).feature_flags, final(self).batch_builder.flags == old(self).batch_builder.flags,
    final(vx_w).read@ == old(vx_w).read@, old(vx_w).down@ ==> final(vx_w).down@,
    r is Ok ==> final(self).inv(*final(vx_w)) && final(self).batch_builder.logs@.len() == 0 && final(self).flush_batch_deadline is None,
    // not through: nothing leaves the buffer
    r is Err && final(vx_w).calls@.len() > 0 && final(vx_w).calls@.last().end is Canceled ==> final(vx_w).freed@ == old(vx_w).freed@,
@attr #[verifier::loop_isolation(false)]
@entry
  broadcast use {lemma_settled, lemma_bytes, lemma_sum};
  proof { lemma_none(vx_w.read@); }
@loop 0
  invariant
    vx_w.read@ == old(vx_w).read@, vx_w.calls@.len() > 0 && !(vx_w.calls@.last().end is Canceled), old(vx_w).down@ ==> vx_w.down@,
    self.feature_flags == old(self).feature_flags, self.batch_builder.flags == old(self).batch_builder.flags, self.batch_builder.ok(), self.batch_builder.logs@.len() == 0, self.flush_batch_deadline is None,
    vx_w.down@ || (settled(vx_w.calls@) == vx_w.read@ && vx_w.freed@ + logs_len - vx_n0 == vx_w.read@.len()),
@before Ok(())
  proof { assert(settled(vx_w.calls@) + self.batch_builder.logs@ =~= settled(vx_w.calls@)); }
@fn bd-logger/src/consumer.rs ContinuousBufferUploader::consume_continuous_logs
@extra_param vx_w: &mut World
@attr #[verifier::exec_allows_no_decreases_clause]
@frule vx_self.shutdown.cancelled() => vx_self.shutdown.cancelled(vx_w)
@frule vx_self.consumer.read() => vx_self.consumer.read(vx_w)
@frule vx_self.flush_current_batch() => vx_self.flush_current_batch(vx_w)
@frule __x.map(tokio::time::sleep_until) => __x
@frule flush_batch_timer.unwrap() => vx_sleep_until(flush_batch_timer)
@frule Instant::now() + Duration::from_millis(__d.into()) => vx_in_ms(__d)
@spec
  requires
    old(vx_w).read@.len() == 0, old(vx_w).freed@ == 0, old(vx_w).calls@.len() == 0, self.batch_builder.ok(), self.batch_builder.logs@.len() == 0, self.flush_batch_deadline is None,
@entry
  broadcast use {lemma_bytes, lemma_sum};
  proof { lemma_none(vx_w.read@); assert(settled(vx_w.calls@) + self.batch_builder.logs@ =~= vx_w.read@); }
@loop 0
  invariant
    vx_self.inv(*vx_w),
    // no batch is held back beyond its size, nor without a time at which it goes out at the latest
    !vx_self.batch_builder.over(),
    vx_self.batch_builder.logs@.len() > 0 <==> vx_self.flush_batch_deadline is Some,
@loop_entry 0
  broadcast use {lemma_bytes, lemma_sum};
@fn bd-logger/src/consumer.rs StreamedBufferUpload::start
@extra_param vx_w: &mut World
@attr #[verifier::exec_allows_no_decreases_clause]
@frule __s.ready().call(__q) => __s.vx_stream(__q, vx_w)
@frule vx_self.shutdown.cancelled() => vx_self.shutdown.cancelled(vx_w)
@frule vx_self.consumer.read() => vx_self.consumer.read(vx_w)
@frule vx_self.consumer.finish_read() => vx_self.consumer.finish_read(vx_w)
@spec
  requires old(vx_w).read@.len() == 0, old(vx_w).freed@ == 0, old(vx_w).calls@.len() == 0,
@entry
  proof { assert(offered(vx_w.calls@) =~= vx_w.read@); }
@loop 0
  invariant
    vx_w.freed@ == vx_w.read@.len(),
    // one after the other
    vx_w.down@ || offered(vx_w.calls@) == vx_w.read@,
@loop_entry 0
  broadcast use {lemma_offered, lemma_one};
@text
pub broadcast proof fn lemma_one(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>)
  ensures b.len() == 1 ==> #[trigger] (a + b) == a.push(b[0]),
{ if b.len() == 1 { assert(a + b =~= a.push(b[0])); } }
// ---- Trigger buffers.
impl CompleteBufferUpload {
  pub open spec fn inv(&self, w: World) -> bool {
    &&& self.batch_builder.ok()
    &&& self.batch_builder.total_bytes <= bytes(w.read@)
    &&& offered(w.calls@) + self.batch_builder.logs@ == kept(self.lookback_window, w.read@)
  }
}
@fn bd-logger/src/consumer.rs CompleteBufferUpload::new
@frule OffsetDateTime::now_utc() - __w => vx_ago(__w)
@spec
  ensures
    r.batch_builder.ok(), r.batch_builder.logs@.len() == 0, r.batch_builder.flags == runtime_flags, r.buffer_id == buffer_id,
    r.lookback_window is None <==> runtime_flags.upload_lookback_window_feature_flag.v.ns == 0,
@fn bd-logger/src/consumer.rs CompleteBufferUpload::flush_batch
@extra_param vx_w: &mut World
@frule __s.ready().call(__q) => __s.vx_trigger(__q, vx_self_window, vx_w)
@entry
  broadcast use {lemma_offered, lemma_bytes};
  let vx_self_window = self.lookback_window;
  proof { lemma_none(vx_w.read@); }
@spec
  requires old(self).inv(*old(vx_w)), old(self).batch_builder.logs@.len() > 0,
  ensures
    r is Ok, final(self).inv(*final(vx_w)), final(self).batch_builder.logs@.len() == 0,
    final(vx_w).read@ == old(vx_w).read@, final(self).lookback_window == old(self).lookback_window, final(self).batch_builder.flags == old(self).batch_builder.flags,
    final(vx_w).empty == old(vx_w).empty,
@before Ok(())
  proof { assert(offered(vx_w.calls@) + self.batch_builder.logs@ =~= offered(vx_w.calls@)); }
@fn bd-logger/src/consumer.rs CompleteBufferUpload::run
@ret r: Result<i32, AnyErr>
@extra_param vx_w: &mut World
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@frule vx_self.consumer.try_read() => vx_self.consumer.try_read(vx_w)
@frule vx_self.flush_batch() => vx_self.flush_batch(vx_w)
@frule OffsetDateTime::from_unix_timestamp(ts.seconds()).unwrap() + time::Duration::nanoseconds(i64::from(ts.nanos())) => vx_when(ts)
@frule ts < lookback_window => vx_older(ts, lookback_window)
@frule ts <= lookback_window => (!vx_older(lookback_window, ts))
@frule ts > lookback_window => vx_older(lookback_window, ts)
@frule ts >= lookback_window => (!vx_older(ts, lookback_window))
@spec
  requires old(vx_w).read@.len() == 0, old(vx_w).calls@.len() == 0, self.batch_builder.ok(), self.batch_builder.logs@.len() == 0, self.batch_builder.total_bytes == 0,
  ensures
    // everything that was in the buffer and is not too old was shipped, and counted
    r is Ok ==> final(vx_w).empty@ && offered(final(vx_w).calls@) == kept(self.lookback_window, final(vx_w).read@) && r->Ok_0 == kept(self.lookback_window, final(vx_w).read@).len(),
@entry
  broadcast use {lemma_bytes, lemma_sum, lemma_kept};
  proof { lemma_none(vx_w.read@); assert(offered(vx_w.calls@) + self.batch_builder.logs@ =~= kept(self.lookback_window, vx_w.read@)); }
@loop 0
  invariant
    vx_self.inv(*vx_w), !vx_self.batch_builder.over(), vx_self.lookback_window == self.lookback_window,
    total_logs == kept(self.lookback_window, vx_w.read@).len(), 0 <= total_logs <= vx_w.read@.len() < 0x7fff_ffff,
@loop_entry 0
  broadcast use {lemma_bytes, lemma_sum, lemma_kept};
@before return Ok(total_logs)
  proof { assert(offered(vx_w.calls@) + vx_self.batch_builder.logs@ =~= offered(vx_w.calls@)); }
// ---- One upload: the request, its answer, its retries.
@text
// What the server said to a request; its stream ended before that (`lost`).
pub struct LogUploadRequest { pub upload_uuid: String, pub logs: Vec<Vec<u8>>, pub buffer_uuid: String }
pub uninterp spec fn answered(q: LogUploadRequest, ok: bool) -> bool;
pub uninterp spec fn lost(q: LogUploadRequest) -> bool;
impl Default for LogUploadRequest { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
pub struct UploadResponse { pub success: bool }
pub struct RecvError {}
pub struct VxAnswer { pub q: Ghost<LogUploadRequest> }
impl VxAnswer {
  #[verifier::external_body]
  pub fn vx_wait(self) -> (r: Result<UploadResponse, RecvError>)
    ensures r is Ok ==> answered(self.q@, r->Ok_0.success), r is Err ==> lost(self.q@),
  { unimplemented!() }
}
pub struct TrackedLogBatch { pub uuid: String, pub payload: LogUploadRequest }
impl TrackedLogBatch {
  #[verifier::external_body]
  pub fn new(uuid: String, payload: LogUploadRequest) -> (r: (Self, VxAnswer)) ensures r.0.uuid == uuid, r.0.payload == payload, r.1.q@ == payload { unimplemented!() }
}
pub enum DataUpload { LogsUploadRequest(TrackedLogBatch) }
#[verifier::external_body]
pub struct Outlet {}
impl Outlet {
  // the answer to a request goes to who tracks it: under its own identifier
  #[verifier::external_body]
  pub fn send(&self, u: DataUpload) -> (r: Result<(), RecvError>)
    requires u->LogsUploadRequest_0.uuid == u->LogsUploadRequest_0.payload.upload_uuid,
  { unimplemented!() }
}
impl Clone for Outlet { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Halt {}
impl Halt { #[verifier::external_body] pub fn cancelled(&mut self) { unimplemented!() } }
impl Clone for Halt { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Scope {}
impl Clone for Scope { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_counter(s: &Scope) -> (r: Counter) { unimplemented!() }
#[verifier::external_body]
pub struct Infallible {}
@type_rule Sender<DataUpload> => Outlet
@type bd-logger/src/service.rs Uploader
@field shutdown: Halt
@fn bd-logger/src/service.rs Uploader::call
@impl impl Uploader
@ret r: Result<UploadResult, Infallible>
@frule self.scope.counter_with_labels(__n, __l) => vx_counter(&self.scope)
@frule __x.map(|result| __f).unwrap_or(__d) => match __x { Ok(result) => __f, Err(_) => __d }
@frule response_rx.await => response_rx.vx_wait()
@spec
  ensures
    r is Ok,
    ({
      let q = LogUploadRequest { upload_uuid: request.uuid, logs: request.log_upload.logs, buffer_uuid: request.log_upload.buffer_id };
      &&& r->Ok_0 is Success ==> answered(q, true)
      &&& r->Ok_0 is Failure ==> answered(q, false) || lost(q)
    }),
@type bd-logger/src/service.rs BackoffProvider
@type_rule backoff::ExponentialBackoff => Backoff
@text
// The pauses between retries: growing from the first to the longest, each randomised, without an end.
pub struct Backoff { pub first: u64, pub most: u64, pub endless: bool, pub nth: u64 }
pub uninterp spec fn pause_of(b: Backoff) -> Pause;
pub struct Pause {}
impl Backoff {
  #[verifier::external_body]
  pub fn next_backoff(&mut self) -> (r: Option<Pause>)
    ensures old(self).endless ==> r is Some, r is Some ==> r->0 == pause_of(*old(self)), *final(self) == (Backoff { nth: final(self).nth, ..*old(self) }), final(self).nth == old(self).nth + 1,
  { unimplemented!() }
}
#[verifier::external_body]
pub struct BackoffBuilder {}
pub struct BackoffPlan { pub b: Backoff }
pub struct ExponentialBackoffBuilder {}
impl ExponentialBackoffBuilder {
  // the crate's own defaults: half a second, a minute, a quarter of an hour
  pub fn new() -> (r: BackoffPlan) ensures !r.b.endless, r.b.nth == 0 { BackoffPlan { b: Backoff { first: 500_000_000, most: 60_000_000_000, endless: false, nth: 0 } } }
}
impl BackoffPlan {
  pub fn with_initial_interval(self, d: Span) -> (r: Self) ensures r.b == (Backoff { first: d.ns, ..self.b }) { BackoffPlan { b: Backoff { first: d.ns, ..self.b } } }
  pub fn with_max_interval(self, d: Span) -> (r: Self) ensures r.b == (Backoff { most: d.ns, ..self.b }) { BackoffPlan { b: Backoff { most: d.ns, ..self.b } } }
  pub fn with_max_elapsed_time(self, d: Option<Span>) -> (r: Self) ensures r.b == (Backoff { endless: d is None, ..self.b }) { BackoffPlan { b: Backoff { endless: d.is_none(), ..self.b } } }
  pub fn build(self) -> (r: Backoff) ensures r == self.b { self.b }
}
pub fn vx_or_put(o: &mut Option<Backoff>, d: Backoff) -> (r: &mut Backoff)
  ensures *r == (match *old(o) { Some(b) => b, None => d }), *final(o) == Some(*final(r)),
{ if o.is_none() { *o = Some(d); } match o { Some(b) => b, None => vx_never() } }
pub uninterp spec fn slept(p: Pause) -> bool;
#[verifier::external_body]
pub fn vx_sleep(p: Pause) ensures slept(p) { unimplemented!() }
@rule backoff::ExponentialBackoffBuilder::new() => ExponentialBackoffBuilder::new()
@fn bd-logger/src/service.rs BackoffProvider::backoff
@spec
  ensures r.first == self.initial_backoff.v.ns, r.most == self.max_backoff.v.ns, r.endless, r.nth == 0,
@type bd-logger/src/service.rs RetryPolicy
@text
impl RetryPolicy {
  pub open spec fn plan(&self) -> Backoff {
    match self.backoff { Some(b) => b, None => Backoff { first: self.backoff_provider.initial_backoff.v.ns, most: self.backoff_provider.max_backoff.v.ns, endless: true, nth: 0 } }
  }
  pub open spec fn ok(&self) -> bool { self.backoff is Some ==> self.backoff->0.endless }
}
@fn bd-logger/src/service.rs RetryPolicy::should_retry
@spec
  ensures r == (self.attempts < self.max_retries.v),
@fn bd-logger/src/service.rs RetryPolicy::retry
@impl impl RetryPolicy
@ret r: Option<()>
@frule tokio::time::sleep(__d) => vx_sleep(__d)
@frule self.backoff.get_or_insert_with(|| __f) => vx_or_put(&mut self.backoff, __f)
@spec
  requires old(self).ok(),
  ensures
    // the same request again, and only after a failure, as often as is configured
    *final(req) == *old(req), *final(result) == *old(result),
    r is Some <==> old(self).attempts < old(self).max_retries.v && *old(result) == Ok::<UploadResult, Infallible>(UploadResult::Failure),
    r is Some ==> final(self).attempts == old(self).attempts + 1,
    // .. with the next of its pauses before
    r is Some ==> slept(pause_of(old(self).plan())) && final(self).backoff == Some(Backoff { nth: (old(self).plan().nth + 1) as u64, ..old(self).plan() }),
    final(self).ok(), final(self).max_retries == old(self).max_retries,
@fn bd-logger/src/service.rs RetryPolicy::clone_request
@impl impl RetryPolicy
@spec
  ensures r == Some(*req),
