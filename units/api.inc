@include prelude.inc
@include fs.inc
@include select.inc
@include iter.inc
@text
// ---- Time. The clock stands still within one start's decision; it is far from the end of what an instant can hold.
#[derive(Clone, Copy)]
pub struct VxTime { pub ns: i128 }
#[derive(Clone, Copy)]
pub struct VxSpan { pub ns: i128 }
pub struct VxClock { pub at: VxTime }
impl VxClock {
  #[verifier::external_body]
  pub fn now(&self) -> (r: VxTime) ensures r == self.at, -0x1_0000_0000_0000_0000_0000 < r.ns < 0x1_0000_0000_0000_0000_0000 { unimplemented!() }
}
impl VxSpan { pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { self.ns == 0 } }
pub fn vx_later(a: VxTime, b: VxTime) -> (r: bool) ensures r == (a.ns > b.ns) { a.ns > b.ns }
pub fn vx_after(a: VxTime, d: VxSpan) -> (r: VxTime)
  requires -0x1_0000_0000_0000_0000_0000 < a.ns < 0x1_0000_0000_0000_0000_0000, 0 <= d.ns < 0x1_0000_0000_0000_0000_0000,
  ensures r.ns == a.ns + d.ns,
{ VxTime { ns: a.ns + d.ns } }
// A flag's watch; a duration flag holds a number of milliseconds of 32 bits.
pub struct VxWatch<T> { pub v: T }
impl VxWatch<VxSpan> {
  #[verifier::external_body]
  pub fn read(&self) -> (r: VxSpan) ensures r == self.v, 0 <= r.ns < 0x1_0000_0000_0000_0000_0000 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_flag() -> (r: bool) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Instant { pub ns: u64 }
#[derive(Clone, Copy)]
pub struct Pause { pub ns: u64 }
#[verifier::external_body]
pub fn vx_now() -> (r: Instant) { unimplemented!() }
pub uninterp spec fn later(t: Instant, d: Pause) -> Instant;
#[verifier::external_body]
pub fn vx_deadline(t: Instant, d: Pause) -> (r: Instant) ensures r == later(t, d) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sleep(d: Pause) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sleep_until(t: Option<Instant>) requires t is Some { unimplemented!() }
#[verifier::external_body]
pub fn vx_since_over(a: Instant) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_overdue(t: &mut Option<Instant>) -> (r: bool) ensures *final(t) is Some { unimplemented!() }
// ---- The kill file: what it says, if it decodes (its checksum decides that it does).
pub struct Stamp { pub ns: i128 }
impl Stamp { pub fn to_offset_date_time(&self) -> (r: VxTime) ensures r.ns == self.ns { VxTime { ns: self.ns } } }
impl VxTime { pub fn into_proto(self) -> (r: Stamp) ensures r.ns == self.ns { Stamp { ns: self.ns } } }
pub struct ClientKillFile { pub api_key_hash: Vec<u8>, pub kill_until: Stamp }
pub struct Kill { pub hash: Seq<u8>, pub until: int }
impl ClientKillFile { pub open spec fn says(&self) -> Kill { Kill { hash: self.api_key_hash@, until: self.kill_until.ns as int } } }
pub uninterp spec fn unpacked(b: Seq<u8>) -> Option<Kill>;
#[verifier::external_body]
pub fn vx_unpack(b: &Vec<u8>) -> (r: Result<ClientKillFile, AnyErr>)
  ensures r is Ok <==> unpacked(b@) is Some, r is Ok ==> r->Ok_0.says() == unpacked(b@)->0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_pack(k: &ClientKillFile) -> (r: Vec<u8>) ensures unpacked(r@) == Some(k.says()) { unimplemented!() }
pub uninterp spec fn hash64(s: Seq<char>) -> u64;
pub uninterp spec fn bytes8(n: u64) -> Seq<u8>;
pub open spec fn hashed(s: Seq<char>) -> Seq<u8> { bytes8(hash64(s)) }
pub struct DefaultHasher { pub text: Ghost<Seq<char>> }
impl DefaultHasher {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.text@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn finish(&self) -> (r: u64) ensures r == hash64(self.text@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_hash(s: &String, h: &mut DefaultHasher) ensures final(h).text@ == old(h).text@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes8(n: u64) -> (r: Vec<u8>) ensures r@ == bytes8(n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- What is said on a stream. A request, as the server will see it.
pub struct Details { pub reason: Seq<char>, pub meta: int }
pub enum Req { Handshake(Details), Ping, Upload(int), Ack(int) }
pub trait IntoRequest: Sized { spec fn req(&self) -> Req; fn into_request(self) -> (r: ApiRequest) ensures r.says() == self.req(); }
#[verifier::external_body]
pub struct ApiRequest {}
impl ApiRequest { pub uninterp spec fn says(&self) -> Req; }
impl IntoRequest for ApiRequest { open spec fn req(&self) -> Req { self.says() } fn into_request(self) -> (r: ApiRequest) { self } }
pub struct PingRequest {}
impl PingRequest { pub fn default() -> (r: Self) { PingRequest {} } }
impl IntoRequest for PingRequest { open spec fn req(&self) -> Req { Req::Ping } #[verifier::external_body] fn into_request(self) -> (r: ApiRequest) { unimplemented!() } }
#[verifier::external_body]
pub struct HandshakeRequest {}
impl HandshakeRequest { pub uninterp spec fn details(&self) -> Details; }
impl IntoRequest for HandshakeRequest { open spec fn req(&self) -> Req { Req::Handshake(self.details()) } #[verifier::external_body] fn into_request(self) -> (r: ApiRequest) { unimplemented!() } }
#[verifier::external_body]
pub struct Payload {}
impl Payload { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn vx_sent_now(&mut self) ensures final(self).id() == old(self).id() { unimplemented!() } }
impl IntoRequest for Payload { open spec fn req(&self) -> Req { Req::Upload(self.id()) } #[verifier::external_body] fn into_request(self) -> (r: ApiRequest) { unimplemented!() } }
pub struct StatsPayload { pub payload: Payload }
pub struct Tracked { pub uuid: String, pub payload: Payload }
// Bytes of one request.
pub struct Framed { pub req: Ghost<Req> }
#[verifier::external_body]
pub fn vx_encode(r: &ApiRequest) -> (f: Framed) ensures f.req@ == r.says() { unimplemented!() }
// The sending side of a stream. A send that fails may or may not have sent.
pub struct VxStream { pub sent: Ghost<Seq<Req>> }
impl VxStream {
  #[verifier::external_body]
  pub fn vx_send(&mut self, f: &Framed) -> (r: Result<(), AnyErr>)
    ensures
      r is Ok ==> final(self).sent@ == old(self).sent@.push(f.req@),
      final(self).sent@ == old(self).sent@ || final(self).sent@ == old(self).sent@.push(f.req@),
  { unimplemented!() }
}
// ---- Responses.
pub struct HandshakeResponse { pub stream_settings: Option<StreamSettings> }
pub struct StreamSettings { pub ping_interval: Option<ProtoDuration> }
impl Clone for StreamSettings { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub struct ProtoDuration { pub seconds: i64, pub nanos: i32 }
pub uninterp spec fn paused(d: ProtoDuration) -> Option<Pause>;
#[verifier::external_body]
pub fn vx_pause(d: ProtoDuration) -> (r: Option<Pause>) ensures r == paused(d) { unimplemented!() }
pub struct ErrorShutdown { pub grpc_status: i32, pub grpc_message: String }
pub struct PongResponse {}
pub struct LogUploadResponse { pub upload_uuid: String, pub error: String }
pub struct StatsUploadResponse { pub upload_uuid: String, pub error: String }
pub struct SankeyPathUploadResponse { pub upload_uuid: String, pub error: String }
pub struct OpaqueResponse { pub uuid: String, pub error: Option<String> }
pub struct NoFields {}
impl NoFields { pub fn default() -> (r: Self) { NoFields {} } }
pub type LogsUploadDecisionDrop = NoFields;
pub type SankeyPathUploadDecisionDrop = NoFields;
pub enum LogsUploadDecision { Drop(NoFields), UploadImmediately(NoFields) }
pub enum SankeyPathUploadDecision { Drop(NoFields), UploadImmediately(NoFields) }
impl Clone for LogsUploadDecision { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for SankeyPathUploadDecision { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub struct LogUploadIntentResponse { pub intent_uuid: String, pub decision: Option<LogsUploadDecision> }
pub struct SankeyIntentResponse { pub intent_uuid: String, pub decision: Option<SankeyPathUploadDecision> }
pub struct FlushBuffers { pub buffer_id_list: Vec<String> }
impl Clone for HandshakeResponse { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct OtherResponse {}
pub enum Response_type {
  Handshake(HandshakeResponse), LogUpload(LogUploadResponse), LogUploadIntent(LogUploadIntentResponse), StatsUpload(StatsUploadResponse),
  Pong(PongResponse), ErrorShutdown(ErrorShutdown), FlushBuffers(FlushBuffers), SankeyDiagramUpload(SankeyPathUploadResponse),
  SankeyIntentResponse(SankeyIntentResponse), OpaqueUpload(OpaqueResponse), Other(OtherResponse),
}
pub struct ApiResponse { pub response_type: Option<Response_type> }
impl ApiResponse {
  pub open spec fn is_handshake(&self) -> bool { self.response_type is Some && self.response_type->0 is Handshake }
  // Neither an answer nor an order: for the configuration pipelines.
  pub open spec fn is_untyped(&self) -> bool { self.response_type is Some && self.response_type->0 is Other }
  pub open spec fn is_flush(&self) -> bool { self.response_type is Some && self.response_type->0 is FlushBuffers }
  // The server refuses this client's key.
  pub open spec fn is_refusal(&self) -> bool { self.response_type is Some && self.response_type->0 is ErrorShutdown && self.response_type->0->ErrorShutdown_0.grpc_status == 16 }
  pub open spec fn calls(&self) -> Seq<Call> {
    match self.response_type {
      Some(Response_type::LogUpload(x)) => seq![Call::Up(x.upload_uuid@, x.error@)],
      Some(Response_type::StatsUpload(x)) => seq![Call::Up(x.upload_uuid@, x.error@)],
      Some(Response_type::SankeyDiagramUpload(x)) => seq![Call::Up(x.upload_uuid@, x.error@)],
      Some(Response_type::OpaqueUpload(x)) => seq![Call::Up(x.uuid@, match x.error { Some(e) => e@, None => Seq::empty() })],
      Some(Response_type::LogUploadIntent(x)) => seq![Call::In(x.intent_uuid@, x.intent_uuid@, x.decision is Some && x.decision->0 is UploadImmediately)],
      Some(Response_type::SankeyIntentResponse(x)) => seq![Call::In(x.intent_uuid@, x.intent_uuid@, x.decision is Some && x.decision->0 is UploadImmediately)],
      _ => Seq::empty(),
    }
  }
}
pub open spec fn all_calls(s: Seq<ApiResponse>) -> Seq<Call> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { all_calls(s.drop_last()) + s.last().calls() }
}
pub open spec fn untyped(s: Seq<ApiResponse>) -> Seq<ApiResponse> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if s.last().is_untyped() { untyped(s.drop_last()).push(s.last()) } else { untyped(s.drop_last()) }
}
pub open spec fn flushes(s: Seq<ApiResponse>) -> Seq<Seq<String>> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if s.last().is_flush() { flushes(s.drop_last()).push(s.last().response_type->0->FlushBuffers_0.buffer_id_list@) } else { flushes(s.drop_last()) }
}
// The decoder, and everything the server said on this stream so far.
pub struct VxDecoder { pub got: Ghost<Seq<ApiResponse>> }
impl VxDecoder {
  #[verifier::external_body]
  pub fn decode_data(&mut self, d: &Vec<u8>) -> (r: Result<Vec<ApiResponse>, AnyErr>)
    ensures r is Ok ==> final(self).got@ == old(self).got@ + r->Ok_0@, r is Err ==> final(self).got@ == old(self).got@,
  { unimplemented!() }
}
// ---- The upload tracker (property C22), by what it is told.
pub enum Call { Track(Seq<char>), Intent(Seq<char>), Up(Seq<char>, Seq<char>), In(Seq<char>, Seq<char>, bool) }
pub struct IntentResponse { pub uuid: String, pub decision: bool }
pub trait VxYes { spec fn yes(&self) -> bool; fn vx_yes(self) -> (r: bool) ensures r == self.yes(); }
impl VxYes for LogsUploadDecision { open spec fn yes(&self) -> bool { self is UploadImmediately } fn vx_yes(self) -> (r: bool) { match self { LogsUploadDecision::Drop(_) => false, LogsUploadDecision::UploadImmediately(_) => true } } }
impl VxYes for SankeyPathUploadDecision { open spec fn yes(&self) -> bool { self is UploadImmediately } fn vx_yes(self) -> (r: bool) { match self { SankeyPathUploadDecision::Drop(_) => false, SankeyPathUploadDecision::UploadImmediately(_) => true } } }
pub struct StateTracker { pub log: Ghost<Seq<Call>> }
impl StateTracker {
  #[verifier::external_body]
  pub fn track_upload(&mut self, t: Tracked) -> (r: Payload) ensures r == t.payload, final(self).log@ == old(self).log@.push(Call::Track(t.uuid@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn track_intent(&mut self, t: Tracked) -> (r: Payload) ensures r == t.payload, final(self).log@ == old(self).log@.push(Call::Intent(t.uuid@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn resolve_pending_upload(&mut self, id: &str, e: &str) -> (r: Result<(), AnyErr>) ensures final(self).log@ == old(self).log@.push(Call::Up(id@, e@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn resolve_intent(&mut self, id: &str, d: IntentResponse) -> (r: Result<(), AnyErr>) ensures final(self).log@ == old(self).log@.push(Call::In(id@, d.uuid@, d.decision)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_or_empty(e: Option<String>) -> (r: String) ensures r@ == match e { Some(e) => e@, None => Seq::<char>::empty() } { unimplemented!() }
// ---- A configuration pipeline, by what it was asked.
pub struct Pipeline { pub loaded: Ghost<bool>, pub offered: Ghost<Seq<ApiResponse>> }
impl Pipeline {
  #[verifier::external_body]
  pub fn vx_load(&mut self) ensures final(self).loaded@, final(self).offered@ == old(self).offered@ { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_apply(&mut self, r: &ApiResponse) -> (q: Option<ApiRequest>) ensures q is Some ==> q->0.says() is Ack, final(self).loaded@ == old(self).loaded@, final(self).offered@ == old(self).offered@.push(*r) { unimplemented!() }
  // (what the pipeline concludes from this is up to it)
  #[verifier::external_body]
  pub fn vx_complete(&self, s: &StreamState) requires may_complete(*s) { unimplemented!() }
}
// ---- Where requests to upload buffers go.
pub struct VxTrigger { pub sent: Ghost<Seq<Seq<String>>> }
impl VxTrigger {
  #[verifier::external_body]
  pub fn vx_send(&mut self, ids: Vec<String>) -> (r: Result<(), AnyErr>) ensures r is Ok ==> final(self).sent@ == old(self).sent@.push(ids@), r is Err ==> final(self).sent@ == old(self).sent@ { unimplemented!() }
}
#[verifier::external_body]
pub struct VxEvents {}
impl VxEvents { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<StreamEvent>) { unimplemented!() } }
#[verifier::external_body]
pub struct VxUploads {}
impl VxUploads { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<DataUpload>) { unimplemented!() } }
#[verifier::external_body]
pub struct ComponentShutdown {}
impl ComponentShutdown { #[verifier::external_body] pub fn cancelled(&mut self) { unimplemented!() } }
#[verifier::external_body]
pub struct VxBackoff {}
impl VxBackoff {
  // It never gives up: there is no limit on the total.
  #[verifier::external_body]
  pub fn next_backoff(&mut self) -> (r: Option<Pause>) ensures r is Some { unimplemented!() }
  #[verifier::external_body]
  pub fn reset(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxMeta {}
#[verifier::external_body]
pub fn vx_headers() { unimplemented!() }
#[verifier::external_body]
pub fn vx_split_first(v: &Vec<ApiResponse>) -> (r: Option<(&ApiResponse, &[ApiResponse])>)
  ensures v@.len() > 0 ==> r is Some && *(r->0).0 == v@[0] && (r->0).1@ == v@.skip(1), v@.len() == 0 ==> r is None,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec(v: &[ApiResponse]) -> (r: Vec<ApiResponse>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_disable_reports() { unimplemented!() }
#[derive(Clone, Copy)]
pub enum NetworkQuality { Unknown, Online, Offline }
@type bd-api/src/lib.rs StreamEvent
@type bd-api/src/lib.rs ResponseKind
@type bd-api/src/lib.rs DataUpload
@type bd-api/src/api.rs UpstreamEvent
@type bd-api/src/api.rs HandshakeResult
@type bd-api/src/api.rs StreamState
@dropfield request_encoder time_provider
@extra pub handled: Ghost<int>,
@type bd-api/src/api.rs Api
@dropfield manager static_metadata runtime_loader max_backoff_interval initial_backoff_interval compression_enabled internal_logger network_quality_provider stats
@extra pub fs: VxFs, pub quality: NetworkQuality, pub checked: Ghost<bool>, pub refused: Ghost<bool>,
@text
impl StreamState {
  pub open spec fn got(&self) -> Seq<ApiResponse> { self.response_decoder.got@ }
  pub open spec fn sent(&self) -> Seq<Req> { self.stream_handle.sent@ }
  pub open spec fn calls(&self) -> Seq<Call> { self.upload_state_tracker.log@ }
  // Both sides have said hello.
  pub open spec fn shaken(&self) -> bool {
    &&& self.sent().len() > 0 && self.sent()[0] is Handshake
    &&& self.got().len() > 0 && self.got()[0].is_handshake()
  }
  // Only what is sent may have changed, and that only grew.
  pub open spec fn more(&self, o: Self) -> bool {
    &&& self.got() == o.got() && self.handled == o.handled && self.ping_interval == o.ping_interval
    &&& o.sent().is_prefix_of(self.sent())
  }
}
impl Api {
  pub open spec fn kill_path(&self) -> Seq<Seq<char>> { self.sdk_directory.id().push("client_kill_until"@) }
  pub open spec fn kill_file(&self) -> Option<Kill> { if self.fs@.dom().contains(self.kill_path()) { unpacked(self.fs@[self.kill_path()]) } else { None } }
  // A kill file for this client that still holds.
  pub open spec fn in_force(&self, k: Kill) -> bool { k.until > self.time_provider.at.ns && k.hash == hashed(self.api_key@) }
  pub open spec fn written(&self, d: VxSpan) -> Kill { Kill { hash: hashed(self.api_key@), until: self.time_provider.at.ns + d.ns } }
  // What stays as it is while the client runs: who it is, and that it is killed once it is.
  pub open spec fn goes_on(&self, o: Self) -> bool {
    &&& self.sdk_directory == o.sdk_directory && self.api_key == o.api_key && self.time_provider == o.time_provider
    &&& self.generic_kill_duration == o.generic_kill_duration && self.unauthenticated_kill_duration == o.unauthenticated_kill_duration
    &&& (o.client_killed ==> self.client_killed) && (o.refused@ ==> self.refused@) && (o.checked@ ==> self.checked@)
  }
  // Starting a stream: when the property at hand allows it.
  #[verifier::external_body]
  pub fn vx_start_stream(&mut self) -> (r: Result<VxStream, AnyErr>)
    requires may_start(*old(self)),
    ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.sent@.len() == 0,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_stream_state(s: VxStream) -> (r: StreamState)
    ensures r.stream_handle == s, r.got().len() == 0, r.calls().len() == 0, r.handled@ == 0, r.ping_deadline is None, r.ping_interval is None,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_metadata(&self) -> (r: VxMeta) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_backoff_policy(&mut self) -> (r: VxBackoff) ensures *final(self) == *old(self) { unimplemented!() }
  // (folds the pipelines' partial handshakes into one message; checked on the real code only)
  #[verifier::external_body]
  pub fn vx_handshake(&self, m: &VxMeta, reason: Option<String>) -> (r: HandshakeRequest)
    ensures r.details().reason == match reason { Some(s) => s@, None => Seq::<char>::empty() },
  { unimplemented!() }
}
@type_rule DurationWatch<__T> => VxWatch<VxSpan>
@type_rule Arc<dyn TimeProvider> => VxClock
@type_rule Vec<Box<dyn ConfigurationUpdate>> => Vec<Pipeline>
@type_rule Receiver<DataUpload> => VxUploads
@type_rule Sender<TriggerUpload> => VxTrigger
@type_rule tokio::sync::mpsc::Receiver<StreamEvent> => VxEvents
@type_rule Tracked<__A, __B> => Tracked
@type_rule bd_grpc_codec::Decoder<ApiResponse> => VxDecoder
@type_rule tokio::time::Duration => Pause
@type_rule tokio::time::Instant => Instant
@type_rule upload::StateTracker => StateTracker
@type_rule Box<dyn PlatformNetworkStream> => VxStream
@type_rule ExponentialBackoff<SystemClock> => VxBackoff
@type_rule Option<handshake_response::StreamSettings> => Option<StreamSettings>
@type_rule HashMap<String, ProtoData> => VxMeta
@type_rule HashMap<_, _> => VxMeta
@type_rule Duration => VxSpan
@macro log::debug => drop
@macro log::warn => drop
@macro log::trace => drop
@rule anyhow::Ok(__x) => Ok(__x)
@rule tokio::fs::try_exists(__p) => self.fs.try_exists(&__p)
@rule tokio::fs::read(__p) => self.fs.read(&__p)
@rule tokio::fs::write(__p, __d) => { let vx_path = __p; self.fs.write(&vx_path, __d) }
@rule tokio::fs::remove_file(__p) => { let vx_path = __p; self.fs.remove_file(&vx_path) }
@rule read_compressed_protobuf(__b) => vx_unpack(__b)
@rule write_compressed_protobuf(__b) => vx_pack(__b)
@rule ClientKillFile { api_key_hash: __a, kill_until: __b, ..Default::default() } => ClientKillFile { api_key_hash: __a, kill_until: __b }
@rule UnexpectedErrorHandler::disable() => vx_disable_reports()
@rule self.api_key.hash(__h) => vx_hash(&self.api_key, __h)
@rule __n.to_be_bytes().to_vec() => vx_bytes8(__n)
@rule tokio::time::sleep(__d) => vx_sleep(__d)
@rule Instant::now() => vx_now()
@rule __s.stats.stream_total.inc() => ()
@rule __s.stats.remote_connect_failure.inc() => ()
@rule __s.stats.error_shutdown_total.inc() => ()
@rule __x.await => __x
@known handshake_request backoff_policy 
