// C31: the conversation on a stream, over stand-ins for the network, the upload tracker and the configuration pipelines.
@include api.inc
@known write_kill_file
@text
// A new stream means that there is no connection.
pub open spec fn may_start(a: Api) -> bool { !(a.quality is Online) }
// The server is there once both sides have said hello and everything that came with the server's hello was dealt with.
pub open spec fn may_complete(s: StreamState) -> bool { s.shaken() && s.handled@ + 1 == s.got().len() }
impl Api {
  // (property C30)
  #[verifier::external_body]
  pub fn write_kill_file(&mut self, d: VxSpan) -> (r: Result<(), AnyErr>) ensures *final(self) == (Api { client_killed: true, fs: final(self).fs, ..*old(self) }) { unimplemented!() }
}
@fn bd-api/src/api.rs StreamState::initialize_stream_settings
@frule TryInto::try_into(__d).ok() => vx_pause(__d)
@spec
  ensures
    *final(self) == (StreamState { ping_interval: final(self).ping_interval, ping_deadline: final(self).ping_deadline, ..*old(self) }),
    final(self).ping_deadline is Some <==> final(self).ping_interval is Some,
@fn bd-api/src/api.rs StreamState::maybe_schedule_ping
@frule __x.map(|ping_in| { __b }) => match __x { Some(ping_in) => Some({ __b }), None => None }
@frule vx_now() + __d => vx_deadline(vx_now(), __d)
@spec
  ensures
    *final(self) == (StreamState { ping_deadline: final(self).ping_deadline, ..*old(self) }),
    old(self).ping_interval is None ==> final(self).ping_deadline is None,
    old(self).ping_interval is Some ==> exists|t: Instant| final(self).ping_deadline == Some(#[trigger] later(t, old(self).ping_interval->0)),
@fn bd-api/src/api.rs StreamState::send_request
@frule self.request_encoder.encode(__r) => vx_encode(__r)
@frule self.stream_handle.send_data(__d) => self.stream_handle.vx_send(__d)
@spec
  requires request.req() is Handshake ==> old(self).sent().len() == 0 && old(self).got().len() == 0, !(request.req() is Handshake) ==> old(self).shaken(),
  ensures
    *final(self) == (StreamState { stream_handle: final(self).stream_handle, ..*old(self) }),
    r is Ok ==> final(self).sent() == old(self).sent().push(request.req()),
    final(self).sent() == old(self).sent() || final(self).sent() == old(self).sent().push(request.req()),
@fn bd-api/src/api.rs StreamState::send_ping
@spec
  requires old(self).shaken(), old(self).ping_deadline is None,
  ensures
    *final(self) == (StreamState { stream_handle: final(self).stream_handle, ..*old(self) }),
    final(self).shaken(), final(self).more(*old(self)),
    r is Ok ==> final(self).sent() == old(self).sent().push(Req::Ping),
@fn bd-api/src/api.rs StreamState::handle_upstream_event
@spec
  ensures
    *final(self) == (StreamState { response_decoder: final(self).response_decoder, ..*old(self) }),
    r is Ok && r->Ok_0 is UpstreamMessages ==> final(self).got() == old(self).got() + r->Ok_0->UpstreamMessages_0@,
    !(r is Ok && r->Ok_0 is UpstreamMessages) ==> final(self).got() == old(self).got(),
    event is None <==> r is Ok && r->Ok_0 is Shutdown,
    event is Some && event->0 is StreamClosed <==> r is Ok && r->Ok_0 is StreamClosed,
@text
pub open spec fn part(u: DataUpload) -> Tracked {
  match u {
    DataUpload::LogsUploadIntentRequest(t) => t, DataUpload::LogsUploadRequest(t) => t, DataUpload::StatsUploadRequest(t) => t,
    DataUpload::SankeyPathUploadIntentRequest(t) => t, DataUpload::SankeyPathUpload(t) => t, DataUpload::OpaqueRequest(t) => t,
  }
}
@fn bd-api/src/api.rs StreamState::handle_data_upload
@frule request.payload.sent_at = __x => request.payload.vx_sent_now()
@spec
  requires old(self).shaken(),
  ensures
    final(self).shaken(), final(self).more(*old(self)), final(self).ping_deadline == old(self).ping_deadline,
    // whoever answers, the tracker knows of it already
    final(self).calls() == old(self).calls().push(if data_upload is LogsUploadIntentRequest || data_upload is SankeyPathUploadIntentRequest { Call::Intent(part(data_upload).uuid@) } else { Call::Track(part(data_upload).uuid@) }),
    r is Ok ==> final(self).sent() == old(self).sent().push(Req::Upload(part(data_upload).payload.id())),
@fn bd-api/src/payload_conversion.rs ApiResponse::demux
@impl impl ApiResponse
@spec
  ensures
    r is Some <==> self.response_type is Some,
    match self.response_type {
      Some(Response_type::Handshake(x)) => r == Some(ResponseKind::Handshake(&x)),
      Some(Response_type::ErrorShutdown(x)) => r == Some(ResponseKind::ErrorShutdown(&x)),
      Some(Response_type::Pong(x)) => r == Some(ResponseKind::Pong(&x)),
      Some(Response_type::LogUpload(x)) => r == Some(ResponseKind::LogUpload(&x)),
      Some(Response_type::LogUploadIntent(x)) => r == Some(ResponseKind::LogUploadIntent(&x)),
      Some(Response_type::StatsUpload(x)) => r == Some(ResponseKind::StatsUpload(&x)),
      Some(Response_type::FlushBuffers(x)) => r == Some(ResponseKind::FlushBuffers(&x)),
      Some(Response_type::SankeyDiagramUpload(x)) => r == Some(ResponseKind::SankeyPathUpload(&x)),
      Some(Response_type::SankeyIntentResponse(x)) => r == Some(ResponseKind::SankeyPathUploadIntent(&x)),
      Some(Response_type::OpaqueUpload(x)) => r == Some(ResponseKind::Opaque(&x)),
      Some(Response_type::Other(_)) => r == Some(ResponseKind::Untyped),
      None => true,
    },
@fn bd-api/src/api.rs Api::wait_for_handshake
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@frule responses.split_first() => vx_split_first(&responses)
@frule Vec::from(__r) => vx_to_vec(__r)
@frule h.stream_settings.clone().take() => h.stream_settings.clone()
@spec
  requires old(stream_state).got().len() == 0, old(stream_state).sent().len() > 0, old(stream_state).sent()[0] is Handshake,
  ensures
    *final(self) == (Api { shutdown: final(self).shutdown, ..*old(self) }),
    *final(stream_state) == (StreamState { response_decoder: final(stream_state).response_decoder, stream_event_rx: final(stream_state).stream_event_rx, ..*old(stream_state) }),
    // a handshake is what the server says first, and what else it says right away is handed back
    r is Ok && r->Ok_0 is Received ==> final(stream_state).shaken() && r->Ok_0->Received_1@ == final(stream_state).got().skip(1),
    // refused: exactly if that is what the server says first
    r is Ok && r->Ok_0 is Unauthenticated <==> final(stream_state).got().len() > 0 && final(stream_state).got()[0].is_refusal(),
@loop 0
  invariant
    *self == (Api { shutdown: self.shutdown, ..*old(self) }),
    *stream_state == (StreamState { response_decoder: stream_state.response_decoder, stream_event_rx: stream_state.stream_event_rx, ..*old(stream_state) }),
    stream_state.got().len() == 0,
@fn bd-api/src/api.rs Api::do_reconnect_backoff
@spec
  ensures *final(self) == (Api { shutdown: final(self).shutdown, ..*old(self) }),
@text
pub proof fn lemma_step(s: Seq<ApiResponse>, n: int)
  requires 0 <= n < s.len(),
  ensures
    all_calls(s.take(n + 1)) == all_calls(s.take(n)) + s[n].calls(),
    untyped(s.take(n + 1)) == (if s[n].is_untyped() { untyped(s.take(n)).push(s[n]) } else { untyped(s.take(n)) }),
    flushes(s.take(n + 1)) == (if s[n].is_flush() { flushes(s.take(n)).push(s[n].response_type->0->FlushBuffers_0.buffer_id_list@) } else { flushes(s.take(n)) }),
{
  assert(s.take(n + 1).drop_last() =~= s.take(n));
}
// Every pipeline was offered exactly these, in this order, after what it was offered before.
pub open spec fn offered(a: Seq<Pipeline>, b: Seq<Pipeline>, s: Seq<ApiResponse>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).loaded == b[i].loaded && a[i].offered@ == b[i].offered@ + s
}
@fn bd-api/src/api.rs Api::handle_responses
@frule opaque.error.clone().unwrap_or_default() => vx_or_empty(opaque.error.vx_clone())
@frule self.trigger_upload_tx.send(TriggerUpload::new(__b, __t)) => self.trigger_upload_tx.vx_send(__b)
@frule tokio::sync::oneshot::channel() => (0u8, 0u8)
@frule pipeline.try_apply_config(__r) => pipeline.vx_apply(__r)
@frule __x.into() => __x.vx_yes()
@spec
  requires old(stream_state).shaken(),
  ensures
    *final(self) == (Api { configuration_pipelines: final(self).configuration_pipelines, trigger_upload_tx: final(self).trigger_upload_tx, ..*old(self) }),
    final(stream_state).shaken(), final(stream_state).got() == old(stream_state).got(), final(stream_state).ping_interval == old(stream_state).ping_interval,
    old(stream_state).sent().is_prefix_of(final(stream_state).sent()),
    r is Ok ==> {
      &&& forall|i: int| 0 <= i < responses@.len() ==> !(#[trigger] responses@[i]).is_handshake()
      &&& final(stream_state).calls() == old(stream_state).calls() + all_calls(responses@)
      &&& final(self).trigger_upload_tx.sent@ == old(self).trigger_upload_tx.sent@ + flushes(responses@)
      &&& offered(final(self).configuration_pipelines@, old(self).configuration_pipelines@, untyped(responses@))
      &&& final(stream_state).handled@ == old(stream_state).handled@ + responses@.len()
    },
@loop 0
  invariant
    old(stream_state).shaken(),
    *self == (Api { configuration_pipelines: self.configuration_pipelines, trigger_upload_tx: self.trigger_upload_tx, ..*old(self) }),
    stream_state.shaken(), stream_state.got() == old(stream_state).got(), stream_state.ping_interval == old(stream_state).ping_interval, stream_state.handled == old(stream_state).handled,
    old(stream_state).sent().is_prefix_of(stream_state.sent()),
    vx_it0.rest().len() <= responses@.len(),
    vx_it0.rest() == responses@.skip(responses@.len() - vx_it0.rest().len()),
    forall|i: int| 0 <= i < responses@.len() - vx_it0.rest().len() ==> !(#[trigger] responses@[i]).is_handshake(),
    stream_state.calls() == old(stream_state).calls() + all_calls(responses@.take(responses@.len() - vx_it0.rest().len())),
    self.trigger_upload_tx.sent@ == old(self).trigger_upload_tx.sent@ + flushes(responses@.take(responses@.len() - vx_it0.rest().len())),
    offered(self.configuration_pipelines@, old(self).configuration_pipelines@, untyped(responses@.take(responses@.len() - vx_it0.rest().len()))),
  ensures vx_it0.rest().len() == 0,
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof { if vx_it0.rest().len() > 0 { lemma_step(responses@, responses@.len() - vx_it0.rest().len()); } }
  let ghost vx_p0 = self.configuration_pipelines@;
@loop 1
  invariant
    old(stream_state).shaken(),
    *self == (Api { configuration_pipelines: self.configuration_pipelines, trigger_upload_tx: self.trigger_upload_tx, ..*old(self) }),
    self.trigger_upload_tx.sent@ == old(self).trigger_upload_tx.sent@ + flushes(responses@.take(responses@.len() - vx_it0.rest().len())),
    stream_state.shaken(), stream_state.got() == old(stream_state).got(), stream_state.ping_interval == old(stream_state).ping_interval, stream_state.handled == old(stream_state).handled,
    stream_state.calls() == old(stream_state).calls() + all_calls(responses@.take(responses@.len() - vx_it0.rest().len())),
    old(stream_state).sent().is_prefix_of(stream_state.sent()),
    vx_it1 <= self.configuration_pipelines@.len(), self.configuration_pipelines@.len() == vx_p0.len(),
    forall|i: int| 0 <= i < vx_it1 ==> (#[trigger] self.configuration_pipelines@[i]).loaded == vx_p0[i].loaded && self.configuration_pipelines@[i].offered@ == vx_p0[i].offered@.push(response),
    forall|i: int| vx_it1 <= i < vx_p0.len() ==> #[trigger] self.configuration_pipelines@[i] == vx_p0[i],
  decreases self.configuration_pipelines@.len() - vx_it1,
@before Ok(())
  proof { stream_state.handled@ = stream_state.handled@ + responses@.len(); assert(responses@.take(responses@.len() as int) =~= responses@); }
@fn bd-api/src/api.rs Api::maintain_active_stream
@attr #[verifier::exec_allows_no_decreases_clause]
@frule __s.static_metadata.collect() => __s.vx_metadata()
@frule metadata.get("app_id").cloned().unwrap_or_default() => ()
@frule metadata.iter().map(|(k, v)| __b).collect() => metadata
@frule __s.backoff_policy() => __s.vx_backoff_policy()
@frule *__d.get_or_insert_with(Instant::now) + DISCONNECTED_OFFLINE_GRACE_PERIOD < vx_now() => vx_overdue(&mut __d)
@frule *__x.network_quality.write() => vx_self.quality
@frule __x.has_changed() => vx_flag()
@frule __s.internal_logger.log_internal(__m) => ()
@frule &mut HashMap::from(__a) => ()
@frule headers.insert(__k, __v) => ()
@frule __s.compression_enabled.read() => vx_flag()
@frule __c.then_some(__x) => if __c { Some(()) } else { None }
@frule tokio::sync::mpsc::channel(16) => ((), ())
@frule __s.manager.start_stream(__a, __b, __c) => __s.vx_start_stream()
@frule StreamState::new(__a, __s, __c, __d, __e) => Api::vx_stream_state(__s)
@frule __s.handshake_request(__a, __b) => __s.vx_handshake(__a, __b)
@frule pipeline.on_handshake_complete() => pipeline.vx_complete(&stream_state)
@frule __x.map(tokio::time::sleep_until) => __x
@frule ping_timer.unwrap() => vx_sleep_until(ping_timer)
@frule vx_now() - handshake_established > Duration::minutes(1) => vx_since_over(handshake_established)
@spec
@loop 0
  invariant true,
@loop 1
  invariant
    stream_state.shaken(), stream_state.handled@ + 1 == stream_state.got().len(),
  decreases vx_it0.rest().len(),
@loop 2
  invariant
    vx_self.quality is Online,
    stream_state.shaken(), stream_state.handled@ + 1 == stream_state.got().len(),
