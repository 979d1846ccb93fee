// C30: the kill switch, over stand-ins for the network, the files and the clock.
@include api.inc
@known handle_responses send_request send_ping handle_data_upload handle_upstream_event initialize_stream_settings
@text
// A stream is started only after the kill file was looked at, never by a killed client, never again after a refusal.
pub open spec fn may_start(a: Api) -> bool { a.checked@ && !a.client_killed && !a.refused@ }
pub open spec fn may_complete(s: StreamState) -> bool { true }
// What happens on a stream (property C31), as far as it matters here: nothing about it revives a killed client.
impl StreamState {
  #[verifier::external_body]
  pub fn initialize_stream_settings(&mut self, s: Option<StreamSettings>) { unimplemented!() }
  #[verifier::external_body]
  pub fn send_request<R: IntoRequest>(&mut self, q: R) -> (r: Result<(), AnyErr>) ensures final(self).response_decoder == old(self).response_decoder { unimplemented!() }
  #[verifier::external_body]
  pub fn send_ping(&mut self) -> (r: Result<(), AnyErr>) { unimplemented!() }
  #[verifier::external_body]
  pub fn handle_data_upload(&mut self, u: DataUpload) -> (r: Result<(), AnyErr>) { unimplemented!() }
  #[verifier::external_body]
  pub fn handle_upstream_event(&mut self, event: Option<StreamEvent>) -> (r: Result<UpstreamEvent, AnyErr>)
    ensures
      r is Ok && r->Ok_0 is UpstreamMessages ==> final(self).got() == old(self).got() + r->Ok_0->UpstreamMessages_0@,
      !(r is Ok && r->Ok_0 is UpstreamMessages) ==> final(self).got() == old(self).got(),
  { unimplemented!() }
}
impl Api {
  #[verifier::external_body]
  pub fn handle_responses(&mut self, q: Vec<ApiResponse>, s: &mut StreamState) -> (r: Result<(), AnyErr>)
    ensures *final(self) == (Api { configuration_pipelines: final(self).configuration_pipelines, trigger_upload_tx: final(self).trigger_upload_tx, ..*old(self) }),
  { unimplemented!() }
}
@fn bd-api/src/api.rs Api::kill_file_path
@spec
  ensures r.id() == self.kill_path(),
@fn bd-api/src/api.rs Api::hash_api_key
@spec
  ensures r@ == hashed(self.api_key@),
@fn bd-api/src/api.rs Api::set_client_killed
@spec
  ensures *final(self) == (Api { client_killed: true, ..*old(self) }),
@fn bd-api/src/api.rs Api::read_kill_file
@spec
  ensures
    r is Ok && r->Ok_0 is Some ==> self.kill_file() == Some(r->Ok_0->0.says()),
    r is Ok && r->Ok_0 is None ==> self.kill_file() is None,
    r is Err ==> !self.fs.healthy() || self.kill_file() is None,
@fn bd-api/src/api.rs Api::write_kill_file
@frule __a + __d => vx_after(__a, __d)
@spec
  requires 0 <= duration.ns < 0x1_0000_0000_0000_0000_0000,
  ensures
    final(self).goes_on(*old(self)), final(self).client_killed,
    *final(self) == (Api { client_killed: true, fs: final(self).fs, ..*old(self) }),
    final(self).fs.healthy() == old(self).fs.healthy(),
    r is Ok ==> final(self).kill_file() == Some(old(self).written(duration)),
    old(self).fs.healthy() ==> r is Ok,
    forall|f: Seq<Seq<char>>| f != old(self).kill_path() ==> #[trigger] final(self).fs@.dom().contains(f) == old(self).fs@.dom().contains(f) && final(self).fs@[f] == old(self).fs@[f],
@fn bd-api/src/api.rs Api::maybe_kill_client
@frule __a > __b => vx_later(__a, __b)
@frule __a == __b => vx_same(&__a, &__b)
@spec
  requires
    forall|i: int| 0 <= i < old(self).configuration_pipelines@.len() ==> (#[trigger] old(self).configuration_pipelines@[i]).loaded@,
  ensures
    final(self).goes_on(*old(self)), final(self).checked@,
    final(self).quality == old(self).quality, final(self).refused == old(self).refused, final(self).configuration_pipelines == old(self).configuration_pipelines,
    old(self).fs.healthy() ==> match old(self).kill_file() {
      // killed, and stays so until then
      Some(k) if old(self).in_force(k) => final(self).client_killed && final(self).fs@ == old(self).fs@,
      // given another chance, with no trace of the kill
      Some(k) => final(self).client_killed == old(self).client_killed && final(self).kill_file() is None,
      // killed from now on
      None if old(self).generic_kill_duration.v.ns != 0 => final(self).client_killed && final(self).kill_file() == Some(old(self).written(old(self).generic_kill_duration.v)),
      None => final(self).client_killed == old(self).client_killed && final(self).fs@ == old(self).fs@,
    },
    // whatever the files do: killed only for a reason, and by the server's order even if it cannot be written down
    final(self).client_killed && !old(self).client_killed ==> (old(self).kill_file() is Some && old(self).in_force(old(self).kill_file()->0)) || old(self).generic_kill_duration.v.ns != 0,
    old(self).kill_file() is None && old(self).generic_kill_duration.v.ns != 0 ==> final(self).client_killed,
@entry
  proof { self.checked@ = true; }
@fn bd-api/src/payload_conversion.rs ApiResponse::demux
@impl impl ApiResponse
@spec
  ensures
    match self.response_type {
      Some(Response_type::ErrorShutdown(x)) => r == Some(ResponseKind::ErrorShutdown(&x)),
      _ => !(r is Some && r->0 is ErrorShutdown),
    },
@fn bd-api/src/api.rs Api::wait_for_handshake
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@frule responses.split_first() => vx_split_first(&responses)
@frule Vec::from(__r) => vx_to_vec(__r)
@frule h.stream_settings.clone().take() => h.stream_settings.clone()
@spec
  requires old(stream_state).got().len() == 0,
  ensures
    *final(self) == (Api { refused: final(self).refused, shutdown: final(self).shutdown, ..*old(self) }),
    // refused: exactly if that is what the server says first
    r is Ok && r->Ok_0 is Unauthenticated <==> final(stream_state).got().len() > 0 && final(stream_state).got()[0].is_refusal(),
    final(self).refused@ == (old(self).refused@ || (final(stream_state).got().len() > 0 && final(stream_state).got()[0].is_refusal())),
@before return Ok(HandshakeResult::Unauthenticated)
  proof { self.refused@ = true; }
@loop 0
  invariant
    *self == (Api { shutdown: self.shutdown, ..*old(self) }),
    stream_state.got().len() == 0,
@fn bd-api/src/api.rs Api::do_reconnect_backoff
@spec
  ensures *final(self) == (Api { shutdown: final(self).shutdown, ..*old(self) }),
@fn bd-api/src/api.rs Api::maintain_active_stream
@attr #[verifier::exec_allows_no_decreases_clause]
@frule __s.static_metadata.collect() => __s.vx_metadata()
@frule metadata.get("app_id").cloned().unwrap_or_default() => ()
@frule metadata.iter().map(|(k, v)| __b).collect() => metadata
@frule __s.backoff_policy() => __s.vx_backoff_policy()
@frule *__d.get_or_insert_with(Instant::now) + DISCONNECTED_OFFLINE_GRACE_PERIOD < vx_now() => vx_overdue(&mut __d)
@frule *__x.network_quality.write() => vx_self.quality
@frule __x.has_changed() => vx_flag()
@frule __s.internal_logger.log_internal(__m) => ()
@frule &mut HashMap::from(__a) => ()
@frule headers.insert(__k, __v) => ()
@frule __s.compression_enabled.read() => vx_flag()
@frule __c.then_some(__x) => if __c { Some(()) } else { None }
@frule tokio::sync::mpsc::channel(16) => ((), ())
@frule __s.manager.start_stream(__a, __b, __c) => __s.vx_start_stream()
@frule StreamState::new(__a, __s, __c, __d, __e) => Api::vx_stream_state(__s)
@frule __s.handshake_request(__a, __b) => __s.vx_handshake(__a, __b)
@frule pipeline.on_handshake_complete() => pipeline.vx_complete(&stream_state)
@frule __x.map(tokio::time::sleep_until) => __x
@frule ping_timer.unwrap() => vx_sleep_until(ping_timer)
@frule vx_now() - handshake_established > Duration::minutes(1) => vx_since_over(handshake_established)
@spec
  requires self.checked@, !self.refused@,
@loop 0
  invariant
    vx_self.checked@, vx_self.refused@ ==> vx_self.client_killed,
@loop 1
  invariant
    vx_self.checked@, vx_self.refused@ ==> vx_self.client_killed,
  decreases vx_it0.rest().len(),
@loop 2
  invariant
    vx_self.checked@, vx_self.refused@ ==> vx_self.client_killed,
@fn bd-api/src/api.rs Api::start
@frule pipeline.try_load_persisted_config() => pipeline.vx_load()
@spec
  requires !self.refused@,
@loop 0
  invariant
    !vx_self.refused@,
    vx_it0 <= vx_self.configuration_pipelines@.len(),
    forall|i: int| 0 <= i < vx_it0 ==> (#[trigger] vx_self.configuration_pipelines@[i]).loaded@,
  decreases vx_self.configuration_pipelines@.len() - vx_it0,
