#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as source so that the file stays uniform)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CRB="bd-buffer/src/buffer/common_ring_buffer.rs"
VRB="bd-buffer/src/buffer/volatile_ring_buffer.rs"
NRB="bd-buffer/src/buffer/non_volatile_ring_buffer.rs"
p("C01","Ring buffer regions are in bounds and never overlap",
 "Every region the ring buffer hands to a producer lies inside the buffer's memory, is exactly as long as requested, and shares no byte (record prefix included) with any region still reserved by another producer or still being read by the consumer. A reservation that cannot be placed that way is refused and changes nothing that was committed.",
 ["histories","inputs","configurations"],"every sequence of reserve/commit/read/finish calls by any number of producers and one consumer, every record size, every buffer size and per-record overhead",
 "The ring-buffer tests walk hand-picked layouts; overlap depends on the exact arithmetic of wrap gaps, out-of-order commits and pending reads, over an unbounded space of sizes and histories (and the crate is not even built by the available test run).",
 [CRB,VRB],[("placement of the next write, with wrap gap","LockedData::calculate_next_write_start"),("overlap tests against the pending read, the oldest uncommitted write and unread records","intersect, intersect_in_wrap_gap, intersect_reservation; ProducerImpl::reserve"),("slices handed out","LockedData::finish_reservation, LockedData::start_read")],
 [("next_write_start / committed_write_start / next_read_start / last_write_end_before_wrap","the circular layout of committed, reserved and free bytes",CRB)],["RingBufferProducer::reserve","RingBufferConsumer::start_read"])
p("C02","Ring buffer delivers committed records intact, in order, losing only oldest",
 "The consumer receives committed records byte for byte, each at most once, in the order in which they were reserved; when a write needs space the records dropped are always the oldest unread ones, and no more of them than the new record (with the gap left by wrapping) overlaps. Without overwriting nothing is lost, and a failed or refused operation leaves the unread records as they were.",
 ["histories","inputs","configurations"],"every interleaving of lock-protected producer and consumer operations, every record size and content, both overwrite policies",
 "Tests check a few fixed wrap-around scenarios; loss or reordering appears only for particular combinations of sizes, wraps and out-of-order commits.",
 [CRB,VRB],[("read advance and wrap","LockedData::advance_next_read"),("commit order","ProducerImpl::commit, LockedData::advance_next_commited_write_start"),("overwrite of the oldest","LockedData::advance_next_read_due_to_write"),("record length load and corruption check","LockedData::load_next_read_size")],
 None,["RingBufferConsumer::start_read/finish_read"])
p("C03","Persistent ring buffer survives reopen and never returns corrupted records",
 "For a persistent ring buffer with per-record checksums (as every buffer the SDK creates has): reopening a file left by any sequence of completed operations yields exactly the committed, unread records in order, except that a reservation never committed and the record whose plain read was under way may be dropped. If bytes of the file were damaged, opening or reading reports data loss or drops the affected records; no record that was never committed, or whose read was already finished, is returned as valid, no access leaves the file's memory, and no call fails to return or brings the process down.",
 ["crash_points","histories","fault_sequences"],"every history of writes and reads before the file is closed, every single corrupted region of header or records",
 "Tests corrupt a few chosen bytes; the guarantee is about every byte and every layout.",
 [NRB,CRB],[("header checksum and version/size checks on open","RingBufferImpl::new, FileHeader"),("per-record checksum","ProducerImpl::commit, ConsumerImpl::start_read"),("total data loss reset","LockedData::on_total_data_loss, total_data_loss_reset")])
p("C04","gRPC message framing is independent of how bytes are split",
 "Feeding the decoder a stream of well-formed frames in any split into chunks produces the same messages in the same order, each exactly the declared number of payload bytes, and leaves only an incomplete frame's bytes buffered. A malformed frame is an error of its own stream only. Decoding what the encoder produced yields the original messages; an uncompressed frame is one zero byte, the big-endian payload length and the payload.",
 ["inputs","histories"],"every byte stream, every partition of it into reads, every message size",
 "Tests feed one or two fixed splits; the guarantee is over all partitions, including splits inside the 5-byte prefix.",
 ["bd-grpc-codec/src/lib.rs"],[("frame state machine","Decoder::decode_data"),("frame layout","Encoder::encode")])
p("C05","Application version comparison is a consistent ordering",
 "Comparing two versions treats a missing trailing component as zero, orders numeric components as numbers and the whole as a lexicographic order: swapping the operands reverses the result, equality is symmetric, and for versions whose components are all numbers below 2^32 the order is total and transitive. Each comparison operator of a version condition agrees with that one ordering, so exactly one of less-than, equal and greater-than holds.",
 ["inputs"],"all pairs and triples of version strings",
 "Tests list a few dozen example pairs; the ordering laws quantify over all strings.",
 ["bd-log-matcher/src/version.rs"],[("component-wise comparison with zero padding","Version::cmp"),("operator table","VersionMatch evaluation")])
p("C06","Log conditions evaluate as boolean logic and select exactly the matching buffers",
 "A composite log condition matches a log exactly when its boolean reading (all of, any of, not) over the leaf conditions does, and a leaf on a missing or binary field does not match. A log is routed to exactly the buffers that have at least one matching filter, irrespective of the order of the buffers and filters in the configuration.",
 ["inputs","configurations"],"every condition tree, every log, every list of buffer filters",
 "Tests cover single examples of each operator; nesting and combinations are unbounded.",
 ["bd-log-matcher/src/matcher.rs","bd-matcher/src/matcher.rs","bd-matcher/src/buffer_selector.rs"],[("tree evaluation","Tree::do_match"),("leaf evaluation","Leaf::do_match"),("buffer selection","BufferSelector::buffers")])
p("C07","Log filters change only what their transforms name",
 "Applying a filter chain to a log changes it exactly as the transforms of the matching filters say, in configuration order: capturing moves a field (value unchanged) from the matching-only set to the captured set, setting a field honours the allow-override choice, removing deletes that name, and substituting rewrites only the named field. Logs matched by no filter, and all other fields, values and their order, are left untouched.",
 ["inputs","configurations"],"every log, every list of filters and transforms",
 "Tests apply one transform at a time to small logs.",
 ["bd-log-filter/src/lib.rs"],[("transform application","CaptureField/SetField/RemoveField/RegexMatchAndSubstituteField apply"),("filter chain","FilterChain::process")])
p("C08","Upload rate limit bounds admitted bytes per refill period",
 "Within one refill period the requests admitted, not counting the one that exhausts the quota, add up to less than the configured quota (to nothing, if the quota is zero), and after the exhausting request none is admitted before the period ends. Every period admits at least one request however large, so no request is refused forever.",
 ["histories","inputs","configurations"],"every sequence of request sizes, arrival times and live changes of quota and period, across all clones sharing the limiter",
 "Tests use three or four fixed request sizes and one period.",
 ["bd-logger/src/ratelimit.rs"],[("permit accounting","try_acquire_ratelimit_permit"),("initial state","RateLimitLayer::new")])
p("C09","Log queues never exceed their count and byte limits",
 "A pre-configuration log queue never holds more items or bytes than configured, accepts an item exactly when it fits both limits, leaves its content unchanged on rejection and replays accepted items in arrival order. The byte-limited channel accepts a message only if the accounted bytes stay within its capacity, and every refused or received message gives back exactly the bytes it took.",
 ["inputs","histories","configurations"],"every sequence of pushes, sends and receives, every item size and limit",
 "Tests use tiny limits and a handful of operations; leaks of accounted bytes show only after long histories.",
 ["bd-logger/src/pre_config_buffer.rs","bd-logger/src/memory_bound.rs"],[("count and size admission","PreConfigBuffer::push"),("reservation and its reversal","Sender::try_send, try_reserve_memory, void_memory_reservation, Receiver::recv")])
p("C10","Log metadata fields follow one fixed precedence with unique keys",
 "A log's combined fields contain each key once, with the value from the highest-precedence source holding it: SDK-provided provider fields, then SDK-provided log fields, then the log's custom fields, then global custom fields, then the provider's custom fields; earlier entries win inside a source. Custom fields with a reserved name or a leading underscore never appear, and for replay, resource and internal logs the provider's fields are used only for matching.",
 ["inputs","histories"],"every combination of provider, log, matching and global fields, every log type, every sequence of global field additions and removals",
 "Tests check one conflict per pair of sources, with one or two keys.",
 ["bd-logger/src/metadata.rs"],[("merge","MetadataCollector::normalized_metadata_with_extra_fields"),("name policy","partition_fields, verify_custom_field_name"),("global fields","MetadataCollector::add_field, remove_field")])
p("C11","Fixed sessions: ID is stable until a new session is started",
 "Once a session ID has been returned, every later request returns the same ID until a new session is explicitly started, and the persisted ID always equals the current one. The previous-process ID is the ID persisted when this process first used the store and does not change afterwards, whatever sessions are started; starting a session from inside the ID callback fails and changes nothing.",
 ["histories","inputs"],"every sequence of get / start / previous calls, every initial store content, callbacks that succeed, fail or re-enter",
 "Tests exercise three short call sequences.",
 ["bd-session/src/fixed.rs"],[("lazy initialisation","Strategy::session_id"),("rotation","Strategy::start_new_session"),("previous ID","Strategy::previous_process_session_id")])
p("C12","Activity sessions expire exactly on inactivity",
 "Asking for the session ID returns a new ID exactly when the clock went backwards since the last activity or more time than the inactivity threshold passed; otherwise it returns the same ID and extends it. Activity is persisted at most once per write interval unless the session changed, a changed session is persisted at once, and the previous-process ID stays what the store held at start.",
 ["histories","inputs"],"every sequence of calls and clock readings (including clocks that go backwards), every threshold and initial store content",
 "The module is not built by the available test run; its tests step through a few fixed times.",
 ["bd-session/src/activity_based.rs"],[("expiry and throttled persistence","Strategy::session_id"),("rotation","Strategy::start_new_session, flush")])
p("C13","The device ID is assigned once and never changes",
 "Every request for the device ID returns the same value; if the store already holds one, that value is returned and not rewritten, otherwise one is generated, persisted once and returned by every later process using that store.",
 ["histories","inputs"],"every sequence of requests and process restarts, every initial store content",
 "The test restarts once.",
 ["bd-device/src/lib.rs"],[("lazy load or create","Device::id")])
p("C14","Key-value store returns the last stored value or nothing",
 "A value read for a key is exactly the last value successfully stored under that key, for every storable value; keys do not affect each other. Data that cannot be decoded, or that cannot be read, is reported as absent and removed, and storage failures never surface as a wrong value or a panic.",
 ["inputs","histories","fault_sequences"],"every sequence of sets and gets over all keys and values, every failure of the underlying storage, every malformed stored string",
 "Tests store one value and one malformed string.",
 ["bd-key-value/src/lib.rs"],[("encode and write","Store::set, set_internal"),("read, decode, delete on failure","Store::get, get_internal")])
p("C15","An app version change is reported exactly once",
 "The first version ever seen is recorded and reported as unchanged. Afterwards recording a version returns the previously recorded one exactly when it differs (version or extra), and immediately becomes the recorded one; asking whether the version changed has no effect on what is recorded once a version is known.",
 ["histories","inputs"],"every sequence of queries and updates over all versions, every initial store content",
 "One test walks a single upgrade.",
 ["bd-logger/src/app_version.rs"],[("change detection","Repository::has_changed, Repository::set")])
p("C16","Feature flags return typed values or the caller's default",
 "Reading a flag returns its value only when it exists with the requested type, and the caller's default otherwise. A percentage feature is never enabled at 0, always at 10000 or more, and in between exactly when the drawn number modulo 10000 is below the value; a flag file that is missing or malformed yields only defaults, and a later valid file takes effect in full.",
 ["inputs","histories"],"every flag map, name, type, default and random draw; every sequence of file contents",
 "Tests check one threshold value and one map.",
 ["bd-runtime-config/src/feature_flags.rs","bd-runtime-config/src/loader.rs"],[("percentage decision","MemoryFeatureFlags::feature_enabled"),("typed reads","get_bool, get_integer, get_string"),("reload","WatchedFileLoader::load_config")])
p("C17","Rate-limited warnings fire at most once per interval",
 "A rate-limited warning site fires on its first use, and afterwards exactly when more than the given interval has passed since it last fired; a suppressed use does not postpone the next one.",
 ["histories","inputs"],"every sequence of uses, times and intervals",
 "The crate's one test cannot be built here and uses two time steps.",
 ["bd-log/src/rate_limit_log.rs"],[("decision and bookkeeping","WarnTracker::should_warn")])
p("C18","CPU count honours the operator's NUM_CPUS hint",
 "With NUM_CPUS set to a normal number the CPU count is that number rounded toward zero and raised to at least one; with it unset, not a number, or a number that is not normal (zero, subnormal, infinite, NaN) the hint is ignored and the host's parallelism, clamped to 1..4096, is used.",
 ["inputs","configurations"],"every value of the environment variable, every host parallelism including failure to determine it",
 "No test covers it.",
 ["bd-rt/src/lib.rs"],[("hint parsing and fallback","num_cpus")])
p("C19","Workflow runs advance exactly on their declared match counts",
 "A workflow leaves a state exactly when a transition out of it has matched its required number of logs, firing that transition's actions once, and a run ends when it reaches a final state or exceeds its matched-log limit. The number of concurrent runs and traversals never exceeds the limits the execution mode and configuration allow.",
 ["histories","configurations","inputs"],"every workflow graph, every log sequence, both execution modes, all limits",
 "Tests cover small graphs with counts of one or two; the crate is not built by the available test run.",
 ["bd-workflows/src/workflow.rs"],[("run and traversal processing","Workflow::process_log, Run::process_log, Traversal::process_log"),("limits","Run::process_log matched-log limit; Workflow run creation")])
p("C20","Flow diagrams keep bounded paths and remember uploads most-recent-first",
 "A recorded flow path keeps at most the configured number of values, dropping only the oldest and marking that it was trimmed. The memory of already handled diagrams holds at most one hundred distinct entries, always the most recently used ones.",
 ["histories","inputs"],"every sequence of pushed values and limits, every sequence of insertions and lookups",
 "Tests push a handful of values.",
 ["bd-workflows/src/workflow.rs","bd-workflows/src/sankey_diagram.rs"],[("trimming","SankeyState::push"),("recency set","ProcessedIntents::insert / contains")])
p("C21","Client metrics lose and invent nothing between snapshots",
 "Adding up what all snapshots took from a counter and what it still holds gives exactly the sum of all increments, and a snapshot resets it to zero. The number of distinct metrics kept never exceeds the configured limit, a name keeps its first type, and a histogram's small-sample list is exact up to its limit. Dropping metrics nobody uses, flushing to disk, restarting over the same directory and uploading preserve these sums: every upload's content is fixed under its identifier, and as long as fewer files are pending than configured, the acknowledged uploads together carry everything recorded.",
 ["histories","inputs","schedules"],"every sequence of increments, observations, registrations, snapshots, merges, flushes, restarts and upload outcomes",
 "The crate is not built by the available test run; its tests take one or two snapshots.",
 ["bd-client-stats-store/src/lib.rs","bd-client-stats/src/stats.rs","bd-client-stats/src/file_manager.rs"],[("flush and merge","Flusher::snap_collector_to_snapshot, merge_delta_snapshot_to_disk"),("snapshot of a counter","Counter::snap"),("bounded registration","BoundedCollector"),("histogram storage","Histogram::observe, snap")])
p("C22","Every tracked upload is resolved exactly once",
 "Each upload (or upload intent) handed to the tracker is resolved by the first response carrying its identifier, with that response's outcome, or as failed when the stream is torn down or its identifier is tracked anew, and never twice. A response for an unknown or already resolved identifier is an error and changes nothing.",
 ["histories","inputs"],"every sequence of tracked uploads, responses and teardown",
 "The crate is not built by the available test run.",
 ["bd-api/src/upload.rs"],[("pending tables","StateTracker::track_upload, resolve_pending_upload, track_intent, resolve_intent"),("responses","Api::handle_responses, StreamState::handle_data_upload in bd-api/src/api.rs")])
p("C23","Time conversions round and clamp in one direction only",
 "Rounding a timestamp down or up to a positive interval of whole seconds yields the nearest multiple of that interval since the Unix epoch on that side, less than one interval away, and leaves exact multiples alone. The millisecond form is the timestamp rounded down. Converting a timestamp or duration to its wire form and back gives exactly the same value, for every representable one; a wire duration with a negative part is refused by the checked conversion, and only the conversion documented to take the absolute value turns it positive.",
 ["inputs"],"every timestamp, duration and interval",
 "Tests check two or three instants.",
 ["bd-time/src/lib.rs"],[("rounding","OffsetDateTimeExt floor/ceil"),("conversions","TimestampExt, TimeDurationExt, ToProtoDuration")])
p("C24","Identity metadata sent to the server cannot be overridden by the host app",
 "The metadata collected for the server always carries the SDK's own configuration version, operating system, platform kind and SDK version, whatever entries the embedding application supplies, and every other supplied entry is passed through unchanged.",
 ["inputs"],"every map of host-supplied metadata, every platform",
 "No test exercises colliding entries.",
 ["bd-metadata/src/lib.rs"],[("overlay of SDK entries","Metadata::collect")])
p("C25","Server metric labels stay within the cardinality limit",
 "The number of distinct label values admitted never exceeds the configured limit; a label value admitted once is admitted forever, and a metric whose labels would exceed the limit is reported under the overflow label for every one of its labels and counted as an overflow. Metrics with the same scope, name and labels share one value, and a live-object gauge equals the number of live objects.",
 ["histories","inputs"],"every sequence of label sets and limits, every interleaving of creation and destruction of counted objects",
 "The crate's tests check one overflow.",
 ["bd-server-stats/src/stats.rs"],[("label admission","LabelTracker::track_labels"),("metric identity","Scope::counter_with_labels, gauge, histogram"),("counted objects","AutoGauge, StackAutoGauge")])
p("C26","Shutdown waits for every component, and is seen by every component",
 "Once shutdown is triggered every shutdown handle, whether created before or after, reports it and its wait returns, and the shutdown call returns only when all handles are gone. A completion signal is delivered at most once, and the receiver gets the sent value or an error if the sender vanished, never hangs.",
 ["schedules","histories"],"every schedule of components creating, cloning, waiting on and dropping handles",
 "Depends on the interleaving of tasks; there are no tests.",
 ["bd-shutdown/src/lib.rs","bd-completion/src/lib.rs"],[("status watch","ComponentShutdownTrigger, ComponentShutdown"),("one-shot signal","Sender::send, Receiver::recv")])
p("C27","Concurrent producers and consumer never deadlock or race on the ring buffer",
 "Under every interleaving of threads, ring-buffer operations behave as if executed one at a time, and memory handed to one thread is not written by another until it is given back. A blocked reader returns once a record is available or the buffer shuts down; a blocked writer returns once the read or the unread records it waits for are gone, for whatever reason (finished, consumer dropped, data loss), or the buffer shuts down; an async read's task is woken when a record is committed; a caller that waits for the open reservations, or for the unread records, returns once they are committed, or read.",
 ["schedules"],"every interleaving of producer, consumer and control threads",
 "Tests force a few interleavings with a synchroniser.",
 [CRB,VRB,NRB],[("lock discipline and condition variables","CommonRingBuffer::locked_data, Conditions")])
p("C28","A log field's value for matching prefers the captured field",
 "When a condition looks up a field by name it sees the text of the first captured field of that name, or, if there is none or it is binary, the text of the first matching-only field of that name, or nothing. The reserved names for level and type always resolve to the log's own attributes, whatever fields it carries.",
 ["inputs"],"every log and every field name",
 "Tests use logs with disjoint names.",
 ["bd-matcher/src/lib.rs","bd-log-primitives/src/lib.rs"],[("lookup","FieldProvider for FieldsRef and LogRef; FieldsRef::matching_field_value")])
p("C29","A cached client configuration cannot crash-loop the app",
 "A cached runtime configuration is applied at start only if both its file and its start counter are readable, and every start that applies it is counted before the values take effect; after six starts without the server confirming it or sending an update the cache is discarded, and so is a cache that is missing a file or does not decode. An update resets the count and is what the next start applies. Every registered flag always shows the last applied configuration's value or its default, and its watchers are told exactly when that changed.",
 ["crash_points","histories","inputs"],"every sequence of starts, crashes, updates and confirmations, every content of the two cache files, every set of registered flags",
 "The crate is not built by the available test run; its tests follow one start at a time and a handful of damaged files.",
 ["bd-runtime/src/runtime.rs"],[("bounded retries of the cached configuration","ConfigLoader::try_load_cached_config, handle_cached_config"),("confirmation","ConfigLoader::mark_safe, update_snapshot"),("flags follow the snapshot","ConfigLoader::update_snapshot_inner, register_watch, Snapshot::get_*")],
 [("retry_count / update.pb","starts that applied the cached configuration without confirmation; the configuration","runtime directory under the SDK directory")],["RuntimeManager::handle_cached_config","Watch::read"])
p("C30","A killed client stays silent until its kill expires",
 "Once the server has refused a client as unauthenticated, or its configuration orders a kill, the client starts no stream and sends nothing for the rest of that process, without its task failing. The kill is written down with the hash of the key it was meant for, never the key; every later start before its expiry with the same key stays silent too, and the first start after expiry, or with another key, removes the record and connects again. An unreadable record counts as none, and nothing else the server says or does kills a client.",
 ["histories","inputs","crash_points"],"every sequence of starts, clock readings, keys, kill flags and server answers, every content of the kill file",
 "The crate is not built by the available test run; its tests follow one kill each.",
 ["bd-api/src/api.rs"],[("decision at start","Api::maybe_kill_client, read_kill_file, write_kill_file"),("refusal","Api::wait_for_handshake, HandshakeResult::Unauthenticated in maintain_active_stream")],
 [("client_kill_until","until when, and for the hash of which key, the client is killed","SDK directory")],["Api::start"])
p("C31","Every connection is a handshake, then a conversation",
 "On each stream the client first sends one handshake, carrying the identity metadata, the version nonce of every configuration and the reason the previous stream ended, and then nothing until the server's handshake has arrived; a first answer of another kind, or a second handshake, ends the task with an error. After that every response is handled in order exactly once: a configuration is offered to every pipeline and each acknowledgement sent back, a flush request is passed on with its buffers, a pong schedules the next ping one interval later, and no ping is sent otherwise. The configurations learn that the server is there once per handshake, after what came with it was handled. When a stream ends another follows, at once if it lived for over a minute and otherwise after the configured, randomized, growing back-off, until shutdown, which ends the task without an error whenever it comes; the reported network quality is online exactly from handshake to end of stream, and offline once fifteen seconds have passed without a connection.",
 ["histories","schedules","inputs"],"every sequence of server answers, uploads, configuration responses, stream ends, flag changes and network failures, at any moment",
 "The crate is not built by the available test run; its tests follow single conversations.",
 ["bd-api/src/api.rs"],[("streams and conversation","Api::maintain_active_stream"),("handshake","Api::handshake_request, wait_for_handshake"),("responses","Api::handle_responses"),("pings","StreamState::maybe_schedule_ping, initialize_stream_settings"),("back-off","Api::do_reconnect_backoff, backoff_policy")])
p("C32","A triggered flush is decided once and ships exactly its buffers",
 "When a flush action fires, the server is asked about it once as long as it is undecided or its streaming is under way; a request lost with its stream is repeated under the same identifier, and a refused action is not asked about again in this process. An approval flushes exactly those of the action's buffers that exist, unless an earlier flush for the same action is still under way, and from then on logs headed for those buffers go to the action's streaming destinations instead, up to its log limit, or until the session has changed and the flush is complete. Every decision releases the action, also across configuration updates, and buffers that a new configuration no longer has are neither flushed to nor streamed to.",
 ["histories","inputs"],"every sequence of logs, decisions (late, refused, lost), flush completions, sessions, restarts and configuration updates, every set of actions and buffers",
 "The crate is not built by the available test run; its tests follow one or two actions.",
 ["bd-workflows/src/engine.rs","bd-workflows/src/actions_flush_buffers.rs"],[("which actions become pending, which logs are redirected","Resolver::process_flush_buffer_actions, process_streaming_actions, make_streaming_action"),("asking the server","Negotiator::process_pending_action, perform_intent_negotiation"),("decisions","WorkflowsEngine::process_log, run, on_log_upload_approved")],
 [("pending and streaming actions","undecided flushes and active redirections","workflows_state_snapshot.4.bin in the SDK directory")],["WorkflowsEngine::process_log"])
p("C34","Workflow progress survives updates and restarts; damage cannot stop the client",
 "Across configuration updates a workflow that did not change keeps its progress, one that changed or is new starts afresh and one that is gone leaves nothing; a new session starts every workflow afresh and keeps pending flushes. After a save, a restart in the same session with the same configuration continues exactly as if there had been no restart; changed state is saved within the configured interval while the engine runs and not more often unless forced. The traversals held never exceed the configured limit. State on disk that cannot be read, is truncated or does not fit the configuration is discarded, and no content of it crashes the client or makes it allocate without bound.",
 ["histories","crash_points","inputs"],"every sequence of configuration updates, logs, sessions, saves and restarts, every content of the state file",
 "The crate is not built by the available test run; its tests restart once or twice over an intact file.",
 ["bd-workflows/src/engine.rs","bd-workflows/src/workflow.rs"],[("reconciliation","WorkflowsEngine::start, update, add_workflows, add_workflow, remove_workflow"),("state on disk","StateStore::load, store, maybe_store; WorkflowsState::optimized"),("sessions","WorkflowsEngine::clean_state, process_log")],
 [("workflows, session, pending and streaming actions","runs and traversals of every workflow","workflows_state_snapshot.4.bin in the SDK directory")],["WorkflowsEngine::start","WorkflowsEngine::update"])
p("C33","Logs leave a buffer only once uploaded or given up, in order",
 "The logs of a continuous buffer are uploaded in the order written, each in exactly one batch, and one batch at a time: as soon as it holds the configured number of logs or bytes, and at the latest the configured delay after its first log. A batch that fails, or whose connection is lost, is repeated unchanged up to the configured number of retries, with randomised pauses growing from the configured initial to the configured maximum. Logs leave the buffer only when their batch was acknowledged or given up; those of a batch interrupted by shutdown, crash or the buffer's removal are uploaded again. A triggered upload ships everything the buffer held except logs older than the configured look-back window, with no second upload of the same buffer meanwhile, and is answered once all its buffers are done. Streamed logs are uploaded one by one, in order.",
 ["histories","schedules","inputs","crash_points"],"every sequence of logs, answers (late, failed, lost), flag values and changes, clock advances, triggers, buffer additions and removals, shutdowns and restarts",
 "The crate's upload code is not built by the available test run; its tests follow one batch or two.",
 ["bd-logger/src/consumer.rs","bd-logger/src/service.rs"],[("continuous uploads","ContinuousBufferUploader::consume_continuous_logs, flush_current_batch; BatchBuilder"),("triggered uploads","BufferUploadManager::handle_trigger_uploads; CompleteBufferUpload::run"),("retries","Uploader::call; RetryPolicy::retry; BackoffProvider::backoff"),("streams","StreamedBufferUpload::start")],
 [("per-buffer ring buffer file","logs not uploaded yet, and the read position","buffers directory under the SDK directory")],["BufferUploadManager::run"])
p("C35","Buffers are exactly those configured; every flush request is served",
 "After a configuration update exactly the configured buffers exist, with the configured type and sizes; a buffer that was there before is the same one with its logs, and only trigger buffers overwrite old logs with new ones. The uploader is told of each addition and removal exactly once and has acknowledged all of them before the update completes; there is a stream buffer exactly while streaming is wanted. An update that fails changes nothing and is not told. The file of a removed buffer goes once its last user lets go of it, and no other buffer's does. A flush request is answered once everything written to the buffers it names, or to all, is in their files; buffers that are not there are skipped, and later requests are served all the same.",
 ["histories","inputs"],"every sequence of configuration updates (valid or not), writes and flush requests, every choice of buffers, every delay of the uploader",
 "Its tests apply two fixed configurations and flush one buffer; none names a buffer that is not there.",
 ["bd-buffer/src/ring_buffer.rs"],[("configuration updates","Manager::update_from_config, resolve_buffer_updates, resolve_stream_buffer_update"),("flushes","Manager::process_flushes"),("deletion","RingBuffer::drop")],
 [("ring buffer files","one per configured buffer","buffers directory under the SDK directory")],["Manager::update_from_config","Manager::process_flushes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
