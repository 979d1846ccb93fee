"""Which units (contracts) and harness decide each property, and what each leaves unproved."""
CHECKS = {
 "C01": dict(units=["C01"], harness="c01",
   note="Proved for every state, every size and every length below 2^32 on the extracted common ring buffer (overwriting, no pending data loss) and the whole volatile buffer: an invariant on the circular layout of unread, committed-out-of-order and reserved records is established by new and kept by reserve, commit, start_read, finish_read, async read, registering, dropping, draining and shutdown; from it every region handed out is inside the memory, exactly as long as asked for, and shares no byte with any other reservation, the record being read or any unread record; a refused reservation changes nothing. Trusted: the intrusive queue as a sequence with stable addresses, memory as a sequence of bytes with in-range slices, the lock, condition variables (other threads keep the invariant). File buffers (per-record checksums, blocking mode, cursor) and two threads only by the harness."),
 "C02": dict(units=["C01"], harness="c02",
   note="Proved on the same unit as C01: commit appends exactly the contiguous committed prefix of reservations, in reservation order, to the unread records; reading returns the oldest unread record's bytes; finishing removes exactly it; a reservation drops the k oldest unread records, each of which it or its wrap gap overlaps, and every other unread or reserved record keeps its bytes; refusals change nothing. Same trusted base and limits as C01; file buffers and the aggregate buffer's flush thread only by the harness."),
 "C03": dict(units=[], harness="c03", level="exploration",
   note="Bounded in this commit: reopen and damage cases on the real persistent buffer."),
 "C04": dict(units=["C04"], harness="c04",
   note="Proved for all byte streams, all splits and all messages on the extracted decode_data, decompress, encode and encode_uncompressed: decoding is a function of the concatenated bytes, what stays buffered holds no whole frame, a decoded encoding is the message, uncompressed frames are byte-exact. Trusted: the bytes crate, zlib as a deterministic state machine (the per-thread machine must be fresh between payloads, which is proved), serialise/parse being inverse. encode_compressed (a thread-local writer) is assumed by contract and exercised by the harness; the harness runs on stand-ins of protobuf and flate2."),
 "C05": dict(units=["C05"], harness="c05",
   note="Proved for all inputs on the extracted version.rs over any strings: comparison is by component with zero padding, antisymmetric, equality agrees with it, operators agree with it; for components that are numbers below 2^32 it is the (total, transitive) lexicographic order. Trusted: string splitting and u32 parsing by their std meaning. Versions mixing numbers and text are ordered as the code documents, which is not transitive; nothing is claimed there."),
 "C06": dict(units=["C06", "C06b"], harness="c06",
   note="Proved for all trees and logs on the extracted do_match of both condition trees, their leaf evaluations, and BufferSelector::buffers, by structural induction. Trusted: regular expressions and parsing of numbers as opaque deterministic functions, the order of strings, the set of names. That compiling a configuration yields the tree it spells is exercised by the harness."),
 "C07": dict(units=["C07"], harness="c07",
   note="Proved for all logs, filters and transforms on the extracted FilterChain::process, every transform's apply, set_field and the log's field lookup: the log afterwards is the fold of the transforms of the filters whose condition holds at that point, and level, type, message, session and time never change. Trusted: Vec's position/retain by name, regular-expression replacement as an opaque function, condition evaluation (C06). That a configuration compiles to the filters it spells, and which ones are refused, is exercised by the harness."),
 "C08": dict(units=["C08"], harness="c08",
   note="Proved on the extracted try_acquire_ratelimit_permit and RateLimitLayer::new for all states, sizes, rates and clock readings, and by induction over all sequences of requests within a period. Instants are nanoseconds below 2^62; the quota and period watches are assumed constant during one call. That the service waits and retries (an async loop), and threads, only by the harness."),
 "C09": dict(units=["C09"], harness="c09",
   note="Proved on the extracted PreConfigBuffer and on the channel's try_send, try_reserve_memory, void_memory_reservation and recv, the last four under arbitrary interference on the shared counter (a read may see anything the other threads left; this side's net contribution is tracked), so for every schedule. Trusted: tokio's bounded channel, that sizes of things in memory do not overflow a usize, and that a queued message's size does not change."),
 "C10": dict(units=["C10"], harness="c10",
   note="Proved for all inputs on the extracted metadata.rs: the merged fields and matching fields are, key by key, the first entry over the documented order of sources; each key once; no custom field with a reserved or underscore name; replay/resource/internal logs use provider fields for matching only; add_field/remove_field keep the global fields unique.",
   trust=["metadata provider: returns what it returns (its values are universally quantified)"]),
 "C11": dict(units=["C11"], harness="c11",
   note="Proved on the extracted fixed.rs over the contract of the key-value store, one thread at a time; storage failure histories are covered by the store contract. Threads and callback re-entrance across threads only by the harness."),
 "C12": dict(units=["C12"], harness="c12",
   note="Proved on the extracted activity_based.rs over the key-value store contract (storage that does not fail) and a clock that may return anything, one thread at a time. Trusted: random IDs do not repeat, dates serialise. Threads and storage failures only by the harness."),
 "C13": dict(units=["C13"], harness="c13",
   note="Proved on the extracted bd-device over the key-value store contract, one thread at a time; threads only by the harness."),
 "C14": dict(units=["C14"], harness="c14",
   note="Proved on the extracted bd-key-value over an assumed storage backend (any answer, any failure) and assumed codecs (base64, bincode: decode after encode is the identity, decoding from a slice does not panic). The codecs themselves are exercised by the harness."),
 "C15": dict(units=["C15"], harness="c15",
   note="Proved on the extracted app_version.rs over the key-value store contract."),
 "C16": dict(units=["C16"], harness="c16",
   note="Proved for all inputs: percentage decision, typed reads, and what a reload hands to the conversion. Trusted: string-keyed map semantics, the YAML parser, the file system. The watch plumbing (new_loader) is only exercised by the harness."),
 "C17": dict(units=["C17"], harness="c17",
   note="Proved for all inputs on the extracted should_warn (instants and durations as mathematical integers). The logging macros are exercised by the harness."),
 "C18": dict(units=["C18"], harness="c18",
   note="Proved on the extracted num_cpus over assumed float primitives (parse, is_normal, saturating cast); the primitives are exercised by the harness against the standard library."),
 "C19": dict(units=["C19"], harness="c19",
   note="Proved for all graphs, logs, run states and limits on the extracted Traversal/Run/Workflow::process_log and maybe_add_run: per transition counting and firing, successors, actions in order, the run's own limits, at most two runs in exclusive mode, every traversal accounted for in the caller's count, which the limit bounds. Trusted: log matching and flow-value extraction as opaque deterministic functions, 32-bit counters do not overflow, traversals fewer than 2^32. How graphs are compiled and how the engine feeds logs is exercised by the harness."),
 "C20": dict(units=["C20"], harness="c20",
   note="Proved for all histories on the extracted SankeyState::push (the values kept, what is dropped, the trimmed mark, the bound) and ProcessedIntents::contains and insert (distinct entries, at most 100, the most recently used ones, in order). Trusted: Vec's search functions by name. That paths reach these functions through workflows and that what is remembered is what was handled is exercised by the harness, through the whole engine."),
 "C21": dict(units=["C21", "C21f"], harness="c21",
   note="Proved for all histories: a counter's snapshot takes out exactly what it reports, under arbitrary interleaved operations of other threads on the cell (ledger contracts); a histogram's snapshot and merge keep every observation, exact up to the inline limit; registration respects the limit and first types; dropping a metric during a snapshot happens only when nobody can record to it any more and nothing is left in it; merging a delta into the file's snapshot adds per metric. Trusted: atomics (each operation atomic), Mutex, Arc counts, the sketch (by the observations in it), HashMap, the file manager's storage. The file manager, uploads, restarts and real threads are exercised by the harness."),
 "C22": dict(units=["C22"], harness="c22",
   note="Proved for all histories on the extracted StateTracker and Tracked over one-shot channels with identities: a response with a pending identifier sends exactly its outcome to exactly that channel and forgets it, any other is an error and changes nothing, and an outcome once sent is never replaced (senders are consumed, by type). Trusted: HashMap, tokio's one-shot channel (a dropped sender fails its receiver). The Api task's use of the tracker (which response goes where, teardown with the stream) is exercised by the harness, on the whole task over a fake network."),
 "C23": dict(units=["C23"], harness="c23",
   note="Proved for all timestamps, intervals and durations whose result is representable, on the extracted conversions and rounding of bd-time, with machine integers checked for overflow. Trusted: the arithmetic of the time crate's and std's types (by what they denote in nanoseconds). The standard Duration's conversion to the wire is the protobuf crate's and only exercised by the harness (on a stand-in)."),
 "C24": dict(units=["C24"], harness="c24",
   note="Proved for all inputs on the extracted Metadata::collect and Platform."),
 "C26": dict(units=["C26"], harness="c26",
   note="Proved on the extracted bd-shutdown (every function) and bd-completion (Sender, Receiver), over the assumed contracts of tokio's watch and one-shot channels, with await rules for what a wait may return. That a pending wait is woken is the channel's (trusted) and exercised by the harness, which polls by waker."),
 "C27": dict(units=[], harness="c27", level="exploration",
   note="Bounded in this commit: real threads on the real volatile, persistent and aggregate buffers; every blocking operation with the event that must wake it, async reads polled by their waker, and free-running producers and consumers checked against the history."),
 "C28": dict(units=["C28"], harness="c28",
   note="Proved for all logs and names on the extracted FieldProvider implementations and matching_field_value. Trusted: rendering a u32 as decimal digits."),
 "C29": dict(units=["C29"], harness="c29",
   note="Proved for all states of the two cache files and all watches on the extracted ConfigLoader, RuntimeManager and Snapshot: what a start applies, that it is counted first, that a healthy file system keeps or discards the cache as stated, that at most six unconfirmed starts apply it (induction over starts), that every watch shows the snapshot and is told exactly of changes. Trusted: file operations (a failed write leaves only its own file in doubt), decimal text of numbers, the protobuf and compression codecs, tokio's watch channel, and the three flag type instances the code's macro generates. One thread at a time; threads only by the harness."),
 "C30": dict(units=["C30"], harness="c30",
   note="Proved on the extracted Api: a kill file that holds, or a kill flag, leaves the client killed and no stream is ever started in that state (precondition of start_stream at every call); the file is removed exactly when it does not hold; what it says after each start and refusal; every answer that is not the unauthenticated one leaves the client as it was. Trusted: file operations, the compression and protobuf codecs, the clock, select! as a choice among its enabled branches, a stand-in for the API key's hash. The responses' own handling is assumed here not to touch the kill state (its body is under contract in C31)."),
 "C31": dict(units=["C31"], harness="c31",
   note="Proved on the extracted Api and StreamState: a handshake is the first and only thing sent until the server's handshake is received, no second handshake is sent on a stream or accepted, responses are handled in order and exactly once, configuration offers and acks, flush requests, pings only with no deadline left and scheduled from settings and pongs, completion announced after everything that came with the handshake, quality and stream starts, shutdown ends without error. Trusted: select! as a choice among its enabled branches, channels, codecs, the upload tracker (C22). By the harness only: headers and handshake contents, back-off and ping timing, the 15 s of grace."),
 "C32": dict(units=["C32"], harness="c32",
   note="Proved on the extracted Resolver, Negotiator, BuffersToFlush and the engine's process_log, run_once, approval and refusal (fewer than 2^64 logs streamed by one action). Trusted: BTreeSet and HashMap, tokio's channels (a send is received or refused), the server's answers; which actions a log triggers is C19."),
 "C34": dict(units=["C34"], harness="c34",
   note="Proved on the extracted engine (start, update, process_log, clean_state, maybe_persist, add/remove), StateStore, WorkflowsState and Workflow, with C19's functions below: the invariant (counts, limit, pairing), reconciliation, sessions, what a restart restores, nothing saved changes without the dirty flag, a bounded decode. Trusted: bincode's round trip, file operations, HashMap, equality of configurations, 32-bit sums; the resolver is C32's. By the harness only: periodic saving while idle, damaged files end to end."),
 "C33": dict(units=["C33"], harness="c33",
   note="Proved on the extracted uploaders (continuous, trigger, streamed), BatchBuilder, Uploader::call, RetryPolicy and BackoffProvider: what is read is what was settled plus the batch being collected, in order; the read position never passes what is settled; limits, deadlines, retries, pauses, the look-back window, what is answered. Trusted: the ring buffers (C01, C02), tower's retry and the rate limit (C08) around Uploader, backoff's randomised growth, tokio's select! as a choice among its branches, flags constant between two reads. Nothing is claimed in V after a shutdown was seen; by the harness only: which buffers have an uploader (BufferUploadManager), one trigger upload per buffer, the answer after all of them."),
 "C35": dict(units=["C35"], harness="c35",
   note="Proved on the extracted Manager: what an update does to the set of buffers, sizes and overwriting, the events told and their receipts, a failed update changes nothing, the stream buffer, which files are marked for deletion, every flush request served and answered after its buffers were flushed. Trusted: RingBuffer::new, flush and Drop (C01, C02 below them), HashMap's iteration, tokio's channels. The state is exclusive during each function (locks dropped). Distinct identifiers in a configuration."),
 "C25": dict(units=["C25", "C25g"], harness="c25",
   note="Proved on the extracted LabelTracker, Scope and gauges, one thread at a time (the code documents its count as inexact under races). Trusted: DashMap and prometheus (a registry accepts a new metric)."),
}
NOT_APPLICABLE = {}
PENDING = "its check is not built yet in this commit"
