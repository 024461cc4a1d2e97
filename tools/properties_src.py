# ---------------------------------------------------------------- key-value store, identity
prop("K01", "The key-value store returns exactly what was stored, or nothing",
 """A value read through the typed store equals the last value set under that key, and is absent for
 a key never set, whatever bytes, lengths or characters it holds and across a reopening of the
 storage. If the stored text is not something the store wrote for that type (corrupted, truncated or
 unreadable), a read returns nothing rather than a wrong value or a panic, and removes the bad entry
 so that later sets and reads work. Failures of the storage itself never propagate to the caller and
 never disturb other keys.""",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of typed set and get calls over any keys and values, any corruption of stored text, and any pattern of storage failures",
 "The unit tests store one struct and one malformed text; they sample neither arbitrary values nor interleaved keys, reopening or injected storage faults.",
 ["bd-key-value/src/lib.rs"], [("typed get/set with encode/decode and delete on error", "bd-key-value/src/lib.rs Store")],
 technique="runtime monitoring: a reference map judges every read of the real store over seeded histories with corrupted text, failing storage and reopening",
 note="Sampled histories, corruptions and fault patterns over six value types and two storage back ends; not exhaustive.", built=True)

prop("K02", "The device identifier is generated once and never changes",
 """All callers in all threads and in every later process start over the same storage get one and the
 same device identifier; it is generated and stored at the first request only. It changes only if the
 stored value was lost or made unreadable, in which case a fresh, unique identifier is generated and
 stored, and it does not change within a process even when storage fails.""",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of concurrent first requests, every history of restarts, and every storage failure or corruption in between",
 "One single-threaded unit test; racing first calls, restarts and failing storage are not exercised.",
 ["bd-device/src/lib.rs", "bd-key-value/src/lib.rs"], [("lazy generation under a lock", "bd-device/src/lib.rs Device::id")],
 technique="runtime monitoring: identifiers returned to racing threads and successive restarts are compared with each other and with the storage",
 note="Sampled interleavings under real threads with injected storage faults.", built=True)

# ---------------------------------------------------------------- sessions
prop("S01", "Fixed sessions: one current session, correct previous-process session",
 """Until a new session is explicitly started, every caller in a process sees one session identifier,
 obtained from exactly one call of the identifier callback (or a random identifier if the callback
 fails), and starting a session replaces it for all. The previous-process session is always the last
 session that was current in the preceding process over the same storage and stays the same through
 the life of the process, also after new sessions are started. Asking for the session from inside the
 identifier callback does not deadlock or change the session, starting one there is refused, and other
 threads are unaffected by a callback in progress.""",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of readers and starters, every history of restarts and every callback failure or re-entrant call",
 "Tests run a fixed handful of calls on one thread; interleavings of starts with reads, failing callbacks and multi-restart histories are not covered.",
 ["bd-session/src/fixed.rs", "bd-session/src/lib.rs"], [("state under a lock, persisted on change", "bd-session/src/fixed.rs Strategy"), ("re-entrancy flag per thread", "bd-session/src/fixed.rs is_callback_in_progress")],
 technique="runtime monitoring: offline checker over recorded histories of racing readers, starters and restarts, with hooked callback and storage",
 note="Sampled interleavings and histories; hooked callback gives forced overlaps.", built=True)

prop("S02", "Activity sessions rotate exactly when the inactivity threshold passes",
 """With activity-based sessions the session changes on a read exactly when more than the configured
 inactivity time has passed since the last activity (or on an explicit start), also when the last
 activity happened in an earlier process. Every change of session is reported to the application
 exactly once with the new identifier, and the previous-process session is the last one of the
 preceding process. Persistence is throttled, but what a restart finds is never older than the
 throttle interval allows.""",
 ["histories", "schedules"],
 "every history of reads, starts, clock steps (including backwards) and restarts",
 "The tests step the clock through a few fixed scenarios.",
 ["bd-session/src/activity_based.rs"], [("inactivity comparison and persisted last-activity", "bd-session/src/activity_based.rs")],
 technique="runtime monitoring: a reference model of the rotation rule judges every read over seeded histories with a hand-driven clock",
 note="Sampled histories of clock steps, starts and restarts.", built=True)

# ---------------------------------------------------------------- log enrichment
prop("L01", "Log fields are merged without loss, duplicates or overridden platform fields",
 """The field set attached to a log contains each key once, with the value of the source of highest
 precedence (among duplicates within one source, the first): platform fields of the provider, then platform fields of the log, then custom fields of
 the log, then fields added globally at run time, then custom provider fields; no key of any valid
 source is lost and nothing is invented. Custom fields whose key is reserved or starts with an
 underscore are dropped. For internal, replay and resource logs the provider's fields serve matching only
 (platform fields before the log's own matching fields, custom ones after) and are never captured.""",
 ["inputs", "configurations"],
 "every combination of field sets with any key overlaps, reserved names and log types, and provider failures",
 "The unit tests use a handful of fixed overlaps; precedence must hold pairwise and jointly for all overlaps and log types.",
 ["bd-logger/src/metadata.rs"], [("precedence merge and partition", "bd-logger/src/metadata.rs MetadataCollector")],
 technique="runtime monitoring: an independent reference merge judges every collected log over generated field sets, types and provider failures",
 note="Sampled inputs with forced key overlaps, plus all small overlaps; private collector reached through a driver module.", built=True)

prop("L02", "Global fields reflect exactly the accepted adds and removes, in order",
 """A field added at run time is attached to every later log until it is replaced or removed, with the
 last value given; removing one affects no other field. Names that are reserved or start with an
 underscore are refused with an error and leave the set unchanged.""",
 ["histories", "inputs"],
 "every sequence of add, replace and remove operations interleaved with logs",
 "One fixed add/remove sequence is tested.",
 ["bd-logger/src/metadata.rs"], [("add_field/remove_field", "bd-logger/src/metadata.rs")],
 technique="runtime monitoring: a reference map judges the fields attached to logs over histories of adds, replacements and removals",
 note="Sampled histories.", built=True)

prop("L03", "An application update is reported once, with the right previous version",
 """A start with a version or build number different from the recorded one is recognised as an update in either direction, and remains
 so over restarts until the update is recorded; recording it returns the previously recorded
 version, exactly once. The first start ever records its version silently and reports no update, and an
 unchanged version never reports one.""",
 ["histories", "inputs"],
 "every sequence of process starts with any versions and build numbers, with recording happening or not in each",
 "Tests run one upgrade.",
 ["bd-logger/src/app_version.rs"], [("comparison with the stored version", "bd-logger/src/app_version.rs Repository")],
 technique="runtime monitoring: a reference model judges every start over histories of versions, restarts and recordings on the real store",
 note="Sampled histories.", built=True)

prop("L04", "Throttled warnings: the first passes, then at most one per interval",
 """A throttled warning site emits its first warning and afterwards emits again only when more than the interval
 has passed since the last emitted one, regardless of how many threads reach it and of suppressed
 attempts in between. A warning due is never suppressed, and different sites do not throttle each
 other.""",
 ["schedules", "histories"],
 "every interleaving of callers and every sequence of clock steps and intervals",
 "One test of three calls on a single thread.",
 ["bd-log/src/rate_limit_log.rs", "bd-log/src/lib.rs"], [("last-emission tracking", "bd-log/src WarnTracker")],
 technique="runtime monitoring: a reference model judges every decision on a hand-driven clock; racing callers and a real-clock hammer are judged by an offline checker of their timestamps",
 note="Sampled histories, intervals and interleavings.", built=True)

prop("L05", "A log filter change takes effect for every record that follows it",
 """After the log filter was replaced at run time, exactly the records the new filter admits are written, once
 each, whichever logging interface and thread they come from and whatever filters came before. When several
 threads replace the filter at the same time the outcome is that of one of them as a whole, and records admitted by both the old and
 the new filter are never lost while it is being replaced.""",
 ["schedules", "configurations"],
 "every sequence and interleaving of filter replacements and records of any level and target",
 "No test replaces the filter.",
 ["bd-log/src/lib.rs"], [("reloadable filter and maximum level", "bd-log/src/lib.rs SwapLogger::swap")],
 technique="runtime monitoring: every record carries an identifier and the redirected output is compared with a reference filter; races are driven with delays injected by signals",
 note="Sampled filters and interleavings; span and field directives are not generated.", built=True)

prop("L06", "Static client metadata identifies the platform and cannot be overridden",
 """The metadata sent with every client request contains each static key (library version, configuration
 version, operating system, client kind) with the platform's value even when the application supplies
 the same keys, and every other application-supplied pair unchanged.""",
 ["inputs", "configurations"],
 "every combination of platform, client kind, version and application-supplied pairs",
 "There is no test of it.",
 ["bd-metadata/src/lib.rs"], [("collect", "bd-metadata/src/lib.rs Metadata::collect")],
 technique="runtime monitoring: a reference map judges the collected metadata over generated platforms and application pairs",
 note="Sampled inputs.", built=True)

prop("L07", "Field lookup prefers captured fields and sees every field",
 """Looking a field up on a log returns the captured text if the key is captured as text, otherwise the
 matching-only text when the key is not captured, otherwise nothing, and finds every field that is present;
 of several fields of one list with the same key the first counts; a field named like a part of the log itself (its level, type or message) does not hide that part from a matcher that asks for it.
 String and byte values compare and convert faithfully for any content.""",
 ["inputs"],
 "every pair of field lists and keys, and every string or byte value",
 "Only used incidentally by other tests.",
 ["bd-log-primitives/src/lib.rs", "bd-log-metadata/src/lib.rs", "bd-matcher/src/lib.rs"], [("FieldsRef::field_value", "bd-log-primitives/src/lib.rs"), ("FieldProvider", "bd-matcher/src/lib.rs")],
 technique="runtime monitoring: a reference lookup judges the real one over generated field lists and values",
 note="Sampled inputs.", built=True)

# ---------------------------------------------------------------- runtime infrastructure
prop("R01", "The configuration file loader converges to the file and survives bad files",
 """After any sequence of replacements of the watched configuration file by rename, every subscriber's view
 becomes the content of the last replacement; a version is never shown mixed with another, and versions are
 not shown out of order. A malformed or missing file yields the defined fallback, is counted as a failure, and
 does not stop later updates. Shutdown ends the watching, may be asked for repeatedly, and no update follows it.""",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of good, bad and missing files put in place by renames in the watched directory at any speed, with any number of subscribers joining at any time",
 "Tests replace the file once or twice, slowly.",
 ["bd-runtime-config/src/loader.rs"], [("inotify-driven reload", "bd-runtime-config/src/loader.rs WatchedFileLoader")],
 technique="runtime monitoring: pollers check order and integrity of every version shown while good, malformed and missing files are put in place; convergence, counters and shutdown are checked after",
 note="Sampled histories on the local file system with inotify; includes overflowing the kernel's event queue.", built=True)

prop("R02", "Feature flags evaluate to the configured value, type and rollout share",
 """A typed read of a flag returns the configured value if the flag exists with that type and otherwise the
 given default. A percentage flag is never enabled at 0 and always at 10000 or above, and in between is enabled for
 that share of evaluations. After an update every holder of the loader sees the new values.""",
 ["inputs", "configurations"],
 "every flag map and every read by any name, type and default, and every rollout value",
 "A few constant flags are tested; the share of enabled evaluations is not.",
 ["bd-runtime-config/src/feature_flags.rs"], [("flag evaluation", "bd-runtime-config/src/feature_flags.rs")],
 technique="runtime monitoring: a reference map judges every typed read over generated flag files and updates; the rollout share is judged statistically",
 note="Sampled flag maps; the share is judged at 6.5 standard deviations.", built=True)

prop("R03", "Worker pool size follows the CPU hint within 1 to 4096",
 """The worker count derived from the environment is the hinted number of CPUs rounded down, at least 1
 and at most 4096; a hint that is missing, not a number, infinite or subnormal is ignored in favour of the host's CPU count.
 A runtime of that size can always be built and runs tasks, and later changes to the environment change nothing.""",
 ["configurations", "inputs"],
 "every value of the hint in the environment and every host CPU count",
 "There is no test of it.",
 ["bd-rt/src/lib.rs"], [("num_cpus", "bd-rt/src/lib.rs")],
 technique="runtime monitoring: a reference model judges the size over generated hints; runtimes are built and used in child processes",
 note="Sampled hints; runtimes up to 600 threads are built.", built=True)

prop("H01", "Shutdown reaches every component and waits for all of them",
 """Once shutdown of a component tree is triggered, every holder of a shutdown token, whenever created and
 wherever it is in waiting, observes it. The trigger returns only after every token and clone has been
 dropped, and always returns then; tokens that were created through a non-blocking handle count, while the
 handle itself does not block. No token observes shutdown before it is triggered, and the wait for the
 signals that end a process gracefully ends with any SIGTERM or SIGINT that comes after its first poll.""",
 ["schedules"],
 "every interleaving of token creation, cloning, waiting, dropping and triggering, asynchronous or blocking",
 "There is no concurrent test.",
 ["bd-shutdown/src/lib.rs"], [("watch channel with closed()", "bd-shutdown/src/lib.rs")],
 technique="runtime monitoring: instrumented tokens in random trees over tasks and threads; live counts and observation flags are checked at every wake and at the return of the trigger",
 note="Sampled interleavings on a real multi-threaded runtime.", built=True)

prop("H02", "A completion signal is delivered exactly once or reported as lost",
 """The value sent is received exactly once and unchanged, whether the receiver waits before or after it
 is sent and in a thread or a task. If the sender goes away without sending, the receiver gets an error and
 never hangs; sending to a receiver that has gone never panics or blocks.""",
 ["schedules"],
 "every order of sending, receiving and dropping of either side",
 "There is no direct test.",
 ["bd-completion/src/lib.rs"], [("oneshot wrapper", "bd-completion/src/lib.rs")],
 technique="runtime monitoring: values that count their drops are sent over racing pairs; receipt, loss reports and drop counts are checked",
 note="Sampled interleavings; every pairing of sender and receiver behaviour is covered.", built=True)

prop("H03", "A panic ends the process when abort is configured and is always reported",
 """With forced abort configured, a panic in any thread or asynchronous task terminates the process
 with a failure status after the panic was reported; without it the process goes on. With single-line panic
 logging configured the report is one line with the panic's whole message and source location whatever the payload type.""",
 ["configurations", "schedules"],
 "every combination of panic mode, reporting mode, payload type and panicking thread or task",
 "The one test only installs the handlers.",
 ["bd-panic/src/lib.rs"], [("panic hooks", "bd-panic/src/lib.rs")],
 technique="runtime monitoring: exit status and recorded report of a child process for each panic mode, report mode, payload and place",
 note="The listed combinations are all run; payload contents are fixed.", built=True)

# ---------------------------------------------------------------- server metrics
prop("M01", "Server metrics lose no update and never mix up series",
 """The value gathered for a counter, gauge or histogram series equals the sum of all updates made by all
 threads to any handle obtained under the same full name and label set, and updates never appear in
 another series. Asking again for a counter, gauge or histogram of the same name and labels through any equivalent scope yields the same series
 instead of failing or shadowing it; nested scopes join names and merge labels with the inner value winning,
 and every series that was ever obtained is present in every gathering.""",
 ["schedules", "histories", "inputs"],
 "every interleaving of scope creation, series creation, updates and gathering, over any names and labels",
 "Tests check fixed names on one thread.",
 ["bd-server-stats/src/stats.rs"], [("registry of series by name and labels", "bd-server-stats/src/stats.rs Collector, Scope")],
 technique="runtime monitoring: racing threads obtain and update series along generated scopes; gatherings during and after are compared with atomically kept totals",
 note="Sampled series and interleavings.", built=True)

prop("M02", "Metric label cardinality is bounded, with overflow accounted",
 """The number of distinct label values admitted over all dynamically labelled metrics of a collector stays within
 its limit (callers racing at the limit may exceed it by at most one each), and each refused request is counted as overflow. Label sets made of admitted values keep their own series for ever, and updates for
 other label sets all go to the overflow series of the metric. No update is lost in either case.""",
 ["histories", "schedules"],
 "every sequence and interleaving of label values",
 "No test crosses the limit from several threads.",
 ["bd-server-stats/src/stats.rs"], [("label cardinality limit", "bd-server-stats/src/stats.rs")],
 technique="runtime monitoring: the state after each request is compared with the rule of admission; racing callers are judged by totals",
 note="Sampled sequences and interleavings; one known finding concerns label values that concatenate to the same text.", built=True)

prop("M03", "Gauges held by guards return to their value when guards are dropped",
 """A gauge maintained by guards always equals the number of live guards (or the sum of their
 contributions), whichever threads create, clone, move or drop them and also when a holder panics.""",
 ["schedules", "histories"],
 "every interleaving of creation and dropping of guards",
 "A single create/drop is tested at most.",
 ["bd-server-stats/src/stats.rs"], [("AutoGauge", "bd-server-stats/src/stats.rs")],
 technique="runtime monitoring: guards are created, moved and dropped by racing threads; the gauge is compared with the count of live guards",
 note="Sampled interleavings.", built=True)

# ---------------------------------------------------------------- ring buffers
prop("B01", "The in-memory log buffer yields whole records, in order, with honest accounting",
 """Records written to an in-memory log ring buffer come out in the order in which their space was reserved, each at
 most once and with exactly the bytes written, under any number of concurrent producers; a record is missing only
 because it was overwritten to make room. The reported counts of records and bytes written,
 overwritten and refused always agree with what went in, what came out and what is still stored. A record that cannot fit is refused
 with an error and disturbs nothing.""",
 ["schedules", "inputs", "histories"],
 "every interleaving of producers and a consumer, every buffer size and every sequence of record sizes, including ones that wrap or do not fit",
 "Unit tests place records by hand at chosen offsets; wraps, overwrites and concurrent reservations in all combinations are not covered.",
 ["bd-buffer/src/buffer/volatile_ring_buffer.rs", "bd-buffer/src/buffer/common_ring_buffer.rs"],
 [("reservations and commit order", "bd-buffer/src/buffer/common_ring_buffer.rs")],
 technique="runtime monitoring: model oracle over random histories, offline order/exactly-once/conservation checker over racing threads with injected delays",
 note="the intrusive list is a stand-in; sizes up to 8 KiB", built=True)

prop("B02", "The durable buffer preserves every unread record across an orderly restart",
 """After a durable ring buffer is closed and opened again on the same file, the records that were
 committed and not consumed, and only these, are read in order with identical bytes, over any number
 of restarts at any fill level and wrap position. Overwritten records are the oldest ones.""",
 ["histories", "inputs"],
 "every history of writes, reads and reopenings with any sizes",
 "Tests reopen a few hand-made layouts.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs"], [("control data and record CRCs in the mapped file", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 technique="runtime monitoring: model oracle over random histories with restarts on one file",
 note="one producer and one consumer, one thread; sizes up to 1 KiB", built=True)

prop("B03", "A kill at any instant leaves a durable buffer usable and uncorrupted",
 """If the process is killed at any instant while a durable ring buffer is written, read and overwritten,
 opening the file again succeeds or reports data loss without hanging, and every record then read is
 byte for byte one that was committed or being committed, in order. Unless data loss is reported (which only a kill inside
 a call may cause), records known to be committed before the kill and
 neither consumed nor overwritten are all still there; one whose reading had begun but not finished may be gone.""",
 ["crash_points"],
 "every kill instant, including during wraps and overwrites",
 "Tests simulate a few crash states by hand.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs"], [("ordering of control updates, CRC checks at open", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 technique="runtime monitoring: every store to the mapped file single-stepped, each resulting file state opened and judged; killed child processes",
 note="a kill is the loss of the process, not of the machine: stores are taken to reach the file in program order", built=True)

prop("B04", "A damaged buffer file never yields wrong data, a crash or a hang",
 """Whatever bytes of a durable buffer file are changed or cut off, opening and reading it never
 returns a record that was not written, crashes, hangs or touches memory outside the file mapping: damage is
 reported as data loss, and the buffer can then be recreated and used.""",
 ["fault_sequences", "inputs"],
 "every bit flip, overwrite and truncation of the file at any state",
 "Tests corrupt a few chosen fields.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs"], [("validation of control data and per-record CRC", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 technique="runtime monitoring: fault injection into files with a past, monitor on what is read, crash and hang detection",
 note="damage that keeps all CRCs right is only made by mixing states of the same file", built=True)

prop("B05", "Aggregate buffer moves records in order; flush and stop finish",
 """Records written to a buffer with an in-memory front and a durable back arrive at the consumer in
 order, once and intact; one that fits in memory but not in the file is dropped without disturbing others, and a consumer that goes
 away, also in the middle of a record, stops nothing. A flush returns only when everything completely written before it is
 durable or was overwritten to make room, or once a file that does not overwrite has been full and stalled for a second. Shutting down always finishes; in a buffer that overwrites, everything accepted is durable by then,
 and otherwise what there is no space for may stay behind.""",
 ["schedules", "histories"],
 "every interleaving of producers, the transfer thread, consumers, flushes and shutdown",
 "Tests run one producer with little data.",
 ["bd-buffer/src/buffer/aggregate_ring_buffer.rs"], [("transfer thread", "bd-buffer/src/buffer/aggregate_ring_buffer.rs")],
 technique="runtime monitoring: offline order/conservation checker over racing producers, consumer, flushes and shutdown with injected delays",
 note="schedules are sampled; sizes up to 28 KiB", built=True)

prop("B06", "Records read through a cursor are redelivered until acknowledged",
 """A cursor over a durable buffer hands out records in order without deleting them; each acknowledgement
 removes exactly the oldest unacknowledged one, and after a restart reading resumes at the first
 unacknowledged record, so no record is lost unread and none reappears after its acknowledgement.""",
 ["histories", "crash_points"],
 "every history of cursor reads, acknowledgements, writes and restarts",
 "Tests run one short sequence.",
 ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs"], [("cursor consumer", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
 technique="runtime monitoring: model oracle over random histories of cursor reads with restarts on one file",
 note="one thread; sizes up to 1 KiB; kills are in B03", built=True)

prop("B07", "Buffers are free of data races and invalid memory accesses",
 """Under any concurrent use through their interface the ring buffers never race on memory, never read or
 write outside their storage and never hand two producers overlapping space.""",
 ["schedules"],
 "every interleaving of producers, consumers, flushes and locks",
 "Tests run without sanitizers and with little concurrency.",
 ["bd-buffer/src/buffer"], [("raw slices guarded by reservations under a lock", "bd-buffer/src/buffer/common_ring_buffer.rs")],
 technique="runtime monitoring: ThreadSanitizer and AddressSanitizer over the racing workloads, overlap checker on record contents",
 note="schedules are sampled; accesses inside the pages of the mapped file are not bounds-checked by AddressSanitizer", built=True)

prop("B08", "The buffer manager reconciles configurations without touching what stays",
 """When a configuration of buffers is applied, exactly the buffers it names exist afterwards, and consumers are told of
 each that appears or goes by the time it is applied. Buffers that stay keep their contents; the files of those that were
 removed are deleted, a configuration that cannot be applied changes nothing else, and after a restart with the same
 one the contents are still there. A request to flush, also of buffers that do not exist, is always completed, and further
 ones are processed.""",
 ["histories", "fault_sequences"],
 "every history of configurations, writes, uploads, flush requests, damaged files and restarts",
 "Tests apply one or two configurations.",
 ["bd-buffer/src/ring_buffer.rs"], [("configuration updates and flush requests", "bd-buffer/src/ring_buffer.rs")],
 technique="runtime monitoring: model oracle over random histories of configurations, flush requests, damage and restarts",
 note="statistics of the manager are not judged", built=True)

# ---------------------------------------------------------------- client stats
prop("C01", "Client metrics lose no update between recording and upload",
 """Every increment and observation made on a client metric is contained in exactly one snapshot, whatever threads
 record while snapshots are taken, and merging snapshots adds counters and combines distributions
 without loss. Handles obtained for the same name and labels feed the same metric.""",
 ["schedules", "histories"],
 "every interleaving of recording, metric creation, snapshotting and merging",
 "Tests snapshot single-threaded metrics.",
 ["bd-client-stats-store/src/lib.rs"], [("snap of atomics and histograms", "bd-client-stats-store/src/lib.rs")],
 technique="runtime monitoring: a model of the collector, and conservation of what threads record while the real flusher takes snapshots under injected delays",
 note="single-threaded histories against a model; threads with signal-injected delays; a workload of last recordings aimed at the moment of the snapshot", built=True)

prop("C02", "Aggregated stats reach the server; retries carry one identifier",
 """Flushed statistics stay on disk until an upload was acknowledged, across restarts and failed uploads, and
 each retry carries the same identifier with the same content. In total what was acknowledged equals what was
 recorded, except what exceeds the configured limits, which is counted. A flush asked for and the shutdown are
completed also while an upload waits for the connection.""",
 ["histories", "fault_sequences", "crash_points"],
 "every sequence of recordings, flushes, acknowledgements, failures and restarts",
 "Tests follow a few upload scenarios.",
 ["bd-client-stats/src/stats.rs", "bd-client-stats/src/file_manager.rs"], [("pending upload and aggregation files", "bd-client-stats/src/file_manager.rs")],
 technique="runtime monitoring: an online conservation and exactly-once checker around the real flusher on a faulty in-memory file system",
 note="death before, after or in the middle of any file operation, and failing operations; time and ticks driven by the harness", built=True)

# ---------------------------------------------------------------- matching and workflows
prop("W01", "Log matchers decide as their definition says",
 """A workflow log matcher accepts a log exactly when the boolean combination of its conditions on level,
 type, message, fields and versions does, for any nesting; a condition on a missing or
 non-textual field is false, and a number is compared without its fraction and as the nearest of 32 bits.
 Invalid definitions are rejected when loaded and evaluation never fails or panics.""",
 ["inputs", "programs"],
 "every matcher tree over every log",
 "Tests enumerate single conditions on few values.",
 ["bd-log-matcher/src/matcher.rs"], [("matcher tree", "bd-log-matcher/src/matcher.rs")],
 technique="runtime monitoring: an independent evaluator judges every decision of the compiled matcher over generated trees and logs",
 note="Sampled trees and logs; regular expressions are judged with the regex crate itself, not-a-number texts are left open.", built=True)

prop("W02", "Version comparison is a consistent order",
 """Comparing version strings is total, reflexive, antisymmetric and consistent between the operators for any
 strings. Numeric parts of up to 32 bits compare as numbers with each other, all other pairs of parts compare as text, missing parts
 count as zero, and what follows the first hyphen or plus is ignored.""",
 ["inputs"],
 "every pair and triple of version strings",
 "Tests list fixed pairs.",
 ["bd-log-matcher/src/version.rs"], [("Version", "bd-log-matcher/src/version.rs")],
 technique="runtime monitoring: order laws and an independent comparison judge the real one over generated pairs and triples, all short ones included",
 note="Sampled versions; transitivity is only required of versions made of numbers, since the code compares a number with text as text.", built=True)

prop("W03", "A log goes to exactly the buffers whose filters accept it",
 """The set of buffers chosen for a log is exactly the set of configured buffers with at least one accepting
 filter, whatever else is configured. Invalid filters are rejected at configuration and evaluation never panics.""",
 ["inputs", "configurations"],
 "every buffer configuration and log",
 "Tests use a few filters.",
 ["bd-matcher/src/buffer_selector.rs", "bd-matcher/src/matcher.rs"], [("BufferSelector", "bd-matcher/src/buffer_selector.rs")],
 technique="runtime monitoring: an independent evaluator judges the set of buffers over generated configurations and logs",
 note="Sampled configurations and logs.", built=True)

prop("W04", "Log filters transform matching logs in order and leave others alone",
 """Filters apply in configuration order, each to the outcome of those before it, and only to logs its condition accepts:
 capturing moves a field from matching to captured, setting leaves an existing field of any kind of value alone unless it may override, removing
 deletes it everywhere, and pattern substitution rewrites only the named field. Invalid filters are
 skipped as a whole and counted, without affecting the valid ones.""",
 ["inputs", "programs"],
 "every chain of filters over every log",
 "Tests check transforms one at a time.",
 ["bd-log-filter/src/lib.rs"], [("FilterChain::process", "bd-log-filter/src/lib.rs")],
 technique="runtime monitoring: an independent interpreter of filter chains judges the resulting log over generated chains and logs",
 note="Sampled chains and logs; the position of a field in its list is not judged.", built=True)

prop("W05", "Workflows advance and fire exactly as their state machine prescribes",
 """For every sequence of logs each workflow is in the states its configuration prescribes, and its
 actions (buffer flush, metric, screenshot, journey) fire exactly when the transition carrying them is taken,
 respecting required match counts, exclusive or parallel execution and the configured limits.""",
 ["programs", "histories"],
 "every set of workflow configurations and every log sequence",
 "Tests step a few hand-written workflows.",
 ["bd-workflows/src/workflow.rs", "bd-workflows/src/engine.rs"], [("traversals and runs", "bd-workflows/src/workflow.rs")],
 technique="runtime monitoring: the workflows engine under generated configurations and logs on a paused clock, compared online with a model after every log",
 note="an executable model of workflows is stepped with every log; destinations, actions, metrics, diagram requests and upload intents have to agree; the server's answers are generated", built=True)

prop("W06", "Workflow progress survives restarts and never survives the session",
 """Changed state is written when asked for and at the configured intervals, and a process that starts later continues from the state
 last written (or the one before, or none, if the write was cut off) for workflows still configured unchanged, with progress that fits no definition
 and buffers that are gone dropped. An undecodable state file is discarded and none makes starting or logs panic. A change of session resets all progress.""",
 ["histories", "crash_points", "configurations"],
 "every log sequence with restarts, configuration changes, session changes and failing writes anywhere",
 "Tests persist one workflow.",
 ["bd-workflows/src/engine.rs"], [("StateStore", "bd-workflows/src/engine.rs")],
 technique="runtime monitoring: the workflows engine over generated restarts with faults injected into its file operations, compared online with the set of model states it may be in",
 note="file operations fail or stop reaching the disk at planned points (interposed libc); state files are truncated, overwritten and filled with noise", built=True)

# ---------------------------------------------------------------- transport and control plane
prop("T01", "Framed messages decode to what was encoded under any chunking, or fail cleanly",
 """Any sequence of messages encoded with or without compression decodes to the same sequence however the bytes are
 cut into chunks. Corrupt or malicious input yields an error without panic or unbounded
 memory, and does not affect the decoding of any other stream.""",
 ["inputs", "schedules"],
 "every message sequence, every chunking, every corruption and every interleaving of streams on a thread",
 "Tests encode a few messages in whole chunks.",
 ["bd-grpc-codec/src/lib.rs"], [("Encoder, Decoder", "bd-grpc-codec/src/lib.rs")],
 technique="round-trip oracle over streams cut into chunks and interleaved on one thread and on several, byte damage, allocation counting",
 note="Encoders and decoders of every compression run on generated messages; damaged streams are decoded beside whole ones, which must not notice. A counting allocator bounds memory by the bytes received.", built=True)

prop("N01", "A gRPC call ends with the handler's answer or status, or an error, in time",
 """A unary call of the gRPC client, under any compression, reaches the handler of exactly that method, once and with the message
 and headers that were sent, and returns the handler's message unchanged or the status it failed with, code and text, whatever
 characters the text has; no more calls than the client's limit are in flight at once. A request that is not exactly one well-formed,
 valid message never reaches the handler and is refused with an error; an answer that is not one message, ends in an error status,
 is an HTTP error, breaks off or stalls gives an error, never a wrong message, within the call's timeout. Each failed request is
 counted and given to the error handler once.""",
 ["inputs", "schedules", "fault_sequences"],
 "every message, header, compression, status and text, every concurrent set of calls, every split, delay and cut of the connection, and every malformed request or answer",
 "The unit tests make single calls with one message and one short status over a faultless connection.",
 ["bd-grpc/src/lib.rs", "bd-grpc-codec/src/lib.rs"],
 [("unary calls: compression, timeout, reading the answer", "bd-grpc/src/lib.rs Client::unary, Client::common_request"),
  ("requests read, handled and answered", "bd-grpc/src/lib.rs decode_request, unary_handler, make_unary_router"),
  ("statuses as headers", "bd-grpc/src/lib.rs Status, Code")],
 technique="runtime monitoring: a model of the protocol judges every result, handler call, count and answer of the real client and router over loopback HTTP/2 with a splitting, delaying and cutting proxy, scripted answers and malformed requests",
 note="Sampled calls over real HTTP/2; the reflective validator and the service descriptors are stand-ins.", built=True)

prop("N02", "gRPC streams deliver every message in order and end as they were ended",
 """What is sent on a gRPC stream in either direction is read complete, in order and unchanged, under any compression that was agreed
 on and any split into frames, and then the stream ends as the handler ended it: cleanly, or with its status, code and text. Reading stops while the
 stop flag is set and loses nothing; a connection that breaks gives the messages before the break and then an error; when the reader
 leaves, the handler's next sends fail. Each stream counts as begun once and as succeeded or failed once, with its messages and
 bytes, and a failure is given to the error handler once.""",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every sequence of messages, ends, stops, splits into frames, compressions, cuts and departures",
 "The unit tests send one or two messages, one error text and one stop sequence over a faultless connection.",
 ["bd-grpc/src/lib.rs", "bd-grpc-codec/src/lib.rs"],
 [("reading a stream, stops, trailers", "bd-grpc/src/lib.rs ServerStreamingApi::next"),
  ("sending and ending a stream", "bd-grpc/src/lib.rs StreamingApiSender, server_streaming_handler")],
 technique="runtime monitoring: streams of the real client and router over loopback HTTP/2 with a splitting, delaying and cutting proxy are compared with what was sent; a reader polled by hand is judged poll by poll by a model",
 note="Sampled streams over real HTTP/2 and hand-polled histories of stops, frames and abandoned reads.", built=True)

prop("N03", "The gRPC server loop counts its connections and finishes requests at shutdown",
 """The accept loop counts every accepted connection once and shows as active exactly those that are open, and handlers see the
 address of their own caller. Once told to stop it takes no new connections, closes idle ones, lets every request that is being
 handled finish with its full answer, and returns only then, with no connection active.""",
 ["schedules", "histories"],
 "every set of HTTP/1 and HTTP/2 connections, idle, busy or gone, at the moment of the stop",
 "The repository's tests never run this loop.",
 ["bd-grpc/src/axum_helper.rs"],
 [("accept loop with graceful shutdown", "bd-grpc/src/axum_helper.rs serve_with_connect_info_ex")],
 technique="runtime monitoring: lives of the real server loop over loopback connections, with counts, answers and the return judged against the connections and requests made",
 note="Sampled sets of connections over real sockets.", built=True)

prop("N04", "The native transport carries each stream whole and ends when it is stopped",
 """What the client sends on a stream of the native network transport reaches the server in order, on that stream alone, complete if
 the server reads it all; what the server sends before it ends the stream reaches the client, whatever both have under way, and neither direction waits for the other.
 A refused or broken connection, an HTTP error, an error status and each other end are reported by one close, after which nothing of the stream is seen and the next one can begin;
 a shutdown ends the transport in any state, and who still sends is given an error.""",
 ["schedules", "histories", "fault_sequences"],
 "every sequence of streams, sizes and splits of messages, bursts either way, ends, cuts and moments of the shutdown",
 "The one unit test sees a connection refused.",
 ["bd-hyper-network/src/lib.rs"],
 [("streams of the transport", "bd-hyper-network/src/lib.rs HyperNetwork::start, process_stream"), ("the client's side", "bd-hyper-network/src/lib.rs Handle")],
 technique="runtime monitoring: lives of the real transport over loopback HTTP/2 with a splitting, delaying and cutting proxy and a scripted server, what either side received compared with what was sent, every wait bounded",
 note="Plain connections: the TLS connector is a stand-in. The client plays bd-api's part, one task that sends or takes events.", built=True)

prop("V01", "A message is valid exactly if it keeps every rule of its schema, at any depth",
 """Validation accepts a message exactly if each rule of its schema holds on it and on every message inside of it, in fields, lists and maps: required messages and
 oneofs, constant booleans, defined enum values, lower bounds of integers and durations, lengths of strings in characters, least sizes of lists.
 A rule that the validator does not know how to check is an error for what it would apply to, and not passed over.""",
 ["inputs"],
 "every schema and every message of it, with values at and around each bound",
 "The unit tests hold each rule against two or three values of one fixed message.",
 ["bd-pgv/src/proto_validate.rs"],
 [("validate", "bd-pgv/src/proto_validate.rs validate, validate_field")],
 technique="runtime monitoring: the real validator on generated schemas and messages, its verdict compared with an evaluation of the rules made along with the message",
 note="Reflection is a stand-in with the presence rules of proto3. Options to skip or disable validation, and rules on wrapper types, are left out.", built=True)

prop("T02", "The API client reconnects with growing delay and resolves each upload once",
 """Every upload or intent handed to the API client is answered exactly once, by its server
 acknowledgement or as failed by the time a lost stream is replaced. Reconnection delay grows while failures repeat,
 never beyond the configured maximum, and returns to the start only after a minute's connection or a changed setting; a ping is sent
 the agreed interval after the handshake and after each pong; a client told to stop stays stopped for the period given, across restarts; no server message makes the client panic.""",
 ["fault_sequences", "histories"],
 "every sequence of server messages, disconnects, timeouts and uploads",
 "Tests script a few exchanges.",
 ["bd-api/src/api.rs", "bd-api/src/upload.rs"], [("stream loop and state tracker", "bd-api/src/api.rs")],
 technique="trace oracle over scripted servers, uploads, kills and restarts on a paused clock",
 note="The real client runs against a fake platform network; every frame, stream start, answer and its time is compared with a model of reconnection, pings, kill file and cached runtime.", built=True)

prop("T03", "A runtime configuration that crashes the process is abandoned after a few starts",
 """Cached server configuration is applied at start, at most six consecutive starts without being marked safe,
 and is then discarded together with its files; marking it safe restores the full allowance. A corrupt or partial
 cache is discarded, and values read always come from one configuration, with defaults for what it lacks.""",
 ["histories", "crash_points", "fault_sequences"],
 "every history of updates, starts, crashes, safe marks and file damage",
 "Tests run one crash loop.",
 ["bd-runtime/src/runtime.rs", "bd-client-common/src/file.rs"], [("retry count file", "bd-runtime/src/runtime.rs ConfigLoader")],
 technique="set-of-states oracle over starts, deaths at any interposed file operation, faults and damage; readers during updates under jitter",
 note="File functions of libc are interposed to stop, tear or fail any operation; the applied configuration must be explained by a state the cache may be in.", built=True)

# ---------------------------------------------------------------- logger pipeline
prop("G01", "The log queue never exceeds its memory bound and loses only what it reports",
 """The bounded queue between application threads and the logger never holds more than its capacity in messages or bytes;
 a send is refused only when it, with what is held and other sends under way, would exceed it. Accepted messages are
 received once, in order per sender; a message counts as no less than what it carries, and its space is returned when it
 is received. Once the receiver is gone sends are refused, and no message is kept alive.""",
 ["schedules", "inputs"],
 "every interleaving of senders and the receiver with any message sizes",
 "Tests fill the queue from one thread.",
 ["bd-logger/src/memory_bound.rs"], [("memory reservation", "bd-logger memory bound channel")],
 technique="online model of one thread's queue; interval oracle over recorded operations of racing senders under injected delays",
 note="Racing rounds record each operation's interval; a refusal must be possible, an acceptance must be admissible, and the emptied queue must take exactly its limits.", built=True)

prop("G02", "Uploads are rate limited per period and batches retried within bounds",
 """No more than the configured amount of log data starts uploading per period, except one oversized batch per
 period. A batch is retried with the same identifier until acknowledged or its retry limit is reached, and each
 batch ends as exactly one of uploaded or dropped.""",
 ["histories", "fault_sequences"],
 "every sequence of batch sizes, clock steps, acknowledgements and failures",
 "Tests fail a batch once or twice.",
 ["bd-logger/src/ratelimit.rs", "bd-logger/src/service.rs"], [("retry policy", "bd-logger/src/service.rs")],
 technique="offline oracle over recorded attempts, results, waits and counters of the real upload service on a paused clock with a scripted server",
 note="The rate limit applies to a batch's first attempt; retries are not limited by it.", built=True)

prop("G03", "Every accepted log reaches its buffers once, in order, from the first call on",
 """Logs recorded from any thread before or after the configuration arrives reach each buffer selected for them exactly
 once, in order, with the fields, session and time of their recording; those held back before configuration
 are processed before later ones, and the excess over the holding limit is dropped. A blocking log returns only once it is processed
and the buffers that hold it were flushed, and a log that begins an upload is part of that upload.""",
 ["schedules", "histories"],
 "every interleaving of logging threads, configuration updates, flushes and shutdown",
 "Integration tests follow single scenarios.",
 ["bd-logger/src/async_log_buffer.rs", "bd-logger/src/pre_config_buffer.rs"], [("AsyncLogBuffer", "bd-logger/src/async_log_buffer.rs")],
 technique="offline judgement of recorded histories of the whole logger pipeline under racing threads",
 note="1-4 logging threads against the real AsyncLogBuffer, pipeline, buffers and configuration code with injected delays, configuration updates, flushes, streams, redirecting workflows and shutdown; every call, processing, flush and record on one clock is judged offline", built=True)

prop("G04", "Batched upload delivers every buffered log and acknowledges only what was sent",
 """Logs in a continuous buffer are uploaded in order, in batches within the size and count limits or at the deadline, and
 are removed only once their batch was acknowledged or finally dropped: what a shutdown interrupts is sent again. A
 trigger upload covers what its buffers held, nothing twice, and is answered at its end; configuration updates and
 shutdown never wait for the server.""",
 ["histories", "fault_sequences"],
 "every sequence of writes, uploads, failures, triggers and restarts",
 "Tests follow single batches.",
 ["bd-logger/src/consumer.rs"], [("BufferUploadManager", "bd-logger/src/consumer.rs")],
 technique="offline oracle over the recorded writes, attempts, answers and responses of the real buffer and upload managers on a paused clock",
 note="Buffers stay below their capacity; a trigger upload that a shutdown interrupts may lose the batch at hand, and no more.", built=True)

prop("G05", "What the application logs reaches the server once, over outages and restarts",
 """Over any sequence of lives of the process, ended orderly or by a kill, and whatever the network does, every log and counted
 metric the logger owes the server (accepted while a configuration is in force; across a kill, flushed) arrives there: in order, and in two
 batches only if a life ended before the first one's answer could be taken note of. Calls of the application never wait for the server, every shutdown ends (one that
 waits, only once nothing is processed anymore), what the logger's own callbacks log is dropped, and each handshake states the device, configuration and runtime last acknowledged.""",
 ["histories", "crash_points", "fault_sequences", "schedules"],
 "every sequence of logs, sessions, flushes, outages, refusals, configuration changes, shutdowns and kills",
 "Tests run one life of the logger against one fixed script of the server.",
 ["bd-logger/src/builder.rs", "bd-logger/src/logger.rs", "bd-logger/src/client_config.rs", "bd-api/src/api.rs"],
 [("LoggerBuilder::build", "bd-logger/src/builder.rs"), ("Logger, LoggerHandle, shutdown", "bd-logger/src/logger.rs"),
  ("Config", "bd-logger/src/client_config.rs"), ("Api", "bd-api/src/api.rs")],
 technique="offline oracle over the recorded calls, shutdowns, handshakes, uploads and answers of the whole logger over several lives, some of them processes that are killed",
 note="The whole SDK as built by its builder, in real time, against a server that refuses, delays, goes silent and forgets; buffers that fill up are only judged for calls and shutdowns that end.", built=True)

prop("G06", "A configuration applies as a whole or not at all, and again at the next start",
 """A configuration the client refuses is answered with its version and changes nothing: not the buffers or what they hold, not where logs
 go, not the streams, filters, workflows, handshake version or cache. One it applies is acknowledged, in force for every later log, cached, and
 applied at the next start before the server is reached, where an unreadable cache is discarded. Single stream conditions, filters and workflows that are invalid are left out (the first two
 counted) while the rest is in force.""",
 ["inputs", "histories"],
 "every sequence of valid and invalid configurations, switches, logs, restarts and damaged caches",
 "Tests apply one valid and one invalid configuration.",
 ["bd-logger/src/client_config.rs", "bd-buffer/src/buffer_manager.rs", "bd-logger/src/log_replay.rs"],
 [("Config, LoggerUpdate", "bd-logger/src/client_config.rs"), ("ProcessingPipeline::update", "bd-logger/src/log_replay.rs"),
  ("Manager::update_from_config", "bd-buffer/src/buffer_manager.rs")],
 technique="model-based online checking of the real configuration code, buffer manager and log pipeline over several lives",
 note="Answers, handshake version, cache file, buffers, their files, counters, streams and records are compared with a model after each step; the files of buffers that only a refused configuration named may stay.", built=True)

prop("G07", "Collectors ask the application exactly when they are enabled and due",
 """While enabled, resource and screen reports are asked for at once and then one interval after the other, with changed switches and intervals in force
 at once and nothing asked for while disabled or after shutdown, whatever interval the server sets. Every log that fires screenshot actions of workflows makes one request; each request is accounted for once, and none is passed on before the
 previous screenshot was received. The events listener is started and stopped in turn, as its switch says.""",
 ["histories", "schedules", "inputs"],
 "every sequence of switch and interval changes, requests, screenshots and restarts of the collector's task",
 "Tests wait in real time for a few ticks with one interval.",
 ["bd-resource-utilization/src/lib.rs", "bd-session-replay/src/lib.rs", "bd-events/src/lib.rs"],
 [("Reporter", "bd-resource-utilization/src/lib.rs"), ("Recorder, CaptureScreenshotHandler", "bd-session-replay/src/lib.rs"), ("Listener", "bd-events/src/lib.rs")],
 technique="model-based online checking of the real collectors on a paused clock, and conservation monitors under racing threads",
 note="Every call to the application is compared by the millisecond; the tasks are dropped and started again as the logger does.", built=True)

prop("G08", "Traffic, log counts and the offline mark are added to the logs they belong to",
 """Every byte count of an HTTP response is part of exactly one period between resource logs, and once a minute has passed each resource log carries the sums of
 the periods that began within the last minute. With periodic internal logging it also carries how many logs of each type there were since the previous one and
 in total, none lost or counted twice. Logs recorded while offline are marked, except those the SDK makes, and a response with a status means online.""",
 ["histories", "schedules"],
 "every sequence of logs, clock steps and states of the network",
 "Tests follow one series of logs at one rate.",
 ["bd-logger/src/network.rs", "bd-logger/src/internal_report.rs"],
 [("HTTPTrafficDataUsageTracker, NetworkQualityInterceptor", "bd-logger/src/network.rs"), ("Reporter", "bd-logger/src/internal_report.rs")],
 technique="model-based online checking of the real log interceptors under generated logs and clocks, and conservation under racing threads",
 note="Every field added to every log is compared with sums recomputed from the history.", built=True)

prop("G09", "What a blocking flush or a blocking log has seen survives a kill",
 """A blocking log returns once the log is in its buffers and the progress it gave to the workflows is stored; a blocking flush of the state returns once the progress of the
 workflows and the session with its last activity are stored and the metrics and the buffers have answered. A kill after that, at any instant, loses none of it: the next start
 continues the same session if it is still due, and each workflow fires after exactly the logs that were still missing; what was not yet safe is there entirely or not at all.""",
 ["histories", "crash_points"],
 "every history of logs, sessions, flushes, clock steps and kills, for every interval of persistence",
 "Tests flush once and look at one file; none goes on from what is left after a kill.",
 ["bd-logger/src/async_log_buffer.rs", "bd-logger/src/log_replay.rs", "bd-workflows/src/engine.rs", "bd-session/src/activity_based.rs"],
 [("FlushState", "bd-logger/src/async_log_buffer.rs"), ("maybe_persist", "bd-logger/src/log_replay.rs"), ("StateStore", "bd-workflows/src/engine.rs"), ("Strategy::flush", "bd-session/src/activity_based.rs")],
 technique="the real logger killed and started again, judged online by a model that tracks every progress and session that may be found after a kill",
 note="Sampled histories; a life ends with its runtime, so writes that were begun are finished.", built=True)

prop("E01", "Unexpected errors are each reported once up to the limit, and counted beyond it",
 """Each unexpected error is handed once, with its description, details and context, to the reporter of its thread or else the current one, until five were in this process or reporting is disabled; each
 further one is counted and its details are never computed. Errors of racing threads, and errors of the reporter itself, neither
 get lost nor block.""",
 ["histories", "schedules"],
 "every sequence of errors, reporters and counters, from any threads",
 "Tests report one error.",
 ["bd-client-common/src/error.rs"], [("UnexpectedErrorHandler, MetadataErrorReporter", "bd-client-common/src/error.rs")],
 technique="model-based online checking and conservation under racing threads, in a process of its own per history",
 note="The limit is per process, so each history runs in its own.", built=True)

prop("F01", "Encoded logs decode to exactly the log that was recorded",
 """The binary encoding of a log written to the buffers decodes, by the published schema, to the same level, type,
 message, fields (text or bytes, in order), session, time, stream and action identifiers for every log, and any
 encoding is accepted by the schema verifier.""",
 ["inputs"],
 "every log",
 "Tests decode a few fixed logs.",
 ["bd-logger/src/log_replay.rs", "bd-proto/src/flatbuffers"], [("flatbuffer encoding", "bd-logger log serialization")],
 technique="runtime monitoring: differential decoding of every encoded log by an independent schema decoder and the published verifier",
 note="The bytes are produced by the real encoder through the buffer pipeline; the decoder is written from the schema, not from generated code.", built=True)

prop("F02", "Timestamps and durations convert without loss and round in the stated direction",
 """Conversions of times to and from their wire form preserve the instant for the whole supported range, and
 rounding a time down or up to an interval gives the nearest multiple not after or not before it.""",
 ["inputs"],
 "every instant, duration and interval",
 "Tests use a few instants.",
 ["bd-time/src/lib.rs"], [("floor, ceil, proto conversions", "bd-time/src/lib.rs")],
 technique="integer-arithmetic oracle over generated instants, durations, intervals and timers on a paused clock",
 note="Every conversion and rounding is recomputed in 128-bit nanoseconds; timers are timed on tokio's paused clock.", built=True)