#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the ids, texts and anchors are edited in one place)."""
import json, os
SRC = "crates/cfg-noodle/src/"
SL, SN, FL, WT, LB = (SRC + f for f in ("storage_list.rs", "storage_node.rs", "flash.rs", "worker_task.rs", "lib.rs"))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "An acknowledged flush survives power loss at any later moment",
  "Once a flush has reported success, the flushed values are what a reboot loads, wherever in any later flush, garbage collection or read the power is cut, including in the middle of a single storage write or erase. The only other permitted outcome is the complete set of values of a later flush that was in progress; older values or defaults never come back.",
  ["crash_points", "histories"], "every power-cut position (each storage element operation; on NOR flash each word of each write and several positions inside each erase), one or two cuts per history, over histories of several flush/collect cycles including page wrap-around",
  "The integration tests load hand-made flash images and cut no operation short; one interrupted-write image is sampled.",
  [SL, FL], [("write record framing Start/Data/End with CRC", SL+": write_to_flash"), ("scan for the newest valid record", SL+": get_or_populate_latest"), ("GC keeps the newest records", SL+": process_garbage")],
  [("last_records", "newest valid records and where they are", SL+": SeqState")], ["values loaded by a fresh list over the surviving storage"])
p("C02", "A reboot always restores one complete flushed snapshot, never a mixture",
  "The set of values loaded after a restart is exactly the set captured by one single flush: every key has its value from that flush, no key is missing and none comes from another flush. This holds whatever sequence of flushes, collections, failures and power cuts led there.",
  ["crash_points", "histories", "fault_sequences"], "all cut points and storage faults over multi-key histories where every flush changes several keys",
  "Tests compare single values after clean shutdown; no test has two keys changed together and an interruption between them.",
  [SL], [("record only counts if Start..End is uninterrupted and CRC and sequence match", SL+": get_or_populate_latest"), ("hydration is limited to the chosen record", SL+": extract_all")], (), ["all keys loaded by a fresh list"])
p("C03", "After power loss the service recovers by itself and accepts new data",
  "From any storage state left by power loss during normal operation (including loss during the very first flush and repeated loss during recovery), a restart that loads, collects garbage and flushes succeeds in every step without outside help. The values flushed after recovery are then durable like any other.",
  ["crash_points", "histories"], "every cut point of a first boot, flush and collection, and every pair of cut points where the second falls in the recovery",
  "No test performs a flush after recovering from an interrupted one on a storage without valid records.",
  [SL, FL], [("left-over partial records are collected before the next flush", SL+": process_garbage"), ("needs-GC decision after scan", SL+": insert_good/get_or_populate_latest")],
  [("needs_gc", "collection required before next flush", SL+": SeqState")], ["results of process_reads/process_garbage/process_writes after reboot"])
p("C04", "Garbage collection keeps exactly the newest valid records",
  "A completed collection leaves in storage exactly the newest K valid write records (K being the configured retention count, or all if fewer exist), unmodified and in order, and nothing else. Every other element - older records, partial or corrupt records, unreadable elements - is removed.",
  ["inputs", "histories", "configurations"], "all storage contents of a bounded number of records (valid, partial, corrupt, out of order, stray elements) and K in 1..4, plus contents produced by operation histories",
  "Tests check a handful of hand-made layouts, all with the default retention count or one.",
  [SL], [("range check per element", SL+": process_garbage last_records_contain"), ("ordering of kept records", SL+": insert_good")], [("last_records", "kept ranges", SL+": SeqState")], ["storage contents after process_garbage"])
p("C05", "Interrupted garbage collection loses nothing and can be completed later",
  "If a collection is stopped at any point by a storage error, by cancellation or by power loss, every record it was to keep is still intact and the newest values still load. A later collection completes the work and flushing is possible again, without needing any new node to be attached.",
  ["fault_sequences", "crash_points"], "every element operation of a collection failing (with or without having taken effect), being cancelled or being the last before power loss; up to two interruptions",
  "Tests only run collections that complete.",
  [SL], [("cache invalidation and re-scan around collection", SL+": process_garbage"), ("gating of flushes", SL+": process_writes")], [("seq_state", "scan cache", SL+": StorageListInner")], ["storage contents; results of later calls"])
p("C06", "A corrupted newest record falls back to the next newest intact one",
  "When elements of stored records become unreadable or damaged, a restart loads the newest record that is still completely intact, and only falls back to defaults if none is left. After at least K flush-and-collect cycles, any K-1 damaged records still leave the newest undamaged one loadable.",
  ["fault_sequences", "inputs", "configurations"], "every subset of stored records damaged, each at every element position by removal, unreadability, bit damage or truncation, for K in 1..4",
  "Tests corrupt one fixed position.",
  [SL], [("CRC and framing validation", SL+": get_or_populate_latest"), ("several records retained", SL+": insert_good")], (), ["values loaded after damage"])
p("C07", "Any storage content loads as its newest well-formed record, or as empty",
  "For any sequence of stored elements (sequence numbers below the 32-bit maximum), loading selects the well-formed record (start, data items, end with matching sequence number and checksum, uninterrupted) with the highest sequence number, ignoring everything else, and never fails or panics because of malformed content. Loading, collecting and flushing afterwards work and preserve that record until it is superseded.",
  ["inputs"], "all sequences up to a bounded length over an alphabet of start, data, end, wrong-checksum, wrong-sequence and unreadable elements, with sequence numbers in any order",
  "Tests load about six hand-written layouts.",
  [SL, FL], [("scan state machine", SL+": get_or_populate_latest")], (), ["values loaded; storage after collection and flush"])
p("C08", "Transient storage errors lose nothing and leave the service usable",
  "When any storage operation fails, with or without having taken effect, the failing call reports an error, values held in memory and the newest durable values are unaffected, and unflushed changes stay pending. Once storage works again, retrying load, collect and flush succeeds, loads the newest durable values into waiting nodes and makes all pending changes durable.",
  ["fault_sequences", "histories"], "every placement of one or two (thorough: three) failing storage operations in histories of load, write, flush and collect",
  "Tests force an error only on the very first storage access.",
  [SL], [("state committed only on success", SL+": process_reads/process_writes/process_garbage")], [("seq_state", "scan cache", SL+": StorageListInner")], ["call results, values, storage contents"])
p("C09", "Cancelling a load, flush or collection at any point is harmless",
  "Dropping an unfinished load, flush or collection at any suspension point never loses or alters durable or in-memory values, never marks unflushed changes as flushed and never blocks other users of the list. Repeating the operations afterwards succeeds as if the cancelled call had been interrupted by an error.",
  ["schedules", "histories"], "every suspension point of every call in a bounded history, up to two (thorough: three) cancellations",
  "No test cancels an operation midway.",
  [SL, LB], [("async mutex released on drop", SL+": inner.lock()"), ("state committed only on success", SL)], (), ["call results, values, storage contents"])
p("C10", "A flush is only acknowledged if the stored data reads back correctly",
  "If what storage holds after a flush differs from what was to be written - an element silently dropped, duplicated, altered, or replaced - the flush reports failure instead of success and the changes remain pending. A later flush on working storage then makes them durable.",
  ["fault_sequences", "inputs"], "every single silent corruption (drop, duplicate, byte change at each position, unreadable) of every element written by a flush, thorough: pairs; over lists of 0..3 keys",
  "Tests have no storage that misbehaves silently.",
  [SL], [("read-back verification of sequence, count and CRC", SL+": verify_list_in_flash")], (), ["result of process_writes versus reference parse of storage"])
p("C11", "A flush writes each loaded node once when needed and nothing otherwise",
  "A flush with no unflushed change and at least one stored record does not touch storage; a flush with changes appends exactly one record holding every loaded node of the list exactly once with its current value. Loading never writes or removes stored elements.",
  ["histories", "programs"], "all bounded sequences of attach, write, release, detach, load, flush and collect over several nodes, compared with a reference model after each step",
  "Tests count some writes in one linear scenario.",
  [SL, SN], [("dirty state per node", SN+": State"), ("needs_writing", SL+": needs_writing")], [("state", "node state", SN+": NodeHeader")], ["device operation log per call"])
p("C12", "Flush and collect are gated on a completed load and collection",
  "A flush before a completed load (at start-up, after a cache reset, or while a newly attached node has not been loaded) is refused as needing a load, and a flush when collection is due is refused as needing collection; refused flushes leave storage and pending changes untouched. A collection is due after the first load since start-up or reset if it finds stored content, after each flush that wrote, and after a flush or collection that did not complete; one that is not due does nothing.",
  ["histories"], "all bounded sequences of attach, write, load, flush, collect, reset from all reachable states, against a reference state machine",
  "Tests follow the happy order.",
  [SL], [("next_seq/needs_gc checks", SL+": process_writes"), ("needs_writing Initial check", SL+": needs_writing")], [("needs_gc", "collection due", SL+": SeqState")], ["call results and device log"])
p("C13", "Every node gets the value stored under exactly its own key, else its default",
  "After a load each node holds the value of its own key from the newest record if that value decodes as the node's type, and otherwise the default supplied when attaching; other keys, similar keys, and undecodable values of other nodes have no influence. Nodes that already hold a value are never changed by a load.",
  ["inputs", "configurations"], "all assignments of stored keys (equal, prefix, empty, non-ASCII, length-encoding boundary lengths), value shapes and orders to attached nodes and node types",
  "Tests use a few short keys of similar length and one type.",
  [SL, SN, LB], [("key lookup", SL+": find_node"), ("key/value split", LB+": kv_pair"), ("typed decode", SN+": deserialize")], (), ["handle.load() per node"])
p("C14", "A handle always reads back its last write",
  "Through a live handle, reading returns the value most recently written through it, or, before any write, the value loaded or defaulted at attach. No load, flush, collection, cache reset, failure or cancellation ever changes what the handle reads.",
  ["histories", "fault_sequences", "schedules"], "all bounded interleavings of handle writes and reads with worker calls, with faults and cancellations",
  "Tests read back once after each write with an idle worker.",
  [SN, SL], [("value only replaced by write under the list lock", SN+": write"), ("hydration restricted to unloaded nodes", SL+": extract_all")], (), ["handle.load()"])
p("C15", "Attach and detach follow the ownership protocol exactly",
  "A node can be attached to one list at a time and has at most one live handle; an attach or detach that would break this, or that reuses a key present in the list, is refused with the documented error and changes nothing. Dropping the handle - or dropping an attach that has not finished - makes the node attachable and detachable again.",
  ["programs", "histories"], "all bounded sequences of attach, cancelled attach, handle drop, detach and load over several nodes (some with equal keys) and two lists, against a reference model",
  "Tests cover five fixed sequences.",
  [SN], [("taken_for_list pointer with handle bit", SN+": attach_with_default/detach/Drop")], [("taken_for_list", "owning list and handle flag", SN+": StorageListNode")], ["result of each call; list membership through flushed records"])
p("C16", "Releasing keeps a value, detaching forgets it, re-attaching loads afresh",
  "After a handle is released the node keeps its current value and pending change, takes part in flushes, and a new handle sees that value. After a detach the node takes no part in any later load or flush, its unflushed change is discarded, and attaching it again (to this or another list) yields what that list's storage then holds or the default.",
  ["histories"], "all bounded sequences of write, release, attach, detach, load, flush, collect over two nodes with same or different keys and two lists with their own storages",
  "Tests do one release/re-attach and one detach/re-attach.",
  [SN, SL], [("detach resets state and unlinks", SN+": detach"), ("re-attach path", SN+": attach_with_default")], (), ["handle.load(), flushed records"])
p("C17", "Every stored value is constructed before use and dropped exactly once",
  "Over any sequence of attach, load, write, release, detach and failed decode, each value object placed in a node is dropped exactly once when replaced or detached (or is still held by the node), and no value is ever read, cloned, encoded or dropped before having been initialised or after having been dropped.",
  ["histories", "fault_sequences"], "all bounded operation sequences with an instrumented value type that registers every construction, use and drop, including failing decodes and cancelled calls",
  "Tests use plain-data types for which leaks and double drops are invisible.",
  [SN, SL], [("MaybeUninit handling per state", SN+": write/detach/deserialize/attach")], [("t", "value cell", SN+": Node")], ["construction/drop ledger"])
p("C18", "No wake-up is lost: every attach completes and every write is signalled",
  "In every interleaving of attaching and writing threads with a worker that acts only on the need-load and need-flush signals, every attach eventually completes and every written value is eventually flushed; no thread waits forever. This also holds when several nodes attach at once or while a load is in progress.",
  ["schedules"], "all thread interleavings within a preemption bound of 2-3 user threads and one worker thread",
  "Tests run one cooperative interleaving on a single-threaded executor.",
  [SN, SL], [("wake under lock and wait_for_value", SN+": attach_with_default"), ("reading_done", SL+": process_reads"), ("needs_write wake", SN+": write")], [("needs_read/needs_write/reading_done", "wait queues", SL+": StorageList")], ["deadlock detection; stored values at quiescence"],
  "yield points at the atomic accesses of node state and ownership")
p("C19", "Concurrent writes are never torn, lost or marked flushed without being stored",
  "In every interleaving of writes, reads and worker calls on different threads, each flushed record contains for every node a whole value that was current at some moment during that flush, reads return whole values, and a change made during a flush is either in that flush or still pending. After the last flush with no further writes, storage equals memory.",
  ["schedules"], "all thread interleavings within a preemption bound of writer, reader and worker threads, with preemption inside value clone, encode and decode",
  "Tests never run a write while a flush is in progress.",
  [SN, SL], [("list lock around value access", SN+": write"), ("state update under lock", SL+": process_writes")], [("state", "dirty state", SN+": NodeHeader")], ["records flushed; handle reads"],
  "yield points at the atomic accesses of node state and ownership")
p("C20", "Ownership stays exclusive under concurrent attach, release and detach",
  "When several threads attach, release and detach the same nodes (or nodes with the same key) on the same or different lists, at most one handle per node exists at any time, a list never holds two nodes with one key, and every call's result is one it could have had if the calls had run one after another.",
  ["schedules"], "all thread interleavings within a preemption bound of 2-3 threads with one or two calls each",
  "Tests never race these calls.",
  [SN], [("atomic take of the node", SN+": attach_with_default"), ("CAS in detach", SN+": detach"), ("bit clear on drop", SN+": Drop")], [("taken_for_list", "owner and handle flag", SN+": StorageListNode")], ["call results; live handle count"],
  "yield points at the atomic accesses of node state and ownership")
p("C21", "The default worker completes every attach and flushes every write",
  "With the default worker running on working storage, every attach completes and every written value becomes durable once no new attach or write arrives for a bounded time, whatever the relative timing of attaches and writes. No later activity or shutdown is needed to make this happen.",
  ["schedules", "histories"], "all sequences of a bounded number of attaches and writes with inter-arrival times drawn from values around the worker's timing thresholds, under virtual time",
  "Tests use their own simple workers; the default worker is only exercised for real-time-free paths.",
  [WT], [("signal select and debounce", WT+": default_worker_task")], [("needs_gc", "delayed collection signal", WT)], ["attach completion; storage contents after quiet period"])
p("C22", "The default worker batches bursts and respects its quiet periods",
  "The default worker flushes only after writes have been quiet for ten seconds (or on stop) and loads only after attaches have been quiet for 100 ms or because a due flush needs it; writes arriving closer together than that share one flush, and no storage is written when nothing changed. After a flush it collects at once, and after the first load at start-up 120 s later; on stop it flushes pending changes at once and returns.",
  ["schedules", "histories"], "all bounded event sequences with times around the thresholds, under virtual time",
  "No test controls time for the default worker.",
  [WT], [("debounce loops", WT+": default_worker_task")], (), ["virtual-time stamped device log"])
p("C23", "The default worker survives storage failures and flushes on stop",
  "Storage failures during the default worker's activity never end it, panic it or stop it from serving later requests; once storage works again, later attaches and writes are served and all values still pending then become durable, and a stop flushes everything pending whatever came before.",
  ["fault_sequences", "schedules"], "every placement of one or two failing storage operations in worker runs with attaches, writes and stop at varied times",
  "No test runs the default worker with failing storage.",
  [WT, SL], [("error handling arms", WT+": default_worker_task"), ("stop path", WT+": default_worker_task")], (), ["worker completion; storage contents"])
p("C24", "Stored elements read back identically and foreign bytes are rejected",
  "Every element appended to the flash backend is returned by iteration unchanged and in order, interleaved appends and removals preserve the remaining elements, and a stored byte string that is not exactly a supported element is presented as unreadable but removable. Element encoding is stable: one header byte, little-endian sequence number and checksum.",
  ["inputs", "histories"], "all element kinds with boundary sequence numbers, checksums and payload lengths, all header bytes with all short lengths, and bounded append/remove sequences on the real flash backend",
  "Tests round-trip a few elements indirectly.",
  [FL, LB], [("encode", FL+": push"), ("decode", FL+": HalfElem::from_bytes"), ("removal", FL+": invalidate")], (), ["iteration results"])
p("C25", "Size limits are exact: what fits is stored, what does not is refused safely",
  "A key and value that the size check accepts can be flushed and loaded back on that backend, for any supported flash geometry; one that exceeds the limit or the supplied buffer makes the flush fail with a serialization error. Such a failure leaves all previously durable values intact, and flushing works again (after the collection that every failed flush requires) as soon as the value is small enough.",
  ["inputs", "configurations"], "all value sizes around the limit, key lengths, buffer sizes, word and page sizes on the real flash backend",
  "Tests use small values and one geometry.",
  [FL, SL, LB], [("MAX_ELEM_SIZE", FL), ("check_node_size", LB), ("serialize_node", SL)], (), ["call results; loaded values"])
p("C26", "Flushing can continue forever in bounded space",
  "As long as storage has room for the retained records plus one more, any number of flush-and-collect cycles succeeds, space of collected elements is reused, and the newest values remain loadable after each cycle. This holds across page boundaries, wrap-around, reboots and interrupted cycles, where each interrupted flush takes up the room of one more record until older records have been collected.",
  ["histories", "configurations"], "long cycles over all record-size patterns, page counts, word sizes and retention counts of a small flash, with reboots or power cuts at each cycle position",
  "The many-writes test uses one geometry, one record size and two retention counts.",
  [SL, FL], [("collection after each flush", SL+": process_garbage"), ("element removal frees pages", FL+": invalidate")], (), ["call results; loaded values"])
p("C27", "The most recently flushed record is always the one selected",
  "Each record is written with a sequence number strictly greater than that of every intact record in storage, across reboots, collections, failures, fallback and resets, so that no two intact records ever share a number and the last acknowledged flush always wins over all earlier content.",
  ["histories", "fault_sequences", "crash_points"], "all bounded histories of flush, collect, reboot, reset, fault and cut, starting from storages with high, sparse or unordered sequence numbers",
  "Tests check one ascending run.",
  [SL], [("next sequence number", SL+": insert_good/get_or_populate_latest")], [("next_seq", "number of next record", SL+": SeqState")], ["sequence numbers of intact records in storage"])
p("C28", "Reported operation counters match the storage traffic",
  "The byte counters returned by a successful load, flush and collection equal the sizes reported by storage for the elements actually read, written and removed during that call, and are zero when the call had nothing to do. On flash, the size of an element is the space it takes there, header and padding included, when it is written, read and removed alike.",
  ["inputs", "histories"], "all bounded histories and storage contents with per-element distinct sizes",
  "Tests ignore most counters.",
  [SL], [("counter accumulation", SL+": process_reads/process_writes/process_garbage")], (), ["returned counters versus device log"])
p("C29", "The no-op worker always serves defaults and never fails",
  "With the no-op worker every attach completes with the default value, at any time and for any number of nodes, re-attaches and detaches; writes stay readable in memory until detached and are never stored.",
  ["histories", "schedules"], "all bounded sequences of attach, write, read, release, detach over several nodes with every polling order of worker and users",
  "One linear scenario is tested.",
  [WT, FL], [("no_op_worker_task", WT), ("AlwaysEmptyFlash", FL+": empty")], (), ["handle.load(), attach completion"])
p("C30", "A cache reset lets a running system continue on replaced storage",
  "After storage is erased while running, resetting the cache and then loading, collecting and flushing stores the current in-memory values of all loaded nodes, changed or not; after it was replaced by other valid content, the next flush with changes does. The reset itself touches neither storage nor values, and on unchanged storage it only costs a new load.",
  ["histories", "inputs"], "all bounded histories with resets at any point and storage replaced by empty, older, newer or corrupt content",
  "Two fixed scenarios are tested.",
  [SL], [("reset_cache", SL), ("write-back when no record exists", SL+": needs_writing")], (), ["call results; storage contents; handle reads"])
p("C31", "Stored data stays usable across firmware schema changes",
  "When a node's type gains optional or defaulted fields, or loses fields, data stored by the other version still loads with the common fields intact (field numbers stay what they were and new ones are higher); incompatible types fall back to the default without affecting other nodes. Keys not known to the running firmware are ignored, and rolling back and forth follows the same rules.",
  ["inputs", "histories", "configurations"], "all ordered sequences of up to three firmware versions drawn from a set of compatible and incompatible schemas with all small field values",
  "One documentation example walks a single path.",
  [SL, SN, SRC+"data_portability.rs"], [("CBOR map decode with skip", SN+": deserialize"), ("fallback to default", SL+": extract_all")], (), ["handle.load() per version"])
p("C32", "Behaviour is the same on every backend, flash geometry and cache choice",
  "For the same history of operations, the flash backend with any cache and geometry yields the same call results, the same loaded values and the same sequence of stored elements as an ideal in-memory queue.",
  ["histories", "configurations"], "all bounded histories run side by side on the in-memory queue and on the flash backend with no cache, page-state cache, page-pointer cache, several word and page sizes",
  "Tests run different scenarios on different backends and use no cache.",
  [FL, SL, LB], [("NdlDataStorage for Flash", FL)], (), ["results, loaded values, element sequences"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
