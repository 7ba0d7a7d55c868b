#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "The store behaves as a map from typed (subject, predicate) pairs to objects",
  "After any sequence of PUT, GET and DELETE operations, a GET of a (subject, predicate) pair returns the object bytes and object type of the most recent successful PUT of exactly that pair (same bytes and same types), and reports an error if there was none or it was deleted since. Pairs that differ in any byte, in the split between subject and predicate, or in a type never affect one another, and every PUT of a valid pair succeeds and replaces the old value whole (floating-point parts are compared at the configured encoding precision). This holds identically for the in-memory, LevelDB and RocksDB datastores, and on the persistent ones across close and reopen.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to the stated depth over an alphabet of colliding keys (prefixes of each other, different subject/predicate splits, empty-looking and 0x00/0xff bytes, equal bytes with different types), every object type and size class, for each of the three backends",
  "the tests put five fixed, non-colliding triples once and read them back; they never overwrite with another size or type, never interleave deletes with puts, and never use keys that share bytes",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp", "src/datastore/triplestore.cpp", "src/hxhim/ops"],
  [("sp_to_key builds the composite key", "src/datastore/triplestore.cpp"), ("append_type/remove_type store the object type with the object", "src/datastore/datastore.cpp"), ("BPutImpl/BGetImpl/BDeleteImpl of each backend", "src/datastore/*.cpp")],
  observe=["hxhim::Results of Flush"])

prop("C02", "GETOP returns exactly the records its operator names, in key order",
  "For every datastore content, operator (equal, next, previous, first, last, lowest, highest), subject/predicate (including an omitted predicate) and requested record count, GETOP returns precisely the records that the operator's documentation names: starting at the first (for HIGHEST the last) key with the given prefix (NEXT and PREV, when no key has the prefix: nothing, or the walk from the neighbouring key), or at the first/last key of the datastore, walking in key order in the documented direction, never more than the requested count, never a record that is not stored, and for EQ, LOWEST and HIGHEST never a record outside the prefix. When the operator names no record exactly one error result carrying the caller's subject and predicate is returned, and the process never crashes or reads invalid memory.",
  ["histories", "inputs", "configurations"],
  "every content that is a subset of a small universe of colliding keys, every operator, every key (present, absent, prefix-only, omitted predicate), every record count 0..n+1, in each backend, alone and bulked with other GETOPs",
  "tests run NEXT/PREV/FIRST/LAST/EQ over one fixed five-record content; LOWEST and HIGHEST, empty stores, absent keys, partial prefixes and count 0 are never executed",
  ["src/datastore/datastore.cpp", "src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "include/datastore/datastore.tpp", "include/hxhim/constants.h"],
  [("BGetOp_loop_init/BGetOp_get_seek compute the seek key", "src/datastore/datastore.cpp"), ("BGetOpImpl iterates", "src/datastore/*.cpp"), ("BGetOp_copy_response", "include/datastore/datastore.tpp")],
  observe=["hxhim::Results of FlushGetOps"])

prop("C03", "Every queued operation is executed once and yields exactly one result",
  "For any mix of queued operations and any setting of the per-request operation and byte limits, number of datastores and hash function, flushing executes every queued operation exactly once and returns exactly one result per stored permutation of a PUT, per GET, per DELETE, per HISTOGRAM and per record of a GETOP, each carrying its own operation kind, subject, predicate, datastore and status. Flush performs puts, then gets, then getops, then deletes, then histograms, so reads see the puts queued with them, and operations on the same datastore keep their queue order. Afterwards nothing remains queued, so another flush returns no results.",
  ["histories", "configurations", "inputs"],
  "every sequence of enqueue/flush calls up to the stated depth, crossed with every combination of small operation limits, byte limits around the packet boundaries, datastore counts and hash functions",
  "tests enqueue at most ten puts with two limits and count them; no test crosses packet boundaries for the other operations, several datastores, byte limits and mixed flush calls",
  ["include/hxhim/private/process.hpp", "src/hxhim/ops/impl.cpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/Results.cpp", "src/transport/backend/local/RangeServer.cpp"],
  [("setup_packet splits packets by count and size", "src/hxhim/ops/impl.cpp"), ("process() drains the queues", "include/hxhim/private/process.hpp"), ("Result::AddAll flattens responses", "src/hxhim/Results.cpp")],
  observe=["hxhim::Results of Flush*"])

prop("C04", "A PUT stores exactly the requested permutations of the triple",
  "For every combination of the six permutation flags, a PUT of (s, p, o) makes exactly the requested orderings retrievable, each with the right key parts, value and types, and no other ordering. A PUT with no flag stores nothing and yields no result, and one result per requested permutation names the subject and predicate actually used for that ordering.",
  ["inputs", "configurations"],
  "all 64 permutation masks, type combinations of the three parts, single and bulk calls with differing masks per item, several datastores",
  "tests use SPO, or all six at once counting results; no test checks that unrequested orderings are absent or that the stored value parts are the right ones",
  ["src/hxhim/ops/impl.cpp", "include/hxhim/constants.h", "src/hxhim/hxhim.cpp"],
  [("PutImpl permutation switch", "src/hxhim/ops/impl.cpp")])

prop("C05", "All entry points for an operation are equivalent",
  "Queuing operations through the bulk, float, double, single-type, C and C++ entry points has the same effect on the store and gives the same results as queuing the corresponding typed single operations one by one through the C++ interface. Invalid arguments are rejected with an error in every variant, without queuing anything, crashing, or touching the caller's memory.",
  ["programs", "inputs"],
  "every entry point of put, get, getop, delete and histogram crossed with item counts, operators, permutations and each single null or invalid argument",
  "tests exercise a few C++ entry points with fixed valid inputs; the C, float, double, bulk and single-type variants are mostly never called",
  ["src/hxhim/ops", "include/hxhim/hxhim.h", "include/hxhim/float.h", "include/hxhim/double.h", "include/hxhim/single_type.h"],
  [("wrappers around the *Impl functions", "src/hxhim/ops/*.cpp")])

prop("C06", "Background puts lose, duplicate or tear nothing in any interleaving",
  "With asynchronous puts enabled, under every interleaving of the caller and the background thread, every PUT that was accepted is stored and reported exactly once by some flush of puts, a read flushed after flushing the puts observes them, and the final contents equal those of the same program with asynchronous puts disabled. Flush, Sync and Close always terminate, without deadlock, data race, use of freed memory or leaked request.",
  ["schedules", "configurations"],
  "every interleaving of caller and background thread at synchronisation operations up to the stated preemption bound, for every small program of puts and flushes and every threshold",
  "the background-put test runs one free-running schedule; the operating system almost never produces the interleavings around the queue hand-over, the completion wait and shutdown",
  ["src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/destroy.cpp", "src/hxhim/ops/FLUSH.cpp", "src/hxhim/ops/PUT.cpp", "src/hxhim/ops/BPUT.cpp"],
  [("async_put_thread", "src/hxhim/init.cpp"), ("wait_for_background_puts", "src/hxhim/private.cpp"), ("FlushPuts merges results", "src/hxhim/ops/FLUSH.cpp")],
  state=[("queues.puts", "queued packets, count, flushed flag", "include/hxhim/private/hxhim.hpp"), ("async_puts.results", "results not yet handed to the caller", "include/hxhim/private/hxhim.hpp")])

prop("C07", "Operations behave the same wherever the target datastore lives",
  "With several ranks connected by the message transport, an operation issued by any rank against any datastore has the same effect and gives the same result to the issuing rank as if the datastore were local, whatever the message timing, the client:server ratio, the number of datastores per server and the number of outstanding packets. Every request is answered exactly once to the rank that sent it, and all ranks always terminate their flush and close calls.",
  ["schedules", "configurations", "histories"],
  "every message delivery and rank scheduling order up to the stated bound, for 2-3 ranks, every client:server ratio and datastores-per-server value in the bound, and every operation kind",
  "no test runs with more than one rank; the transport test only covers the local path",
  ["src/transport/backend/MPI", "include/transport/backend/MPI", "src/transport/transport.cpp", "include/hxhim/private/process.hpp"],
  [("EndpointGroup parallel_send/parallel_recv/return_msgs", "include/transport/backend/MPI/EndpointGroup.tpp"), ("RangeServer listener", "src/transport/backend/MPI/RangeServer.cpp")])

prop("C08", "Concurrent requests to one datastore are atomic and ordered",
  "When several threads (listeners, background puts and the local client) submit requests to the same datastore, the results and final contents equal those of executing the requests one after another in some order consistent with real time, whole requests never interleave, and tracked histograms and operation statistics account for every request exactly once. No interleaving causes a crash, a deadlock or a data race.",
  ["schedules"],
  "every interleaving at synchronisation and callback points of 2-3 threads each submitting 1-2 bulk requests on overlapping keys, up to the stated preemption bound",
  "no test submits requests to a datastore from more than one thread",
  ["src/datastore/datastore.cpp", "src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp"],
  [("operate() locks the datastore", "src/datastore/datastore.cpp")])

prop("C09", "Placement is a fixed bijection and every key is routed to one datastore",
  "For every world size, client:server ratio and number of datastores per server, server ids and datastore ids are numbered consecutively from 0, each id belongs to exactly one (rank, offset), the mappings between ids and ranks are inverse to each other and invalid arguments are rejected. Every predefined hash maps every key to a valid datastore id as a pure function of the key bytes (RANK_MOD_DATASTORES: of the rank), so that reads and deletes are routed to the datastore that holds the put.",
  ["configurations", "inputs"],
  "all world sizes, ratios and datastores-per-server up to the stated bounds, all ids/ranks/offsets from below the valid range to beyond it, every hash on every key up to a length bound over a byte alphabet",
  "tests check a handful of hand-computed placements and hash no keys",
  ["src/hxhim/Datastore.cpp", "src/hxhim/RangeServer.cpp", "src/hxhim/hash.cpp", "src/hxhim/init.cpp", "src/hxhim/accessors.cpp"],
  [("get_rank/get_id/is_range_server", "src/hxhim/RangeServer.cpp, src/hxhim/Datastore.cpp"), ("hxhim_hash and the predefined hashes", "src/hxhim/hash.cpp")])

prop("C10", "Composite keys are reversible, distinct and ordered",
  "Combining a subject and a predicate (of any bytes and types) into a datastore key and splitting it again gives back exactly the same bytes, lengths and types, and different typed pairs always give different keys. The key starts with the subject bytes followed by the predicate bytes, so all keys of one subject and prefix are contiguous in key order.",
  ["inputs"],
  "every pair of subject and predicate up to the length bound over an alphabet containing 0x00, 0xff and the separator bytes, every type pair, plus sizes around byte boundaries (127/128, 255/256, 65535/65536)",
  "the test round-trips one pair",
  ["src/datastore/triplestore.cpp", "include/utils/little_endian.hpp"],
  [("sp_to_key / key_to_sp", "src/datastore/triplestore.cpp")])

prop("C11", "Numeric encoding preserves order and value",
  "For every integer and every finite floating point number, encoding a number into its textual key form and decoding it returns the same number (floating point: to the configured precision), and comparing two encodings byte-wise gives the same order as comparing the numbers. This holds for all integer widths including their extreme values, for small, large and arbitrary-magnitude floating point numbers, for every permitted pair of sign symbols, and for values stored and read back through the store.",
  ["inputs", "configurations"],
  "all pairs from dense enumerations of 8/16-bit integers, all powers of two and ten and their neighbours at every width, every sign/exponent of float with a set of mantissas, several precisions and sign symbol pairs",
  "tests encode a short list of numbers taken from the paper and compare neighbours only",
  ["include/utils/elen.hpp", "include/utils/elen.tpp", "src/utils/elen.cpp", "src/datastore/transform.cpp", "include/datastore/transform.tpp"],
  [("elen::encode/decode", "include/utils/elen.tpp"), ("default numeric transform callbacks", "include/datastore/transform.tpp")])

prop("C12", "A histogram accounts for every value in the right bucket",
  "For every sequence of added values, configuration and bucket generator, a histogram's bucket bounds are strictly increasing, its counts sum to the number of values it has placed, each value is counted in the last bucket whose bound does not exceed it (a value below every bound is in none), values wait in the cache exactly until the configured number has been seen, and serialising and restoring a histogram at any moment gives one that is equal and behaves identically from then on.",
  ["histories", "inputs", "configurations"],
  "every value sequence up to the stated length over an alphabet with ties, negatives, values below/above all bounds and bucket-boundary values, every bucket generator, every first-n threshold, with pack/unpack or clear inserted at every point",
  "tests add one fixed ascending sequence per generator and never put values below the first bound, negative or equal values, or serialise in the middle",
  ["src/utils/Histogram.cpp", "include/utils/Histogram.hpp"],
  [("add/insert/gen_counts", "src/utils/Histogram.cpp"), ("pack/unpack", "src/utils/Histogram.cpp")])

prop("C13", "Tracked histograms count exactly the stored values and persist as configured",
  "For every history, the histogram of a tracked predicate on a datastore reflects exactly the floating point objects successfully PUT there under that byte-string predicate, in order, and nothing else; a histogram query for a tracked name returns it and for any other name an error. When writing histograms is enabled they survive sync, close, reopen and datastore-name changes according to the read/write/create settings, and stored histograms never corrupt or leak into ordinary reads by key.",
  ["histories", "configurations"],
  "every sequence up to the stated depth of puts (tracked/untracked predicate, float/double/other types), deletes, queries, sync, close+reopen and name changes, crossed with the read/write/create flags and backends",
  "tests put one set of values and read the histogram in the same session",
  ["src/datastore/datastore.cpp", "src/datastore/datastores.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/InMemory.cpp", "src/hxhim/hxhim.cpp", "src/hxhim/ops/HISTOGRAM.cpp", "src/hxhim/accessors.cpp"],
  [("operate(BPut) adds to histograms", "src/datastore/datastore.cpp"), ("WriteHistogramsImpl/ReadHistogramsImpl", "src/datastore/*.cpp")])

prop("C14", "Messages survive serialisation unchanged",
  "For every request and response message, serialising it produces exactly the number of bytes it announces and deserialising those bytes yields a message equal in every transmitted field: kind, source, destination, count, and per item the subject, predicate, object, types, record counts, operators, statuses, original references and histograms. This holds for any item count including zero, any field sizes including empty, and any mixture of statuses.",
  ["inputs"],
  "every message kind, every item count up to the bound, every combination of field sizes and types from the alphabet, every status mix, responses with varying record counts, histograms cached and generated",
  "the test round-trips one message of each kind with one item shape",
  ["src/message/Packer.cpp", "src/message/Unpacker.cpp", "src/message", "src/utils/Blob.cpp"],
  [("Packer::pack / Unpacker::unpack", "src/message"), ("size() bookkeeping in add/update_size", "src/message/*.cpp")])

prop("C15", "Acknowledged data survives a crash at any point",
  "On the persistent datastores, whatever the instant of a crash and whichever unsynchronised file data is lost, the datastore reopens, contains every operation whose sync or close completed before the crash, and otherwise shows the effects of a prefix of the issued requests, each bulk request being applied wholly or not at all. A crash never fabricates, mixes or corrupts values, and the recovered store accepts new operations.",
  ["crash_points", "histories"],
  "every crash point between two file operations of every history of puts, overwrites, deletes, sync, close and reopen up to the stated length, with all, none and each torn fraction of the unsynced tail of each file",
  "no test kills the process or reopens after anything but an orderly close",
  ["src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp", "src/hxhim/ops/SYNC.cpp", "src/hxhim/hxhim.cpp"],
  [("BPutImpl/BDeleteImpl write one WriteBatch", "src/datastore/LevelDB.cpp"), ("SyncImpl", "src/datastore/LevelDB.cpp, src/datastore/RocksDB.cpp")])

prop("C16", "The session life cycle is a well-defined state machine",
  "In every order of init, option setting, open, open-one, operation, flush, sync, datastore-name change, hash change and close calls, calls that are invalid in the current state return an error and change nothing, open reports success only if every datastore is usable, and options can only change before open. A successful open gives a usable store whose persistent contents equal those at the last close of the same datastore name, name changes isolate contents by name, and close executes the operations still queued, always terminates and releases everything so that the session can be initialised again.",
  ["histories", "configurations", "fault_sequences"],
  "every call sequence up to the stated depth over the life-cycle alphabet, with datastore opening made to fail at each opportunity",
  "tests call the life-cycle functions only in the one intended order",
  ["src/hxhim/hxhim.cpp", "src/hxhim/init.cpp", "src/hxhim/destroy.cpp", "src/hxhim/options.cpp", "src/datastore/datastores.cpp"],
  [("Open/OpenOne/Close/ChangeDatastoreName/ChangeHash", "src/hxhim/hxhim.cpp"), ("started() guards", "src/hxhim/private.cpp")])

prop("C17", "Configuration sources are applied with the documented precedence",
  "For every combination of built-in defaults, configuration file, file named by the environment and environment variables, each documented setting takes the value from the last source that gives it in that order, independently of which other settings are given, and option calls override all of them. A configuration that sets only some keys leaves every other setting at its previous value, and a value that is not valid for its setting is never applied. (Choosing the NULL transport by configuration also selects RANK_MOD_DATASTORES as the hash; choosing MPI requires the listener count to come from the same sources.)",
  ["configurations", "inputs"],
  "every documented key, every subset of up to two sources per key, every pair of keys, valid and invalid values of each kind",
  "tests parse key/value text; nothing checks that parsed keys reach the session or how sources combine",
  ["src/hxhim/config.cpp", "include/hxhim/config.hpp", "src/utils/Configuration.cpp", "src/hxhim/options.cpp", "config/hxhim.conf"],
  [("default_reader / fill_options", "src/hxhim/config.cpp"), ("Config::Sequence, file, directory, environment readers", "src/utils/Configuration.cpp")])

prop("C18", "The results container is a faithful ordered list",
  "For every sequence of adding, appending, iterating and reading, a results list contains exactly the results added, in order; appending moves all results of the other list to the end and leaves that one empty; iteration visits each result once from the head; and each accessor returns the fields of the current result, and an error leaving the outputs alone when there is no current result or the field does not exist for that kind of result. The C and C++ interfaces behave identically.",
  ["histories"],
  "every call sequence up to the stated depth over add (of each result kind), append, head, next and the accessors, on up to three lists, compared with a list model",
  "tests iterate over one list of a few results and append once",
  ["src/hxhim/Results.cpp", "include/hxhim/Results.hpp", "include/hxhim/private/Results.hpp"],
  [("Results::Add/Append/GoToHead/GoToNext", "src/hxhim/Results.cpp"), ("accessors", "src/hxhim/Results.cpp")])

prop("C19", "A failure affects, and is reported for, exactly the operations it hits",
  "Whatever subset of encode, decode or storage steps fails, each operation reports success if and only if it took effect and could be answered: a failed item gets an error result with its own subject and predicate, the other items of the same request are unaffected, no data is changed by a failed operation, and after the fault has gone the session works normally. A failing datastore write, sync or open is reported as an error and never as success.",
  ["fault_sequences", "histories"],
  "every single failure position (and every pair) of every encode/decode call, every failing file-system call, in bulk requests of up to three items of each operation kind on each backend",
  "no test injects a failure",
  ["src/datastore/InMemory.cpp", "src/datastore/LevelDB.cpp", "src/datastore/RocksDB.cpp", "src/datastore/datastore.cpp", "include/transport/backend/local/RangeServer.hpp"],
  [("per-item statuses in BPutImpl/BGetImpl/BGetOpImpl/BDeleteImpl", "src/datastore/*.cpp")])

prop("C20", "Buffers have one owner: nothing is freed twice, early, never, or altered",
  "In every operation history the caller's buffers are only read, are not needed once the flush that executes the operation has returned, and stay the caller's; buffers reached through a result stay valid and unchanged until that result list is destroyed, even after later operations, flushes and destruction of other lists. Everything the library allocates is released exactly once by destroying results and closing the session, and copying, moving, assigning and clearing owned or borrowed data keeps exactly one owner.",
  ["histories", "programs"],
  "every sequence up to the stated depth of copy, move, assign, clear and release operations on owning and borrowing buffers, and every sequence of operations, flushes, buffer reuse and result destruction in the session alphabet, under an address checker and an allocation balance",
  "tests check single copies and moves; leaks and late uses are not observed in any test",
  ["include/utils/Blob.hpp", "src/utils/Blob.cpp", "include/utils/memory.hpp", "src/hxhim/Results.cpp", "src/message"],
  [("Blob ownership flag", "src/utils/Blob.cpp"), ("construct/destruct helpers", "include/utils/memory.hpp")])

prop("C21", "User transform functions are applied consistently to every value",
  "When the user registers transform functions for a data type, every subject, predicate and object of that type is encoded with the registered encoder before it is stored or searched for and decoded with the registered decoder before it is returned, with the extra arguments given, and no other type is affected; a later registration for the same type replaces an earlier one. An invertible transform is therefore invisible to GET, GETOP and DELETE whatever the operation, entry point and datastore.",
  ["configurations", "histories", "inputs"],
  "every data type crossed with every operation kind, backend, registration sequence up to length two, and length-changing, identity and null transforms",
  "no test registers a transform function",
  ["src/datastore/transform.cpp", "src/hxhim/init.cpp", "src/hxhim/options.cpp", "src/datastore/datastore.cpp"],
  [("hxhim_set_transform_function", "src/hxhim/options.cpp"), ("init::transform merges callbacks", "src/hxhim/init.cpp"), ("Datastore::encode/decode", "src/datastore/datastore.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
