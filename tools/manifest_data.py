MC = "model_checking"
TRUST = " Trusts: compiler, AddressSanitizer, LevelDB/RocksDB libraries, the in-process MPI stand-in and the exploration engine (lib/mc.hpp)."
DATA = {
"C01": ("explicit-state model checking of the implementation against a map model", MC,
  "Exhaustive within bounds: all states of a map over every 3-subset (persistent backends: 2-subset) of 14 colliding typed keys x all operations, all histories to depth 6 (4/3 on LevelDB/RocksDB with reopen), all small batches; real code, three backends, map oracle." + TRUST),
"C02": ("explicit-state model checking of the implementation against a sorted-list reference", MC,
  "Exhaustive within bounds: every subset of 10 (RocksDB quick: 7) colliding keys x 7 operators x 6 subjects x 11 predicates x counts 0,1,2,20 in three backends, and all batches of 2-3 GETOPs; real code." + TRUST),
"C03": ("explicit-state model checking of the implementation against a queue/map model", MC,
  "Exhaustive within bounds: all short mixes of queued operations x per-request operation and byte limits x datastore counts x hashes, flushed by every flush call; real code, one result per operation checked against the reference." + TRUST),
"C04": ("explicit-state model checking of the implementation against a reference set", MC,
  "Exhaustive within bounds: all 64 permutation masks x value types x datastore layouts x entry points, and all pairs of masks in one batch; every stored ordering is read back." + TRUST),
"C05": ("exhaustive differential exploration of all entry points of the implementation", MC,
  "Exhaustive within bounds: every entry point x argument combination x invalid position against the typed single C++ operations." + TRUST),
"C06": ("stateless model checking of the implementation under a controlled scheduler (preemption bounded), with a vector-clock race detector", MC,
  "Exhaustive within bounds: every program of 1-3 caller steps (PUT, bulk PUT, typed PUT, GET, DELETE, FLUSH*, SYNC, rename) x every schedule of the caller and the background thread with up to 2 (short programs 3) preemptions and one spurious wake-up; in-memory datastores." + TRUST + " Trusts also lib/sched.cpp."),
"C08": ("stateless model checking: exhaustive preemption-bounded schedule enumeration of the implementation, brute-force linearizability", MC,
  "Exhaustive within bounds: 2 threads x 1 of 14 requests (4 preemptions), 2 threads x 1..2 requests and 3 threads x 1 request (1 preemption), empty and filled, in memory; smaller on LevelDB and RocksDB; happens-before race detection on every access; thorough raises the bounds." + TRUST),
"C09": ("exhaustive enumeration of placements and keys on the implementation against a reference placement", MC,
  "Exhaustive within bounds: all world sizes to 16 x ratios 0..8 x 0..4 datastores per server (all ranks, ids, offsets incl. invalid ones), every rank of every session up to 5 ranks, every predefined hash on all short keys and block lengths, and routing of all operations." + TRUST),
"C10": ("exhaustive enumeration of key parts on the implementation with a round-trip, distinctness and order oracle", MC,
  "Exhaustive within bounds: all subjects and predicates to 3 bytes (thorough: 4) over an adversarial alphabet x all type pairs, parts built from pieces of other keys, all pairs of 28 boundary lengths, and complete walks in three datastores." + TRUST),
"C11": ("exhaustive enumeration of numbers on the implementation with a numeric oracle", MC,
  "Exhaustive within bounds: all 8 and 16 bit integers, dense neighbourhoods of every power of 2 and 10 and the extremes in every width, all float exponents x top mantissa bits, all decades of doubles, precisions 1..20, all permitted symbol pairs, C and C++ interfaces, and the store. Not every 32/64 bit value." + TRUST),
"C12": ("explicit-state model checking of the implementation against a histogram model", MC,
  "Exhaustive within bounds: 11 generators x first_n 0..4 x generator failures x all sequences of 5 (thorough 6) of add (6 values), serialise/restore (3 ways), clear; longer series for every generator; three histograms sharing a buffer." + TRUST),
"C14": ("exhaustive enumeration of message shapes on the implementation with a field-wise oracle", MC,
  "Exhaustive within bounds: 10 message kinds x 0..2 items (thorough 3) x all combinations of field shapes, types, statuses, record counts and histogram states; exact announced size (every byte written, none beyond), copies not aliases; responses made by a datastore from serialised requests." + TRUST),
"C16": ("explicit-state model checking of the implementation against a life-cycle state machine", MC,
  "Exhaustive within bounds: every sequence of init, open, open-one, put, get, delete, flush, sync, name change, hash change and close (valid or not) to depth 5-6 in memory and shorter on LevelDB/RocksDB, with every refused call in every state, opens made to fail at each opportunity, multi-rank open/close, and thread/descriptor/heap balance after close." + TRUST),
"C17": ("exhaustive enumeration of configurations on the implementation against a last-writer-wins model", MC,
  "Exhaustive within bounds: every documented key x valid and invalid values x every subset of sources (defaults, file, file named by the environment, variables, option calls), all pairs of keys, partial configurations over changed sessions; effective settings compared with the model." + TRUST),
"C18": ("explicit-state model checking of the implementation against a list model", MC,
  "Exhaustive within bounds: all sequences of 3-4 (thorough 4-5) of add (every kind of result), append, head and next on two or three lists with every accessor of the C and C++ interface checked after every step; list lengths around container block boundaries; lists built from every kind of response." + TRUST),
}
DATA["C07"] = ("stateless model checking of the implementation: all ranks' threads under a controlled scheduler (delay bounded) over an in-process MPI, vector-clock race detector, map model", MC,
  "Exhaustive within bounds: 1-3 ranks (some 4) x ratios x datastores x listeners x eager or rendezvous sends x request size x background PUTs, four phases of operations; and 5 short programs on 2-3 ranks under all schedules with 1 (deep: 2; thorough 2-3) deviations from round robin and choices of message source; deadlocks, lost messages and races are failures." + TRUST + " Trusts also lib/sched.cpp.")
DATA["C13"] = ("explicit-state model checking of the implementation against a histogram bookkeeping model", MC,
  "Exhaustive within bounds: all histories of 3-4 (thorough 4-5) of PUTs of several types and predicates, deletes, queries, sync, close/reopen and name changes with every combination of histogram read/write/create settings, in memory, LevelDB and RocksDB; after every history the histograms and all stored records are compared." + TRUST)
DATA["C21"] = ("explicit-state model checking of the implementation against a map model with recorded transform calls", MC,
  "Exhaustive within bounds: 8 types x all registration sequences of 0-2 of 4 transform pairs x three datastores x every entry point and GETOP operator, lives (sync, rename, reopen, OpenOne), and all short PUT/DELETE histories; every call of a user function and its extra argument is checked." + TRUST)
NA = {}
