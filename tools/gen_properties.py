#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property). Run: python3 tools/gen_properties.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

G = "collections/guava_map.go"
p("C01", "GuavaMap with load locking: one load per key, everyone gets the real value",
  "With load locking enabled, loader calls for one key never overlap in time, and once a load has succeeded no other load of that key starts while its entry is still cached. A Get that reports no error returns a value that was really loaded or stored for that key, never a zero value standing in for a load that was skipped. A failed load is reported to its caller together with a zero value, stores nothing, and leaves the key loadable by the next caller; a loader that panics (in its caller, who may recover) does so too.",
  ["schedules", "configurations"], "all interleavings of concurrent Get/Set/Delete on colliding keys, with loaders that succeed, fail, take time, and with capacity eviction or expiry running meanwhile",
  "The test of load locking is on the flaky list: it samples a few schedules of 10 readers and fails at random; no test combines it with Delete, eviction, expiry or failing loaders.",
  [G, "collections/lock_map.go"], [("per-key load lock held around check, load and store", G + " Get"), ("per-key mutexes", "collections/lock_map.go MapMutex")],
  ["return value of Get", "start and end of loader calls"])
p("C02", "GuavaMap operations are atomic and agree with one map",
  "Get, Set, Has, HasOrCreate, Delete, Clear, Size and GetStored used concurrently behave as if each took effect at one instant between its call and its return on a single map, and concurrent use has no data race. A Get that misses returns the loader's value and stores it, unless a value was stored meanwhile, which is then kept and returned; a loader error is returned with a zero value and nothing is stored; without a loader a miss returns the zero value and no error. HasOrCreate stores its value and returns false only if the key was absent, otherwise it changes nothing and returns true. Loaders and update functions may use other keys of the cache.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with 1-3 operations on colliding keys and all sequences of operations up to a depth",
  "Tests run single operations or many goroutines on one random schedule and check only counts.",
  [G], [("map-wide RW lock", G + " mu")], ["results of all operations"])
p("C03", "GuavaMap capacity bound and oldest-first eviction",
  "With a maximum count n configured, the cache never holds more than n entries. Storing a new key (by Set, HasOrCreate, a loading Get or LockForUpdate) when n entries are present removes exactly one entry: the one that was inserted longest ago. Operations on a key that is already present evict nothing and do not change the insertion order, and an entry that left for any reason no longer counts. Without load locking, memory stays bounded by the entries present, however long the history of keys.",
  ["histories", "schedules"], "all operation sequences up to a depth over keys, ways of inserting and ways of removing, for small n; all interleavings of concurrent inserters",
  "Tests fill the cache once with distinct keys and look only at Size.",
  [G], [("insertion-order slice kept in step with the map", G + " storedSlice")], ["Size", "GetStored", "Has"])
p("C04", "GuavaMap unload callback: exactly once per departed entry",
  "For every entry that leaves the cache (by Delete, Clear, capacity eviction or expiry) the unload callback is invoked exactly once, with that entry's key and the last value stored for it. It is not invoked for keys that are not in the cache, nor when a value is merely replaced by a newer one. Deleting an absent key and clearing an empty cache are harmless, and the callback may itself use the cache.",
  ["histories", "schedules"], "all operation sequences up to a depth, and all interleavings of Delete, Clear, Set, eviction and expiry of the same key",
  "Tests count callbacks for one scenario each; none deletes an absent key with a callback configured or races expiry with Delete.",
  [G], [("single removal routine", G + " safeDelete, Clear")], ["calls of the unload callback"])
p("C05", "GuavaMap expiry: not early, not late, never a newer entry",
  "A cached entry stays readable until its timeout has elapsed and is removed when it elapses: storing a value (Set, HasOrCreate, load, LockForUpdate) arms the write timeout (the read timeout if only that one is configured), and reading it (Get, Has, HasOrCreate) re-arms it with the read timeout if one is configured. The pending expiry of an entry that was deleted, cleared, evicted or replaced never removes, shortens or lengthens the life of a later entry under the same key, nor disturbs the process. With no timeout configured entries do not expire. An entry that has left leaves no goroutine waiting for its deadline. Nor does an entry of a cache whose context is cancelled.",
  ["histories", "schedules", "configurations"], "all sequences of operations and time advances up to a depth for each timeout configuration, and all interleavings of the expiry with Set, Get, Delete and Clear at the same instant",
  "Tests sleep for real time on one scenario and one of them is on the flaky list; deletion and re-creation before the old deadline is never tried.",
  [G], [("one timer goroutine per entry", G + " createHolder")], ["Has/Get/Size over time", "unload callback"])
p("C06", "GuavaMap LockForUpdate: per-key exclusive read-modify-write",
  "Update functions passed to LockForUpdate for one key never run at the same time, whatever else (Delete, Clear, eviction, expiry, Set) happens to that key meanwhile. Each call returns its own function's result and stores it as the key's value, so increments done this way are never lost. An update function that panics (in its caller, who may recover) changes nothing and leaves the key updatable. Updates of different keys do not wait for each other.",
  ["schedules"], "all interleavings of concurrent LockForUpdate calls on one and two keys with Delete, Clear, Set, eviction and Get",
  "No test calls LockForUpdate.",
  [G], [("per-key update locks", G + " updateLockMap, LockForUpdate, safeDelete, Clear")], ["overlap of update functions", "final value"])
p("C07", "HashSet: exact membership, bounded size, oldest-first eviction, atomic add",
  "A HashSet contains exactly the keys that were added and not since deleted, cleared or evicted, and Has, Count and Keys agree with that. With a maximum count n it never holds more than n keys, and adding a new key at capacity evicts exactly the key that has been a member longest; adding a key that is already a member changes nothing. All operations are atomic under concurrent use, and of several concurrent HasOrCreate calls for an absent key exactly one returns false. What has left takes no memory, however long the history.",
  ["histories", "schedules"], "all operation sequences up to a depth over a few keys for n in 0..3, and all interleavings of small concurrent programs",
  "HashSet has no test.",
  ["collections/hash_set.go"], [("map plus insertion-order slice under one RW lock", "collections/hash_set.go m, ml, mu")], ["Has", "HasOrCreate", "Count", "Keys"])
p("C08", "HolderMap: every waiter gets the one outcome, nobody blocks forever",
  "Every Wait returns exactly one outcome of its key, the same for all waiters of that record: nil after Release, the given error after Error, a timeout error when the configured timeout passes first, the context's error when the context is cancelled; this includes waiters that arrive while the outcome is being delivered and waiters that arrive later, until the record is removed a TTL after the outcome. The first outcome wins; Release, Error, Update and Get on an unknown key return an error; none of them ever blocks or panics, however often and concurrently they are called. Get returns the object given by the first Wait or the latest Update. Count is the number of records, and none is left, nor a goroutine, when all are over. What has left takes no memory, however long the history.",
  ["schedules", "histories"], "all interleavings of 2-4 threads calling Wait, Release, Error, Update, Get with timeout, TTL and cancellation falling at the same instants",
  "The only test is on the flaky list and runs one schedule; a waiter arriving during the release, a second release and cancellation are never tried.",
  ["collections/holder_map.go"], [("per-key holder goroutine draining a waiter list", "collections/holder_map.go Wait")], ["return of Wait/Release/Error/Get", "blocked calls"])
p("C09", "Per-key locks: mutual exclusion per key, independence across keys",
  "A MapMutex lets at most one holder at a time hold a key, and a MapRWMutex lets either one writer or any number of readers hold a key; a held lock is really released by the matching unlock, so some waiting caller then proceeds. Holding one key never blocks callers of another key. This also holds when the very first uses of a key are concurrent.",
  ["schedules"], "all interleavings of 2-4 lockers on one and two keys including first use",
  "The per-key locks have no test.",
  ["collections/lock_map.go"], [("lock table under RW lock with re-check", "collections/lock_map.go Lock, RLock")], ["overlap of critical sections", "blocked callers"])
p("C10", "SimpleMap and ShardMap: linearizable maps, one winner for set-if-absent",
  "Get, Set, Delete, Has, SetIfNotExists and SetIfNotExistsWithFunc of SimpleMap and ShardMap behave under any concurrent use as if each took effect at one instant on a single map, without data races; ShardMap stores and finds a key whatever shard its function assigns. Of concurrent set-if-absent calls for one absent key exactly one succeeds, the function form runs its function only for the winner and returns the stored value to everybody; if that function panics (in its caller, who may recover), nothing is stored and the map stays usable. Size counts the stored keys exactly (for ShardMap when no writer overlaps it), and Clear leaves a ShardMap empty. What has left takes no memory, however long the history.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with 1-3 operations on keys in the same and in different shards, all operation sequences up to a depth, shard counts 1-3",
  "Neither map has a test.",
  ["collections/map.go", "collections/shard_map.go"], [("one RW lock", "collections/map.go mu"), ("one RW lock per shard", "collections/shard_map.go shardsLock")], ["results of all operations", "calls of the function argument"])
R = "collections/request_map.go"
p("C11", "RequestMap: one producer call per key, shared by all callers",
  "For each key at most one producer function is running at any time, and it is started only when no unexpired result is present. Every caller of GetOrCreate or GetOrCreateWithErr that arrives before the result is available gets that very result (and error, for the error form), and callers arriving while the result is cached get it without their own producer being called. Callers of one key never wait for the producer of another key and no caller is left blocked once its producer returned, also if producers ask the map for other keys.",
  ["schedules", "histories"], "all interleavings of 2-4 callers on one or two keys with fast, slow and failing producers, including both call forms mixed",
  "Tests start many goroutines on one random schedule and look at a total count.",
  [R], [("waiter lists and response table under one lock", R + " GetOrCreate, GetOrCreateWithErr")], ["producer invocations", "returned results"])
p("C12", "RequestMap: results live for the TTL and then go away, newer ones stay",
  "A result, whether produced by a call or preloaded at construction, is served for at least the TTL counted from when it was produced (or preloaded). It is dropped within a second after the TTL has elapsed, so that the next caller runs its producer again and Count returns to zero when the map is idle. Dropping an old result never drops a newer result of the same or another key. What has left takes no memory, however long the history.",
  ["histories", "schedules"], "all sequences of calls and time advances up to a depth over two keys and preloaded entries, repeated across several expiry rounds",
  "Tests check one expiry round with real sleeps; second rounds and preloaded entries are never checked for expiry.",
  [R], [("periodic cleaner over results in order of production", R + " rmWorker, resultSlice")], ["producer invocations over time", "Count"])
p("C13", "RequestMap.Timeout: result in time or ErrTimeout, late results discarded",
  "A function wrapped by Timeout returns the wrapped function's own value and error if that function finishes before the duration, and otherwise returns the zero value and ErrTimeout as soon as the duration has elapsed. It calls the wrapped function exactly once per call with the caller's key. A late result is discarded: it reaches no caller and leaves no goroutine blocked.",
  ["schedules", "inputs"], "all interleavings of completion and deadline, including both at the same instant, for succeeding and failing functions and overlapping calls",
  "One test checks one late call.",
  [R], [("buffered result channel and timer", R + " Timeout")], ["returned value and error", "leftover goroutines"])
S = "collections/response_map.go"
p("C14", "ResponseMap: the first Set reaches every waiter, Set never blocks or panics",
  "The first value Set for a key is returned by every Wait on that key that is pending then or starts later, until the key's record is cleaned up; later Sets of the key change nothing and all waiters see the same value. Set and Wait never panic, Set never blocks for ever, and there is no data race, however many Set and Wait calls, timeouts and cleanups of the key run concurrently.",
  ["schedules"], "all interleavings of 1-3 Sets and 1-3 Waits of one key with the response timeout and the cleanup falling at the same instants",
  "Tests use one setter or look only for a hang on one random schedule.",
  [S], [("per-key holder goroutine fanning out to listeners", S + " newChansHolder, set, wait")], ["return of Wait", "panics", "blocked calls"])
p("C15", "ResponseMap: waits end by the timeout, records end after the clear timeout",
  "A Wait on a key that gets no value returns the zero value no later than the response timeout after the call, and not before a response timeout counted from the start of the record or of a Wait on it has run (only cleanup or cancellation may release it earlier); no Wait is ever left blocked, including waits that start after an earlier wait of the key timed out or while the key is timing out or being cleaned up. A record with a value stays available for at least the clear timeout after it was created and every record is removed within two clear timeouts. After that the key starts afresh. When the context is cancelled every Wait returns at once and no goroutine of the map stays. What has left takes no memory, however long the history.",
  ["schedules", "histories"], "all sequences of Wait, Set and time advances up to a depth and all interleavings of Wait with timeout and cleanup",
  "Tests check one wait and one timeout; a wait started after a timeout, or racing it, is never tried.",
  [S], [("holder timer, periodic cleaner", S + " newChansHolder, clear")], ["time of return of Wait", "availability of values over time"])
p("C16", "Set: finite-set algebra",
  "A Set holds exactly the values added and not removed since; Add, AddAll, Remove, Has, HasAll, HasAny, Size, Values, All, Clear and construction from a list all agree with mathematical finite sets. Equals is true exactly if both sets have the same members. A clone has the same members and is independent of the original afterwards.",
  ["histories", "inputs"], "all operation sequences up to a depth over a small universe on two sets, including empty argument lists and repeated values",
  "The one test is on the flaky list; HasAll, HasAny, Equals, Clone and Clear are not tested.",
  ["collections/set.go"], [("map of members", "collections/set.go")], ["results of all operations"])
U = "collections/struct_uniq_set.go"
p("C17", "StructUniqSet: an element is added once, equality as configured",
  "Add returns true exactly when no equal element is present and then inserts it; of concurrent Adds of equal elements exactly one returns true. Has, Remove and Count agree with the elements added and not removed, two elements being equal if and only if the configured build function (by default a hash of the structure's contents) gives the same result; what counts are the contents at the time of the call, also where the element points to something that changed since. An element whose hash cannot be computed is reported as an error and changes nothing.",
  ["histories", "schedules", "inputs"], "all operation sequences up to a depth over structurally equal and different values with default and custom build functions, and all interleavings of concurrent Add/Remove/Has",
  "StructUniqSet has no test.",
  [U], [("hash-keyed table under RW lock with re-check", U + " Add, Has, Remove")], ["results of all operations"])
p("C18", "StructUniqSet: elements live for their TTL, then go; the cleaner never fails",
  "An element stays in the set for at least the TTL after it was added (unless removed) and is gone within two check intervals after the TTL has elapsed; an element that was removed or expired and then added again gets a full new TTL. The background cleaner never crashes the process, in particular when the set is empty, and keeps working for the life of the set; it stops when the context is cancelled.",
  ["histories", "schedules"], "all sequences of Add, Remove and time advances up to a depth including an idle empty set, and all interleavings of the cleaner with Add and Remove",
  "StructUniqSet has no test.",
  [U], [("periodic cleaner over elements in order of insertion", U + " Build")], ["Has/Count over time", "panics"])
p("C19", "TwoKeyMap: both keys always describe one consistent association",
  "After any sequence of Put, Remove and RemoveByK2, GetByK2(k2) finds a value exactly if k2 is the current second key of a stored first key k1, and then it is the value Get(k1) returns. Putting k1 again with another second key retires the old second key; putting a second key that belongs to another first key moves it to the new one, and the former owner stays reachable through its first key only. Removing by a key that is not present changes nothing, Len, Keys and KeysK2 agree with this, and all operations are atomic under concurrent use. What has left takes no memory, however long the history.",
  ["histories", "schedules"], "all operation sequences up to a depth over a few keys of each kind including zero values, and all interleavings of small concurrent programs",
  "TwoKeyMap has no test.",
  ["collections/two_key_map.go"], [("three maps updated together under one RW lock", "collections/two_key_map.go Put, Remove, RemoveByK2")], ["results of all operations"])
W = "collections/wait_map.go"
p("C20", "WaitMap: the first value reaches all waiters and stays until its TTL",
  "The first value Set for a key is returned by every Wait on it that is pending then and by every Wait or Set-Wait pair that follows until the response TTL elapses; a Set on a key that still has a value is ignored. Each Wait returns exactly once and no waiter is missed, however Waits and Sets interleave. Different keys do not influence each other, and there is no data race. Count is the number of keys that have a value or are waited for.",
  ["schedules", "histories"], "all interleavings of 1-3 Waits and 1-2 Sets on one or two keys",
  "Tests sample random schedules of a million goroutines and check only counts.",
  [W], [("value table and waiter lists under one lock", W + " Wait, Set")], ["return of Wait", "Count"])
p("C21", "WaitMap: request timeout, response TTL and cancellation release everything",
  "A Wait on a key with no value returns the zero value when the request timeout elapses after the key's first pending Wait, not earlier, and at once when the context is cancelled; the zero value then counts as the key's value for the TTL. A value is dropped when its TTL elapses, after which the key starts afresh: no timer of an earlier round ever ends a later Wait early or stores a value in a later round. When all timeouts have run out, Count is zero and no goroutine is left. What has left takes no memory, however long the history.",
  ["histories", "schedules"], "all sequences of Wait, Set, cancellation and time advances up to a depth for TTL shorter and longer than the request timeout, and all interleavings at coinciding deadlines",
  "The timing test is on the flaky list; a TTL shorter than the request timeout (stale timers) is never tried.",
  [W], [("one timeout goroutine per first waiter, one TTL goroutine per value", W + " Wait, Set")], ["time and value of Wait's return", "Count", "goroutines"])
CC = "chans/chunk_chan.go"
p("C22", "ChunkChan: chunks carry every item once, in order, within the size bound",
  "While the context is alive every item accepted by a ChunkChan is delivered in exactly one chunk, and the chunks of one producer's items concatenated give the items in the order they were sent. Every chunk is non-empty and holds at most the configured number of items, and a chunk already delivered is never changed afterwards. The same holds whether chunks are taken from the output channel or by a chunk function, for any buffer sizes and consumer speed, and the chunk function may add items itself; if the incoming channel is closed, what was sent before still is delivered and nothing else. Sizes reports the number of items waiting in the input and of chunks waiting in the output.",
  ["schedules", "inputs", "configurations"], "all interleavings of 1-2 producers, the chunker, the flush timer and a consumer, for chunk sizes 1-3 and buffer sizes 0-2",
  "Two tests push some numbers through and stop at the last one without checking completeness or order.",
  [CC], [("single goroutine filling a fresh slice per chunk", CC + " run")], ["contents of chunks", "later changes of delivered chunks"])
p("C23", "ChunkChan: partial chunks are flushed in time, cancellation frees everyone",
  "If the consumer keeps up, an accepted item is delivered no later than one chunk timeout after it was accepted, even if its chunk is not full, and a full chunk is delivered without waiting for the timeout. After the context is cancelled the component's goroutines end, even if nobody reads the output any more, and callers of Add do not stay blocked.",
  ["schedules", "fault_sequences"], "all sequences of sends and time advances up to a depth, and cancellation at every point of every interleaving with stalled consumers",
  "One test waits for one partial chunk; cancellation with a stalled consumer is never tried.",
  [CC], [("ticker flush and context case in the loop", CC + " run")], ["delivery times", "goroutines alive after cancellation", "blocked Add calls"])
SC = "chans/shard_chan.go"
p("C24", "ShardChan: each message once, on its shard, in order; cancellation frees all",
  "While the context is alive every accepted message is delivered exactly once, on the shard given by the shard function's value modulo the shard count; messages with equal values go to the same shard also if the value is negative, and one producer's messages keep their order within a shard. A worker function is called with the shard's own index, one message of a shard at a time, and may add messages itself. After cancellation Add returns the context's error instead of blocking and all goroutines end even if nobody reads the shards; Build without a shard function fails with an error and C of an index out of range is nil. If the incoming channel is closed, what was sent before still is delivered and nothing else. Sizes reports how many messages wait in each shard.",
  ["schedules", "inputs"], "all interleavings of 1-2 producers, the dispatcher and consumers for shard counts 1-3, buffer sizes 0-1 and shard values including negatives, with cancellation at every point",
  "The shard tests do not compile at this commit.",
  [SC], [("dispatcher goroutine routing by remainder", SC + " Build")], ["messages per shard", "goroutines alive after cancellation"])
SH = "chans/shard_chunk_chan.go"
p("C25", "ShardChunk: messages reach their shard's chunks exactly once and in order",
  "While the context is alive every message put on the incoming channel of a ShardChunk is delivered exactly once, in a chunk of the shard that its shard value selects, in order of sending for one producer, in chunks that are non-empty and no larger than configured; shard i's chunks come only from output i or are handed to the worker with index i, which may send messages itself. An accepted message is delivered within one chunk timeout when the consumer keeps up, and Sizes reports what waits in the queues. If the incoming channel is closed, what was sent before still is delivered and nothing else. After cancellation all goroutines end.",
  ["schedules", "configurations"], "all interleavings (within a preemption bound) of producer, dispatcher, forwarders, chunkers and consumers for 1-2 shards and chunk sizes 1-2",
  "One test logs what it receives and checks nothing.",
  [SH, SC, CC], [("dispatcher, one forwarder and one chunker per shard", SH + " Build")], ["contents of chunks per shard", "goroutines alive after cancellation"])
p("C26", "Runner: every accepted task runs once, bounded concurrency, cancellation frees",
  "While the context is alive every function given to Run or RunWithContext is executed exactly once, the latter with the runner's context; no more functions run at the same time than there are workers, and a free worker never leaves an accepted function waiting; functions may submit others or cancel the context. No function is ever executed twice. After cancellation the workers end once their current function returned, and callers of Run and RunWithContext do not stay blocked.",
  ["schedules"], "all interleavings of 1-3 submitters and 1-3 workers with both kinds of tasks, tasks that wait for each other, and cancellation at every point",
  "One test runs ten tasks and counts them.",
  ["workers/runner.go"], [("worker goroutines selecting on two task channels", "workers/runner.go Build")], ["task executions", "overlap", "goroutines alive after cancellation"])
p("C27", "CompareSlice: exact delete / create / modify partition",
  "For any two lists, delete holds exactly the current elements whose id does not occur in the other list, create exactly the other list's elements whose id does not occur among the current ones, and modify exactly the current elements whose id occurs in both, each in input order and with repetitions kept. So delete and modify together are the current list, and the inputs are not changed.",
  ["inputs"], "all pairs of lists up to a length over a few ids including repetitions, extreme ids and empty lists",
  "One test checks the lengths for one pair of lists.",
  ["comparer/comparer.go"], [("two id sets", "comparer/comparer.go CompareSlice")], ["the three returned lists"])
p("C28", "AES: round trip, tampering rejected, fresh nonces, no shared state",
  "Decrypt with the same key returns exactly the data given to Encrypt, for every length and every valid key size; any changed, shortened or extended ciphertext, or another key, gives an error and never data or a panic, and an invalid key size gives an error from both operations. Every encryption uses a fresh nonce, so encrypting equal data again gives a different ciphertext, also across instances. Results and inputs are independent of earlier and later calls and of concurrent use of one instance.",
  ["inputs", "fault_sequences", "schedules"], "all lengths up to several blocks for all key sizes, every single-bit change and every truncation of sample ciphertexts, repeated and concurrent encryptions",
  "The crypto package has no test.",
  ["crypto/aes.go"], [("AES-GCM with a random nonce prefix", "crypto/aes.go Encrypt, Decrypt")], ["returned data and errors"])
p("C29", "MD5 helpers give the standard digest",
  "GetMD5HashBytes returns the 16-byte MD5 digest of the text's bytes and GetMD5Hash the same digest as 32 lower-case hexadecimal digits, for every text. The results are fresh: changing a returned slice affects no other call, and concurrent calls do not influence each other.",
  ["inputs", "schedules"], "all lengths across block boundaries and all single bytes, interleaved and concurrent calls",
  "The crypto package has no test.",
  ["crypto/hash.go"], [("md5.Sum", "crypto/hash.go")], ["returned digests"])
F = "crypto_fs/crypto_fs.go"
p("C30", "CryptoFS: what was added and saved is exactly what is loaded",
  "A file system loaded from a saved archive with the same key (or none, if none was used) contains exactly the files and folders that were added, under the paths they were added with, with their contents byte for byte, base names, sizes and directory flags, for any folder tree including empty files and empty directories. Adding a missing file or folder, or one that cannot be read, is harmless and puts nothing in its place; saving again replaces the previous archive completely, and with a key set neither contents nor names can be found in the archive. Save and load report errors (unwritable path, full device, invalid key size) instead of claiming success. All this holds also while other archives are built, saved or loaded.",
  ["inputs", "fault_sequences", "histories"], "all small folder trees and orders of building, all key choices, save targets that fail, and repeated saves of different archives over each other",
  "One runnable test walks one folder without checking anything; the others depend on a path of the author's machine.",
  [F], [("gob-encoded table of files, optionally sealed with AES-GCM", F + " AddFile, AddFolder, Save, CryptoFSFromFile")], ["loaded tree", "archive bytes", "returned errors"])
p("C31", "CryptoFS reads like a file system: full contents, EOF, listings, walks",
  "Reading an opened file to its end with any buffer sizes yields exactly its contents and then io.EOF; handles are independent of each other and of concurrent use, and callers changing the bytes they read do not change the stored file. Stat, ReadDir and fs.WalkDir report exactly the stored tree: each child listed once with its base name and kind (also in the mode bits), each path visited once. Opening or listing an unknown path gives fs.ErrNotExist and listing a file gives an error.",
  ["inputs", "histories", "schedules"], "all read-size sequences over small files on one and two interleaved handles, all paths of small trees, concurrent readers",
  "The runnable test ignores the result of its walk.",
  [F], [("in-memory file objects", F + " Open, ReadDir, file methods")], ["bytes and errors of Read", "entries", "walk order"])
p("C32", "CryptoFS: torn, tampered or wrongly keyed archives are rejected",
  "Loading an archive that was cut off at any point (as by a crash while saving), changed in any bit of an encrypted archive, or opened with another, missing or superfluous key gives an error, never a panic and never a file system with missing or altered files. An archive that loads without error is complete, also while other archives are loaded.",
  ["crash_points", "fault_sequences"], "every prefix of plain and encrypted archives, every single-bit change of an encrypted archive, all wrong key choices",
  "No test loads a damaged archive.",
  [F, "crypto/aes.go"], [("authenticated encryption, gob framing", F + " CryptoFSFromFile")], ["error and contents after load"])
p("C33", "Flow processor: steps in order, stop at the first failure",
  "A built processor runs the conditions and actions of its routes in the order in which they were registered and stops at the first condition that does not hold or action that fails: then nothing later runs, in that route or any other, and that error is returned (an action's own error unchanged). It returns nil exactly if everything passed; RouteOn tests its condition before each of its actions. Processing keeps no state between calls, so calls are independent of each other, also when concurrent. Each route has its own steps, also when it is added while another one is being defined.",
  ["programs", "schedules"], "all small processors (up to 3 routes of up to 3 steps, each step passing or failing, built with Route, On, OnEvent, Do and RouteOn), repeated and concurrent calls",
  "The processor tests do not compile at this commit.",
  ["flow/processor.go"], [("routes as ordered chains of functions", "flow/processor.go")], ["order of calls", "returned error"])
p("C34", "Integer helpers: exact decimal shifts, true minima and maxima",
  "IntPointMove(v, n) is v times ten to the n for n>=0 whenever that fits, v divided by ten to the -n with truncation towards zero for n<0, and v for n=0, so shifting up and back is the identity. Every Min and Max function returns the smaller or larger of its arguments for its whole type, including extreme and unsigned values, and Min and Max of a pair together are the pair.",
  ["inputs"], "all pairs for the 8-bit types, all pairs of boundary values for the wider types, all shifts that fit",
  "One test checks two shifts; minima and maxima are not tested.",
  ["math/decimal_int.go", "math/minmax.go"], [("loops and comparisons", "math/")], ["returned values"])
N = "net/to_bytes.go"
p("C35", "Byte codecs: packing and unpacking are inverse and standard",
  "Integers packed by the byte helpers unpack to the same value, in little-endian or the given byte order, for every width and value that fits; unsupported types are refused and data too short to unpack gives an error from UnpackUint, not a panic. A size-prefixed message is its length (little-endian) followed by the payload, leaving the payload unchanged; Chunk splits data into pieces of the given size (the last possibly shorter) whose concatenation is the data; bool arrays survive packing to bits (bit i of byte i/8, zero padding) and back with a count; CopyBytes returns an independent prefix. Results do not share state with other calls.",
  ["inputs"], "all 16-bit values and boundary values of wider types in both byte orders, all bit arrays up to a length, all data lengths and chunk sizes up to a bound",
  "The net package has no test.",
  [N], [("pure conversion functions", N)], ["returned bytes, values, errors"])
p("C36", "ReadNBytes: exactly n bytes or an error, however the stream is fragmented",
  "ReadNBytes and ReadNBytesWithTimeout return exactly the next n bytes of the stream, in order and without consuming more, for every way the connection fragments them, also with empty reads in between. If the stream ends, fails or times out before n bytes arrived they return an error and no data; ReadNBytesWithTimeout sets a read deadline that far in the future before reading and reports a failure to set it. Consecutive reads continue where the last one ended.",
  ["inputs", "fault_sequences"], "all fragmentations of short streams, an error or end of stream at every position, every failing environment answer, sequences of reads",
  "The net package has no test.",
  ["net/read.go"], [("io.ReadFull", "net/read.go")], ["returned bytes and errors", "bytes consumed", "deadline set"])
p("C37", "GZip: lossless round trip, damage never yields wrong data",
  "Decompressing compressed data gives exactly the original, for every input including empty and large ones, and the compressed form is a standard gzip stream. Truncated input, changed bytes or non-gzip input give an error or (for bytes that carry no data) the original, never different data, a partial result reported as success, or a panic. Streams one after the other decompress to the texts one after the other, anything else behind a stream is an error. Returned slices are independent of other calls, also concurrent ones.",
  ["inputs", "fault_sequences", "schedules"], "all short inputs over a small alphabet, sizes around internal buffer boundaries, every truncation and every single-bit change of sample streams, interleaved and concurrent calls",
  "One test checks one text.",
  ["zip/gzip.go"], [("compress/gzip with checksums", "zip/gzip.go")], ["returned data and errors"])

p("C38", "Channel and worker builders: each built object keeps its own settings",
  "A ChunkChan, ShardChan, ShardChunk or Runner behaves as its builder was set when it was built: setting the builder differently afterwards (also concurrently with the object's work), and building further objects from the same or from another builder, changes neither its configuration nor what it delivers. The queues of a ChunkChan or ShardChan have the configured sizes: with nobody reading, what they hold is accepted and at most a few items in work besides, then Add waits. Two objects share a channel only if that channel was given to both; nothing given to one object is delivered by, or executed by, another, and cancelling one's context ends only that one.",
  ["programs", "schedules", "configurations"], "all pairs of objects from one or two builders, for every setting changed in between, under all schedules of both at work",
  "Tests build one object per builder and never touch the builder again.",
  [CC, SC, SH, "workers/runner.go"], [("Build methods of the builders", CC + " Build"), ("Build methods of the builders", SC + " Build"), ("Build methods of the builders", SH + " Build"), ("Build methods of the builders", "workers/runner.go Build")], ["what each object delivers or executes, in which shape and when"])
p("C39", "Collections do not influence each other, and what they return is the caller's",
  "Two collections, whether built by two builders or by one builder set anew in between, behave exactly as each would alone: entries, locks, limits, timeouts, callbacks and loaders of one never show in the other, and work on one is never held up by work on the other. Maps and slices returned by a collection (Keys, Values, GetStored and the like) belong to the caller: changing them changes no collection, and later operations do not change them.",
  ["histories", "schedules", "configurations"], "for each of the kinds of collection all interleaved operation sequences of two objects up to a depth, for each way of building the two, with returned containers overwritten",
  "Tests use one object at a time.",
  [G, "collections/hash_set.go", "collections/holder_map.go", "collections/lock_map.go", "collections/map.go", "collections/shard_map.go", R, S, "collections/set.go", U, "collections/two_key_map.go", W], [("constructors and builders", "collections/")], ["results of all operations compared with the object alone"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
