#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here because JSONL is hard to review."""
import json, os
G, C, M, D = "internal/dag/generate.go", "internal/dag/cache.go", "internal/dag/mmap.go", "internal/dag/dag.go"
CL = ["ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOHOOK = None
ONE = "Every existing test calls a client from one goroutine, in order, on an undisturbed disk."

p("C01", "Concurrent Compute calls on a DAG client each return their own right answer",
  "Any number of goroutines may call Compute on one client of any DAG-based algorithm (Ethash, Etchash, Kawpow, Firopow, Octopus), or on several clients at once, for any mix of heights. Under every interleaving each call returns, without panicking or blocking for ever, exactly the mix and digest the algorithm defines for that call's own header hash, height and nonce. Which calls ran before or at the same time has no influence on a result.",
  ["schedules", "histories", "configurations"],
  "all interleavings of concurrent Compute calls and background preparation, all request histories, with on-disk and memory-only storage",
  ONE + " No schedule is ever varied, and no test compares a result against another history.",
  [D, C, G, "internal/progpow/algorithm.go", "internal/crypto/hasher.go"] + CL + ["ethash/ethash.go", "kawpow/kawpow.go", "firopow/firopow.go", "octopus/octopus.go"],
  [("mutex around the epoch map", D + " GetCache"), ("sync.Once per epoch", C + " generate"), ("one hasher per lookup function", D + " NewLookupFunc*")],
  ["return values of Client.Compute"],
  [("caches", "epochs the client retains", D), ("future", "epoch prepared ahead", D)], NOHOOK)

p("C02", "An epoch is generated once, however requests interleave",
  "Requests for the same epoch that arrive together, in any interleaving with each other and with background preparation, share one generation of that epoch's cache: while the epoch stays retained it is generated at most once (with storage: unless its stored file is removed or damaged before it could be loaded). No request computes with a cache before that generation has finished.",
  ["schedules", "histories"],
  "all interleavings of requests for an epoch with each other and with its background preparation",
  ONE + " Nothing counts generations.",
  [D, C], [("sync.Once per epoch", C + " generate"), ("lookup and insertion under one lock", D + " GetCache")],
  ["number of cache generations per epoch", "return values of Client.Compute", "storage operations"],
  [("once", "generation done or in progress", C)], NOHOOK)

p("C03", "The next epoch is prepared in the background, and only that one",
  "After a request for an epoch, the epoch after it is prepared in the background without further calls, unless that or a later epoch is already prepared ahead; a later first request for it uses the prepared cache and neither generates nor loads it again. A client prepares at most the single epoch following a requested one.",
  ["schedules", "histories"],
  "all request histories and all timings of the background preparation",
  ONE + " The background work's outcome is never looked at.",
  [D, C], [("future cache and its goroutine", D + " GetCache")],
  ["number of cache generations per epoch", "files published in the storage directory"],
  [("future", "epoch prepared ahead", D)], NOHOOK)

p("C04", "Retained epochs are bounded and the least recently requested goes first",
  "A client retains at most its configured number of requested epochs (three for every shipped coin) plus at most one prepared-ahead epoch, for every history of requests. When it has to drop one, it drops the requested epoch whose latest request is oldest, so the most recently requested ones stay ready without being loaded or generated again.",
  ["schedules", "histories", "configurations"],
  "all histories of requests over many epochs, retention limits, and interleavings",
  "No test requests more epochs than fit or looks at which stay.",
  [D, C], [("eviction scan over last-use times", D + " GetCache")],
  ["memory mappings alive after garbage collection", "loads and generations caused by a request"],
  [("caches", "retained epochs", D), ("used", "time of the latest request", C)], NOHOOK)

p("C05", "Cache memory is never unmapped or rewritten while a computation uses it",
  "A cache's memory stays mapped and unchanged until the last computation using it has finished, wherever garbage collection, finalizers, eviction, and removal of its file fall. No Compute call ever touches unmapped memory or writes to memory mapped read-only.",
  ["schedules", "histories", "fault_sequences"],
  "all placements of garbage collections and finalizer runs, evictions and file removals inside running computations",
  "Tests do not evict during a computation, and garbage collection falls where it happens to fall.",
  [C, M, D] + CL, [("finalizer unmaps", C + " finalizer"), ("KeepAlive after hashing", "Compute in each client")],
  ["memory faults inside Compute", "return values of Client.Compute"], None, NOHOOK)

p("C06", "Dropped epochs and failed loads release their mappings and descriptors",
  "Once no call uses an epoch the client no longer retains and garbage collection has run, its memory mappings are gone and its file descriptors closed, each exactly once. What a failed load or a failed attempt to store a cache had opened and mapped is released too. No history of requests, evictions, rejected files and storage errors makes the number of open descriptors or mappings of a client exceed what its retained epochs need.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of requests and evictions, storage error sequences and collection times",
  "No test counts descriptors or mappings, or injects an error on the paths that must close them.",
  [C, M], [("finalizer unmaps and closes", C + " finalizer"), ("close on error paths", M)],
  ["open descriptors and mappings of the process"], None, NOHOOK)

p("C07", "A process killed at any instant never poisons later results",
  "If the process is killed at any instant, including in the middle of generating, publishing or removing cache files, then after a restart every Compute call returns the algorithm's answer and none panics or fails because of what the dead process left in the storage directory.",
  ["crash_points", "schedules", "histories"],
  "all kill points in all operations, repeated kills, any history before",
  "No test kills a process or starts from what a killed one left.",
  [M, C], [("temporary file, then rename", M + " memoryMapAndGenerate"), ("magic and size check", M + " memoryMap")],
  ["return values of Client.Compute after restart", "contents of the storage directory"], None, NOHOOK)

p("C08", "After a power loss no incompletely stored cache is ever used",
  "If the machine loses power at any instant, so that any subset of data not yet forced to disk is lost while file names and sizes may survive, then after a restart every Compute call returns the algorithm's answer. A cache file of which any part did not reach the disk is never used.",
  ["crash_points", "fault_sequences", "histories"],
  "all power-loss instants and all subsets of unsynced blocks and directory operations surviving",
  "No test loses unsynced data.",
  [M], [("sync before rename", M + " memoryMapAndGenerate"), ("magic and size check", M + " memoryMap")],
  ["return values of Client.Compute after restart"], None, NOHOOK)

p("C09", "Storage errors and a full disk never change, fail or crash a computation",
  "Whatever storage operations fail, and when (directory creation, open, create, extend, map, lock, sync, close, rename, remove; missing permission, I/O error, disk full, too many open files), every Compute call still returns the algorithm's answer, falling back to memory. No such failure crashes the process or blocks a call for ever.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of failing storage operations, transient and permanent, with any interleaving",
  "Every test has a working, nearly empty disk.",
  [C, M], [("in-memory fallback", C + " generate"), ("error returns", M)],
  ["return values of Client.Compute", "process survival"], None, NOHOOK)

p("C10", "Damaged or foreign files under a cache's name are rejected and replaced",
  "A file found under a cache's name that is empty, shorter or longer than the cache it should hold, has a wrong header, or cannot be opened or mapped never crashes a client and never contributes to a result. The epoch is generated again and, where the storage allows and the epoch lies within the retention window, a whole file takes its place.",
  ["fault_sequences", "histories", "configurations"],
  "all lengths from empty to oversized, header damage, object types and permissions, for every cache file and in any combination",
  "No test starts from a damaged file.",
  [M, C], [("magic and size check", M + " memoryMap"), ("regeneration", C + " generate")],
  ["return values of Client.Compute", "files after the call"], None, NOHOOK)

p("C11", "Processes sharing one storage directory never disturb each other's results",
  "Any number of processes and clients may use the same storage directory at the same time, generating, loading, replacing and removing cache files in any interleaving, and starting in identical random states. Every Compute call in each of them returns the algorithm's answer, and none crashes.",
  ["schedules", "crash_points", "histories"],
  "all interleavings of several processes' storage operations, with kills of some of them",
  "Tests run the packages one after another, partly to avoid exactly this.",
  [M, C], [("unique temporary name and atomic rename", M + " memoryMapAndGenerate"), ("unlink keeps mappings valid", C)],
  ["return values of Client.Compute in every process", "contents of published files"], None, NOHOOK)

p("C12", "Old epochs' files are removed, recent and newer ones are kept",
  "Whenever a client has generated and stored an epoch's cache, the same coin's files for epochs at least the retention count older are gone from the storage directory. Files of epochs within the retention window, and of newer epochs, are never removed, so following a chain uses bounded disk space.",
  ["histories", "schedules", "configurations"],
  "all request histories, restarts, retention counts and interleavings with background preparation",
  "No test looks at the directory's contents.",
  [C], [("removal loop after generation", C + " generate")],
  ["files in the storage directory"], None, NOHOOK)

p("C13", "Stored caches are reused across restarts, unchanged",
  "A cache that an earlier process completed and stored is loaded as it is by every later client of that coin: it is not generated again and its file is not rewritten. This holds separately for the main cache and for the small first-level cache of the algorithms that have one.",
  ["histories", "schedules", "crash_points"],
  "all histories of requests and restarts (clean or by kill) with an undamaged storage directory",
  "Tests generate from an empty directory and compare only hashes, so regenerating every time would pass.",
  [C, M], [("load before generate", C + " generate"), ("file name from coin, revision and seed", D)],
  ["number of cache generations", "storage operations on existing files"], None, NOHOOK)

p("C14", "A slow generation of one epoch never blocks requests for ready epochs",
  "A Compute call for an epoch that is ready completes within a bounded number of its own steps even if the generation, loading or storing of any other epoch is stalled indefinitely. Calls needing the stalled epoch complete once it proceeds, and no schedule deadlocks.",
  ["schedules", "fault_sequences"],
  "all points at which another epoch's generation or storage operation stalls, and all interleavings",
  "Tests never stall anything and run one call at a time.",
  [D, C], [("lock released before generating", D + " GetCache"), ("background goroutine for the next epoch", D + " GetCache")],
  ["completion of Compute calls while another task is stalled"], None, NOHOOK)

p("C15", "Concurrent use of the non-DAG clients never mixes calls up",
  "Any number of goroutines may use the same client, or several clients, of Equihash/ZelHash, BeamHashIII, Cuckoo/Cuckaroo, Eaglesong, HeavyHash and Autolykos2 at once. Under every interleaving, and after every history of earlier calls, each Verify or Compute returns the verdict, error or digest the algorithm defines for its own arguments.",
  ["schedules", "histories"],
  "all interleavings of calls on shared clients and all histories of earlier calls",
  ONE + " Each test also builds a fresh client per vector, so state carried between calls is invisible.",
  ["equihash/equihash.go", "beamhashiii/beamhashiii.go", "cuckoo/cuckoo.go", "cuckoo/cuckaroo.go", "eaglesong/eaglesong.go", "heavyhash/heavyhash.go", "heavyhash/matrix.go", "autolykos2/autolykos2.go", "internal/crypto/siphash.go", "internal/crypto/blake.go", "internal/crypto/shakehash.go"],
  [("no state kept between calls", "Client of each package")],
  ["return values of Verify and Compute"], None, NOHOOK)

p("C16", "Callers' buffers are only read, and results belong to the caller",
  "No call of any client ever writes to a slice passed to it, nor to the spare capacity behind it, so one buffer may be passed to concurrent calls. A returned slice is never written again by the library and never shared with another result, whatever calls follow or run at the same time.",
  ["schedules", "histories"],
  "all interleavings and histories of calls sharing argument buffers, with results kept and overwritten by the caller",
  "Tests pass each buffer once, with no spare capacity, and look at a result only at once.",
  ["ethash/ethash.go", "kawpow/kawpow.go", "firopow/firopow.go", "octopus/octopus.go", "autolykos2/autolykos2.go", "equihash/equihash.go", "beamhashiii/beamhashiii.go", "cuckoo/client.go", "eaglesong/eaglesong.go", "heavyhash/heavyhash.go"],
  [("copies before appending", "compute functions of each package")],
  ["argument buffers and kept results after every call"], None, NOHOOK)

p("C17", "The table generator reports success only for a complete, exact file",
  "When the lookup-table generator exits successfully, the file it wrote holds, for every epoch from zero to the requested count and nothing else, the cache size and dataset size the formulas give, whatever happened while writing. If the file cannot be created or any part of it cannot be written, it exits with a failure status.",
  ["fault_sequences", "configurations"],
  "all write-fault sequences (open errors, short writes, full disk, close errors) and all epoch counts and parameters",
  "The generator has no tests.",
  ["cmd/gen-lookup/main.go", "internal/dag/dag.go"],
  [("fatal exit on write error", "cmd/gen-lookup/main.go saveToFile"), ("row formatting", "cmd/gen-lookup/main.go formatLookupTable")],
  ["exit status and contents of the written file"], None, NOHOOK)

p("C18", "Following a chain across any epoch boundary never brings the process down",
  "A shipped coin's client that is asked for heights advancing along its chain, in any steps across any epochs including the last ones covered by its precomputed size tables and the ones after, answers every call, with the cache and dataset sizes the coin's formulas give for the epoch and with the algorithm's digest. Neither a call nor the background preparation it starts panics at any epoch up to at least twice the tables' range.",
  ["histories", "schedules", "configurations"],
  "all histories of heights for each shipped coin, with the background preparation finishing at any time",
  "Tests use a handful of heights far from the tables' end and never wait for the background work, whose panic kills the process.",
  [D, "internal/dag/config.go", "ethash/ethash_lookup.go", "kawpow/kawpow_lookup.go", "firopow/firopow_lookup.go", "octopus/octopus_lookup.go"] + CL,
  [("table range check with formula fallback", D + " CacheSize, DatasetSize"), ("background preparation of the next epoch", D + " GetCache")],
  ["process survival", "return of Client.Compute"], None, NOHOOK)

p("C19", "A client touches only its own coin's cache files in its storage directory",
  "A client creates, writes, replaces and removes only its own coin's and revision's cache files (and temporaries) inside its storage directory, which for shipped coins lies in the user's home, and never uses another coin's file as its own data. Other coins' files, other revisions' files and unrelated files and directories stay exactly as they were, under every history, fault and interleaving.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "all histories of several coins' clients sharing a directory that also holds other files, with storage faults",
  "No test puts anything else in the directory or looks at it.",
  [C, D, M, "internal/common/filesystem.go"], [("file name from coin, revision and seed", D + " cacheStorageLocation, l1StorageLocation"), ("removal by exact name", C + " generate")],
  ["all files on the simulated disk", "paths given to storage operations"], None, NOHOOK)

p("C20", "Wall-clock jumps change neither results nor which epoch is dropped",
  "When the wall clock is set forwards or backwards by any amount at any time, every Compute call still returns the algorithm's answer, and the epoch dropped is still the one requested least recently in real order.",
  ["fault_sequences", "histories", "schedules"],
  "all sequences of wall-clock jumps between and during requests",
  "The tests' clock never jumps, and no test evicts.",
  [D], [("monotonic comparison of last-use times", D + " GetCache")],
  ["loads and generations caused by a request", "return values of Client.Compute"], None, NOHOOK)

p("C21", "A cache file appears under its name only complete, and never changes after",
  "At every instant, a file visible under a cache's final name that this library put there holds a complete cache, header and contents. From then on its contents never change; it can only be replaced by another complete file or removed.",
  ["schedules", "crash_points", "fault_sequences"],
  "every instant of every execution, with several processes, crashes and storage errors",
  "Tests never look at the directory while a generation runs.",
  [M], [("temporary file, then rename", M + " memoryMapAndGenerate"), ("read-only mapping of published files", M + " memoryMap")],
  ["contents of the storage directory at every storage operation"], None, NOHOOK)

p("C22", "No temporary files outlive the work that made them",
  "Once a client's calls and background work have finished, nothing it created remains in the storage directory except complete cache files under their final names, whatever storage operations failed on the way (other than removing the temporary itself). Only killing the process in the middle may leave a temporary behind.",
  ["fault_sequences", "schedules"],
  "all sequences of failing storage operations during generation, and all interleavings",
  "No test makes a storage operation fail or lists the directory.",
  [M], [("removal of the temporary on error paths", M + " memoryMapAndGenerate")],
  ["files in the storage directory at quiescence"], None, NOHOOK)

p("C28", "Every call ends, and following the chain leaves no goroutines behind",
  "Once faults stop, every Compute and Verify call returns within a bounded number of steps, whatever the schedule, evictions and storage errors before it (heavyHash of an all-zero header excepted, for which the coin's own definition of the matrix never ends). When all calls have returned and the background preparation has ended, the goroutines a client has left do not grow in number with the epochs requested or the calls made.",
  ["schedules", "fault_sequences", "histories"],
  "all histories of requests for any number of epochs, all interleavings, all storage errors on the way",
  "No test follows more than one epoch, or looks at what runs afterwards.",
  [D, "equihash/equihash.go", "beamhashiii/beamhashiii.go"], [("one goroutine per prepared epoch, which ends with the generation", D + " GetCache")],
  ["return of Client.Compute and Verify", "number of goroutines at quiescence"], None, NOHOOK)

p("C29", "Concurrent use is free of data races",
  "Whatever the schedule, calls on shared or separate clients of any algorithm from several goroutines, clients made meanwhile, and the library's own background work (preparation of the next epoch, finalizers) never access the same memory, one of them writing, without synchronisation between them, as `go test -race` would report it.",
  ["schedules", "histories"],
  "all interleavings of calls, constructors, preparations and finalizers; all orders of synchronisation",
  "No test makes calls concurrently, and the race detector reports only what the schedules it happens to see leave unordered.",
  [D, C, "ethash/ethash.go", "kawpow/kawpow.go", "firopow/firopow.go", "octopus/octopus.go", "equihash/equihash.go", "beamhashiii/beamhashiii.go", "cuckoo/cuckoo.go", "eaglesong/eaglesong.go", "heavyhash/heavyhash.go", "autolykos2/autolykos2.go"],
  [("client mutex around the caches", D + " GetCache"), ("once around generation", C + " generate"), ("tables filled at package initialisation", "internal/crypto")],
  ["memory accesses of the library's code, as the race detector sees them"], None, NOHOOK)

PURE = "Only fixed vectors are tested; the claim is for every input. It is also out of this technique's reach: see MANIFEST.json not_applicable."
p("C23", "DAG algorithms' digests agree with their specifications for every input",
  "For every header hash, height and nonce, Compute of Ethash, Etchash, Kawpow, Firopow and Octopus returns the mix and digest that the coin's consensus rules define.",
  ["inputs"], "all header hashes, heights and nonces", PURE,
  [G, "internal/progpow/algorithm.go", "ethash/ethash.go", "kawpow/kawpow.go", "firopow/firopow.go", "octopus/octopus.go"],
  [("port of the reference algorithm", "these files")], ["return values of Client.Compute"])
p("C24", "Equihash, ZelHash and BeamHashIII accept exactly the valid solutions",
  "Verify returns true if and only if the solution is a valid solution of the stated parameters for the header: every level collides, indices are ordered and distinct, and the final value is zero.",
  ["inputs"], "all headers and solutions", PURE,
  ["equihash/equihash.go", "beamhashiii/beamhashiii.go"], [("tree validation", "verify")], ["return values of Verify"])
p("C25", "Cuckoo and Cuckaroo accept exactly the valid cycles in canonical order",
  "Verify returns true if and only if the edges are within range, strictly ascending, and form a single cycle of the required length in the header's graph.",
  ["inputs"], "all headers and edge lists", PURE,
  ["cuckoo/cuckoo.go", "cuckoo/cuckaroo.go"], [("range, order and cycle checks", "cuckoo, cuckaroo")], ["return values of Verify"])
p("C26", "Eaglesong, HeavyHash and Autolykos2 digests agree with their specifications",
  "For every input, Compute returns the digest that the coin's consensus rules define.",
  ["inputs"], "all inputs", PURE,
  ["eaglesong/eaglesong.go", "heavyhash/heavyhash.go", "heavyhash/matrix.go", "autolykos2/autolykos2.go"], [("port of the reference algorithm", "these files")], ["return values of Compute"])
p("C27", "Malformed arguments give an error, never a panic or a wrong acceptance",
  "For arguments of any length and content, every Verify and Compute returns a result or an error; it never panics, and never accepts a solution of the wrong length.",
  ["inputs"], "all argument lengths and contents", PURE,
  ["equihash/equihash.go", "beamhashiii/client.go", "cuckoo/client.go", "heavyhash/client.go", "autolykos2/client.go"] + CL, [("length checks", "client.go of each package")], ["return values and panics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
