#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every sequential history behaves as a map",
  "For every prefix-free set of non-empty keys and every sequence of completed inserts, updates, deletes and lookups, the index behaves as a map: a lookup of a stored key returns the value last finalized for it, and an operation on a key that is not stored reports either nothing or the value of a different stored key. An operation that runs alone always succeeds (never a write conflict, never a panic or a hang), and it changes no key but its own. This holds whether operations go through the tree or through a reserved allocator.",
  ["histories", "inputs"], "All operation sequences over small colliding key alphabets, from the empty index and from populated ones (narrow, 127/128-wide and 256-wide nodes, compressed paths, index reduced to one key).",
  "The tests insert each key once, look all of them up, then delete all of them, over 8-byte integers, plus five hand-written insert sequences; interleaved deletes/updates/inserts, shrinking, wide nodes under compressed paths and mismatching candidates are never combined.",
  ["radix.go", "update.go", "delete.go", "unsafe.go", "utils.go"],
  [("copy-on-write structural edits", "update.go:Finalize, delete.go:Finalize"), ("search", "radix.go:search")],
  [("root", "tagged word: empty, leaf or node", "radix.go:Tree.root")], ["Lookup", "PrepareUpdate/Finalize", "PrepareDelete/Finalize"])

p("C02", "Concurrent operations are linearizable",
  "For every schedule of concurrent lookups, inserts, updates and deletes (each restarted when it reports a write conflict), there is an order consistent with real time in which a sequential map would give all the same results. In particular no acknowledged write is lost, no deleted key reappears, and a key no writer touches stays visible to every concurrent lookup.",
  ["schedules"], "All interleavings of two writers/readers, and all interleavings up to a preemption bound of three, on every pair/triple of operations over trees that exercise every structural edit, including nodes that share a lock and nodes in different memory blocks.",
  "The tests run one goroutine per CPU over disjoint key ranges in one phase per kind (all insert, all look up, all delete); no test mixes kinds, none has two writers on one key, and the scheduler picks the interleavings.",
  ["update.go", "delete.go", "locks.go", "radix.go"],
  [("generation locks re-checked from parent to child", "update.go:prepareUpdate, delete.go:prepare, locks.go"), ("copy-on-write with a single publishing store", "update.go:Finalize, delete.go:Finalize"), ("root lock while the root is empty or a leaf", "locks.go:lockLeafRoot")],
  [("locks", "generation counters, odd = locked, shared by nodes that hash to the same lock", "radix.go:nodeBlock.locks")],
  ["results of Lookup, PrepareUpdate/Finalize, PrepareDelete/Finalize"])

p("C03", "Prepare/Finalize is an atomic read-modify-write",
  "When a prepared update or delete is finalized successfully, the value it reported at preparation (or that nothing was found) was still current at that moment: concurrent read-modify-write loops never lose a step, and of several clients that race to insert, or to delete, the same key exactly one does so. A finalize that reports a conflict has changed nothing.",
  ["schedules"], "All interleavings of two clients, and bounded ones of three, that increment, insert-if-absent or delete the same or neighbouring keys, on each tree shape.",
  "No test updates or deletes a key from two goroutines, and no test provokes a write conflict, so neither a lost increment nor a double delete nor a half-applied conflict could show.",
  ["update.go", "delete.go", "locks.go"],
  [("locks held from prepare to finalize", "update.go:lock/unlock, delete.go:lock/unlock"), ("compare-and-swap of the leaf", "update.go:Finalize")],
  [("currentLeaf", "leaf word the caller was shown", "update.go:UpdateOperation")], ["op.Value", "Finalize result", "final Lookup"])

p("C04", "Iteration of a still index is complete, ordered and finite",
  "Iterating an index that nobody is modifying returns the value of every stored key that starts with the given prefix, each exactly once, in lexicographic key order, and then ends; an empty prefix means all keys. When no stored key starts with the prefix it returns nothing, or one value, that of a different stored key. Resetting an iterator, at any point, gives the same result as a new one.",
  ["inputs", "histories"], "All small key sets and all prefixes over their alphabet; all sizes and tree shapes around the iterator's internal batch limit, so that a batch ends at every possible place in the tree.",
  "The one iteration test that runs counts 1M/10M integers, sizes for which the last batch happens to be short; the prefix test needs a data file that is absent. Order and batch ends are never checked.",
  ["iterator.go", "radix.go"],
  [("depth-first batch scan with resume position", "iterator.go:Next, storeResumePosition"), ("prefix seek", "radix.go:partialSearch")],
  [("resumeAt", "partial key at which the next batch starts", "iterator.go:Iterator")], ["Iterator.Next", "Iterator.Value"])

p("C05", "Iteration stays exact while other keys change",
  "An iteration that overlaps inserts, updates and deletes of other keys ends, and returns every key under its prefix that is stored and unmodified throughout it exactly once, in lexicographic order relative to the other such keys. Every other value it returns was stored at some time during the iteration, and no deleted or inserted key makes it return keys that it already returned.",
  ["histories", "schedules"], "Every small modification (one or two inserts, deletes or updates, or the removal of a whole subtree) at every step of iterations that span several internal batches; and all interleavings of a writer with a scan.",
  "No test modifies an index while iterating it.",
  ["iterator.go", "radix.go", "allocator.go"],
  [("resume by partial key", "iterator.go:Next, storeResumePosition"), ("epoch reservation per batch", "iterator.go:Next")],
  [("resumeAt", "partial key at which the next batch starts", "iterator.go:Iterator")], ["Iterator.Next", "Iterator.Value"])

p("C06", "Min and max are the extremes of the stored keys",
  "On an index nobody is modifying, the minimum (maximum) for a prefix is the value of the lexicographically first (last) stored key that starts with that prefix, for every key set, history and prefix, the empty prefix meaning all keys. When no stored key starts with the prefix, the answer is none, or the value of a different stored key.",
  ["inputs", "histories"], "All small key sets and prefixes; all fan-outs from 1 to 256; histories that empty part or all of a wide node.",
  "The tests ask once for the overall minimum and maximum of full integer sets and only compare the two with each other; prefixes and deletions are not covered.",
  ["radix.go"], [("prefix seek", "radix.go:partialSearch"), ("leftmost/rightmost descent", "radix.go:MinKey, MaxKey")], [], ["MinKey", "MaxKey"])

p("C07", "Len, counts and size statistics agree with the contents",
  "Whenever no operation is in flight, Len is the number of stored keys, whichever allocators inserted and deleted them and whenever their statistics were flushed, and Count for a prefix returns as leaves the number of stored keys that start with it (one leaf of a different key may be counted when there is none). A counter's breakdown describes the nodes it counted: the per-size histogram adds up to the number of nodes, the sizes add up to the number of edges (a node with 128 or more branches counts as one of size 256), and prefix totals count each node once.",
  ["histories", "inputs", "schedules"], "All operation sequences with allocator choice, flushes and aborts; all prefixes; wide and narrow nodes; all schedules of concurrent writers followed by Len.",
  "The tests compare Len with the number of leaves after bulk inserts and after deleting everything; allocators with uneven counts, failed operations, prefixes and the breakdown are not checked.",
  ["radix.go", "counter.go", "allocator.go", "update.go", "delete.go"],
  [("per-allocator item counters", "allocator.go:FlushStats, radix.go:Len"), ("traversal", "counter.go:Count")],
  [("itemCounter", "inserts minus deletes not yet flushed", "allocator.go:Allocator")], ["Len", "Count", "Counter fields"])

p("C08", "Saved state restores an equal, fully working index",
  "State written from a stopped index and loaded again gives an index with the same contents, order and Len, for every history before the save and every schedule of the index's background activity. Every later operation on the loaded index behaves as it would have on the original: nothing restored is ever overwritten by later inserts, freed memory is reused safely, and saving and loading again works too. The number of bytes reported is the number written.",
  ["histories", "schedules"], "All short histories, with 1-3 allocators and several memory blocks, saved at each point, followed by all short continuations; all schedules of the background goroutines and compression workers during the save.",
  "No test writes or loads state.",
  ["state.go", "allocator.go", "radix.go"],
  [("header, allocator sections, compressed blocks", "state.go:writeState, loadState, allocator.go:writeState, loadState"), ("block allocator", "radix.go:blockAllocator")],
  [("nextFreeBlock", "number of blocks handed out", "radix.go:Tree")], ["WriteState", "NewTreeFromState"])

p("C09", "A truncated state is refused, never loaded in part",
  "Loading a state stream that ends early, at any byte, returns an error; it does not panic or hang, and does not return an index in which stored keys are missing or that cannot be used. A state written for a different block size is refused.",
  ["crash_points", "inputs"], "Every proper prefix of the byte stream of saved indexes (empty, one key, several blocks, recycled memory, several allocators), as a crash or full disk during the save leaves behind.",
  "No test loads state at all.",
  ["state.go", "allocator.go"], [("section and length parsing", "state.go:loadState, allocator.go:loadState")], [], ["NewTreeFromState error"])

p("C10", "A failing writer makes the save fail, promptly and cleanly",
  "If the destination reports an error at any point of a save, saving returns an error instead of hanging or reporting success, under every schedule of its workers. The index is unharmed: it can be saved again and started again, and still has all its keys.",
  ["fault_sequences", "schedules"], "An error injected at every write call of the save (and every partial length), for indexes from one block to more blocks than any internal queue holds, over all worker schedules up to a bound.",
  "No test writes state, let alone to a failing writer.",
  ["state.go", "allocator.go"], [("compression workers and writer goroutine", "state.go:writeState")], [], ["WriteState result"])

p("C11", "Memory a reader can still reach is never reused",
  "While a lookup, iteration step, count, minimum or maximum is in progress, no memory it can still reach is handed out again and overwritten, however many writers recycle and allocate meanwhile. A read therefore never sees a word that belongs to another part of the index, never panics and never returns a value that was not stored at some time during it.",
  ["schedules", "histories"], "All interleavings of each kind of reader with a writer that retires nodes, crosses the reclamation epoch and allocates again, at each distance from the next epoch change; the same for two writers.",
  "The tests never read while writing, and reclamation needs a thousand retired nodes plus a reader caught in between.",
  ["allocator.go", "epoch.go", "radix.go", "iterator.go", "counter.go"],
  [("epoch reservation", "allocator.go:startOp, endOp"), ("reuse only below the minimum reservation", "allocator.go:newNode, epoch.go:minReservation"), ("retire after unlinking", "allocator.go:recycle")],
  [("globalEpoch", "advanced every 1000 retired nodes per allocator", "epoch.go:epochManager")], ["Lookup", "Iterator", "Count", "MinKey", "MaxKey"])

p("C12", "A reserved allocator has one owner; stopped means quiet",
  "At every moment each allocator is held by at most one client, under all schedules of reservations, releases, tree operations, Stop, Start and Len. Between the return of Stop and the next Start no operation is in progress, and asking for Len keeps it that way; Len counts at an instant when no operation is in progress. After everything is released, all allocators are available again.",
  ["schedules"], "All interleavings of two or three clients issuing reserve/release, Len, Stop/Start and single operations on indexes with 1-2 allocators.",
  "The only slot test is single-threaded; Stop/Start is not tested and no test calls Len from two goroutines.",
  ["slots.go", "radix.go", "allocator.go", "admin.go"],
  [("slot pool", "slots.go:get, put"), ("withdraw all allocators", "radix.go:Stop, Start, Len")],
  [("stopped", "index is stopped", "radix.go:Tree")], ["GetAllocator", "ReleaseAllocator", "Stop", "Start", "Len"])

p("C13", "Aborting a prepared operation leaves no trace",
  "Aborting any prepared update or delete, for any key and tree shape, leaves contents, counts and structure as they were before it was prepared, and releases everything it held: afterwards every key can be updated and deleted by anyone without conflict. It never panics or hangs.",
  ["inputs", "histories", "schedules"], "Every prepare on every tree reachable by short histories, aborted, followed by every operation; and all interleavings of an aborting client with a writer.",
  "The tests abort only on duplicate keys, which their data does not contain, so Abort never runs on a prepared operation.",
  ["update.go", "delete.go", "locks.go"], [("unlock per operation kind", "update.go:Abort, delete.go:Abort, locks.go")], [], ["Abort", "later operations"])

p("C14", "Every started operation completes",
  "Under every schedule, no set of concurrent operations (lookups, updates, deletes with restart on conflict, iterations, counts, Len, Stop/Start, saving), by clients that start no other operation while one is unfinished, deadlocks or keeps restarting forever once the operations it conflicts with have finished. When all have finished, every internal lock and reservation is free: any key can be written and the memory freed since is reclaimable.",
  ["schedules"], "All interleavings of two and bounded ones of three clients over all pairs of operations and tree shapes, with a deadlock defined as no client able to take a step and a livelock as only clients that retry in vain.",
  "A test run that does not hang shows one schedule; the tests have no contention on a node, and no two clients that withdraw all allocators.",
  ["locks.go", "update.go", "delete.go", "slots.go", "radix.go", "admin.go"],
  [("try-locks with rollback", "locks.go:lockNodes2, lockNodes3"), ("restart loops", "update.go:prepareUpdate, delete.go:prepare"), ("slot pool", "slots.go:get")], [], ["termination of each call"])

p("C15", "Steady churn does not grow memory",
  "A client that keeps repeating a cycle of inserts, updates and deletes that ends with the key set it began with uses, after a warm-up, no further memory blocks, however long it goes on and wherever in the tree the changes fall. (Records larger than 2 KiB are outside this promise.)",
  ["histories"], "All short cyclic operation sequences over key alphabets that produce every structural edit, each repeated over several reclamation epochs.",
  "No test that runs inserts again after deleting; the repeated insert/delete test needs an absent data file and does not look at memory.",
  ["allocator.go", "update.go", "delete.go", "epoch.go"],
  [("recycling lists by size", "allocator.go:recycle, newNode"), ("retire what an edit replaces", "update.go:Finalize, delete.go:Finalize")],
  [("recycler", "retired records by size with their epoch", "allocator.go:Allocator")], ["Stats blocks_allocated"])

p("C16", "All key bytes, shared-prefix lengths, fan-outs and values work",
  "For every length of shared key prefix (longer than a memory block included), every byte value at a branch, every fan-out from 1 to 256 and every 55-bit value, inserting, finding, updating, splitting, merging and deleting work exactly; a larger value is stored as its low 55 bits. This holds in each supported block-size build, and wherever in a memory block or at which block boundary the data falls.",
  ["inputs", "configurations"], "All shared-prefix lengths from 0 to beyond every internal threshold (8-byte words, 255, the largest recyclable record, the memory block), split at every kind of position; all fan-outs and branch bytes; boundary values; the three block-size builds.",
  "The tests use 8-byte keys with prefixes up to 7 bytes and one 260-byte prefix; fan-outs are full or random, values are small indexes, and only one build is run.",
  ["unsafe.go", "utils.go", "update.go", "delete.go", "allocator.go", "blocksize.go", "blocksize8.go", "blocksize16.go"],
  [("prefix words with long form from 255", "unsafe.go:storePrefix, appendPrefix"), ("tagged word layout", "utils.go"), ("switch to the full-size node", "update.go:Finalize")], [], ["Lookup", "Iterator", "Count"])

p("C17", "The tree stays minimal whatever the history",
  "As long as no branch ever has more than 127 alternatives, the number of internal nodes reported for the index, and for any prefix, is the number of branching points of the stored key set (distinct shared prefixes after which stored keys differ); it depends on the stored keys only, not on the order of inserts, updates and deletes that led there. In particular there is never a node with a single child.",
  ["histories", "inputs"], "All operation sequences up to a depth over colliding alphabets, and all insertion/deletion orders of small key sets.",
  "Tests print the node count but never check it.",
  ["update.go", "delete.go", "counter.go"], [("path compression on delete", "delete.go:Finalize"), ("split at first difference", "update.go:Finalize")], [], ["Count nodes"])

p("C18", "Reads accept any key at any time",
  "Lookup, iteration, minimum, maximum, count and delete preparation accept every byte string (empty, shorter than, equal to a prefix of, or longer than stored keys) on every index, and return without panicking. On an empty index, including one just created or emptied by deletions, they report nothing found, under every schedule of the index's own start-up.",
  ["inputs", "schedules"], "All byte strings up to a length over the alphabet of the stored keys plus foreign bytes, on every tree reachable by short histories; all schedules of the start-up goroutine against a first read.",
  "Tests look up stored keys only, and never read an empty index.",
  ["radix.go", "delete.go", "iterator.go", "counter.go"], [("depth checks", "radix.go:search, partialSearch, delete.go:prepare")], [], ["Lookup", "MinKey", "MaxKey", "Iterator", "Count", "PrepareDelete"])

p("C19", "Diagnostics change nothing and report the truth",
  "The administrative commands and statistics leave contents and availability of the index unchanged for every command line, on an empty, running or stopped index, and do not panic or hang when other clients run at the same time. The root report lists exactly the top-level branches of the index, the allocator report is the same before saving and after loading, and the statistics report its block size, allocators and, once flushed, its number of keys.",
  ["inputs", "histories", "schedules"], "All command lines over the command vocabulary and argument shapes on all trees reachable by short histories, running and stopped; all interleavings of a command with other clients, including another administrator.",
  "The tests print one info table and check nothing.",
  ["admin.go", "stats.go"], [("command dispatch", "admin.go:Admin"), ("statistics", "stats.go:Stats")], [], ["Admin output", "Stats map", "later operations"])

p("C20", "Closing an index ends its background activity",
  "Under every schedule, closing an index returns once the operations in progress have finished, and the goroutine it started terminates, whether the index was new, used, loaded from state, already stopped, or closed while other indexes are in use. Other indexes are unaffected.",
  ["schedules", "histories"], "All interleavings of creation, a first operation that needs memory, Stop and Close, including closing right after creation.",
  "Tests close one index at their end and do not look whether its goroutine goes away; most never close.",
  ["radix.go"], [("block allocator goroutine", "radix.go:blockAllocator, Close")], [], ["goroutines left after Close"])

p("C21", "Recycled operation and iterator handles carry nothing over",
  "The result of an operation, iteration or count never depends on what the same client or another did before with handles that have since been finalized, aborted or closed, on the same index or on a different one, in whatever state (matched, conflicting, half-iterated) they were left. Reusing a counter, or resetting an iterator, is the same as using a new one. Describing a prepared operation (String) works whatever its handle was used for before, and names its own key.",
  ["histories"], "All pairs and triples of handle uses (each kind and outcome of update, delete, iteration, count) where the later one gets the earlier one's recycled handle, compared with the same use of a fresh handle.",
  "Whether a pooled object is reused is up to the runtime, and tests do not compare reused with fresh handles.",
  ["update.go", "delete.go", "iterator.go", "counter.go"], [("object pools", "update.go:updateOperationPool, delete.go:deleteOperationPool, iterator.go:iteratorPool"), ("re-initialisation", "update.go:prepareUpdate, delete.go:prepare, iterator.go:Reset, counter.go:reset")], [], ["all results"])

p("C22", "Reads never wait for writers",
  "A lookup, minimum, maximum, count or iteration whose client has an allocator, or finds one free, completes without any step of another client: wherever in their inserts, updates, deletes or aborts the other clients are suspended, and whatever operations they have prepared and neither finalized nor aborted yet. An operation that is only prepared changes nothing that a read returns.",
  ["schedules", "histories"], "The reader must finish for every point at which each other client can be suspended, in every tree shape, including inside the short windows in which nodes are locked or being replaced.",
  "Tests never suspend a writer inside an operation, and none reads while an operation is prepared.",
  ["radix.go", "iterator.go", "counter.go"], [("lock-free search", "radix.go:search, partialSearch"), ("minimum and maximum", "radix.go:MinKey, MaxKey"), ("iteration", "iterator.go:Next"), ("count", "counter.go:Count")], [], ["README: Lock-free lookups", "results of reads", "termination"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
