#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
T_SEQ = "model checking: exhaustive enumeration of operation histories on the real code under a controlled scheduler, against a reference map"
T_CONC = "model checking: stateless dynamic partial-order exploration of all interleavings of the real code under a controlled scheduler"
T_BOTH = "model checking: exhaustive enumeration of histories and stateless partial-order exploration of interleavings, both on the real code"
T_FAULT = "model checking: exhaustive enumeration of fault/crash points (and of worker schedules) on the real code under a controlled scheduler and fault injector"
BASE = (" Every execution runs the code of /repo's working tree, rebuilt and instrumented for each run, so no model has to be kept in step. "
        "Trusted: the scheduler/instrumenter in engine/, sequentially consistent atomics (Go memory model), Go's compiler. Bounds are in DESIGN.md.")
CHECKS = {
 "C01": (T_SEQ, "All histories up to the bounded length over colliding alphabets, from empty, aged and wide trees; scaled and real node-size thresholds."),
 "C02": (T_CONC, "All interleavings of every pair of operations on every small tree shape, and bounded-preemption exploration of triples and two-step clients; brute-force linearizability oracle."),
 "C03": (T_CONC, "Read-modify-write loops, insert-if-absent and delete races: all interleavings of every pair, bounded preemptions for triples; linearizability of what prepare reported and what finalize acknowledged."),
 "C04": (T_SEQ, "All key subsets/histories x all prefixes, every batch end (scaled batch length and real one), every reset point."),
 "C05": (T_BOTH, "Every point of an iteration x every change of other keys (scaled batch length), and all interleavings of iterations with writers. One known finding."),
 "C06": (T_SEQ, "All histories, subsets, fan-outs and emptied wide nodes x all prefixes."),
 "C07": (T_BOTH, "All histories x all prefixes for counts; flush points and allocators enumerated for Len; all interleavings of pairs of writers before Len."),
 "C08": (T_FAULT, "Histories x save/load x later operations; all schedules of the save's workers and of the block allocator."),
 "C09": (T_FAULT, "Every byte position of many states, with several reader behaviours; all other block sizes."),
 "C10": (T_FAULT, "Every failing write call (and partial length) x all schedules of the workers (delay-bounded for many workers)."),
 "C11": (T_CONC, "Every kind of read beside every short sequence of writes at a scaled epoch interval, with race detection of reused memory; bounded preemptions."),
 "C12": (T_CONC, "All pairs (all interleavings) and triples (bounded preemptions) of 18 client programs on 1 to 3 allocators; ownership monitor and linearizability of Len."),
 "C13": (T_BOTH, "Abort at every node of the history tree, all interleavings with other operations; structure compared through counters."),
 "C14": (T_CONC, "All pairs and triples of client programs; deadlock, livelock and leftover locks/reservations; address layouts shifted over all lock alignments."),
 "C15": (T_SEQ, "All cycles of up to 4 (5) operations that return to the initial key set, repeated until memory growth must show, at scaled and real epoch intervals."),
 "C16": (T_SEQ, "Every shared-prefix length, branch byte, fan-out and value bit; every position of data in a block; all block-size builds."),
 "C17": (T_SEQ, "All histories, orders of insertion and deletion, and fan-outs; node counts compared with the branching points of the key set."),
 "C18": (T_BOTH, "All byte strings up to a length over a colliding alphabet x all small key sets; all schedules of the start-up."),
 "C19": (T_BOTH, "All command lines of a grammar and all node words near real ones x index states; root report compared after every history; diagnostics beside every operation."),
 "C20": (T_CONC, "Close from every index state and beside clients: all schedules of the background goroutine, select order both ways."),
 "C21": (T_BOTH, "All sequences of handle uses on two indexes, pooled against fresh handles; interleavings of clients sharing one pool."),
 "C22": (T_BOTH, "Every read with each kind of operation prepared and held, after every history; a reader started at every point of one and of two writers, which must finish without waiting."),
}
PENDING = "check not registered yet"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": CHECKS[i][0], "level": "model_checking", "level_note": CHECKS[i][1] + BASE} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": PENDING} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: the checks instrument a scratch copy of the sources (engine/instr). Known findings: known-findings.txt."}
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
