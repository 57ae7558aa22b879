#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Every generated document is compared field by field and pixel by pixel with the encoder-side model, under fault-injecting readers.",
 "C02": "Byte accounting of the simulated reader; several documents back to back.",
 "C03": "End of stream at every cut point of small documents and sampled ones of larger ones.",
 "C04": "Injected reader errors at every kind of position; the error chain must reach the injected error.",
 "C05": "Stored-byte corruption; panics, endless loops (step bound) and leaked goroutines are violations.",
 "C06": "Every pixel of every decoded image of damaged and well-formed documents is read.",
 "C07": "Differential against GOMAXPROCS=1 under many schedules; half of the workers run under the race detector with the simulated schedule.",
 "C08": "Callbacks record the reader's position and their order; callback errors are injected.",
 "C09": "Concurrent decodes and readers as simulated tasks, compared with the solo result; race detector.",
 "C10": "Differential against GOMAXPROCS=1 under many schedules, including self-overlap; race detector.",
 "C11": "Untouched pixels, source and mask compared; concurrent disjoint drawing against sequential; race detector.",
 "C12": "Histories of edits, renders and cancellations against a fresh tree in the same state.",
 "C13": "Cancellation at any step; result correct or abort error, bounded steps, no leak, later renders right.",
 "C14": "New under schedules against a sequential build and the document model; link invariants; race detector.",
 "C15": "New with damaged, truncated, failing streams and cancellation; error xor complete tree, bounded steps, no leak.",
 "C16": "Concurrent render, invalidate and clone tasks; interval history check; race detector.",
 "C17": "Transform and Clone under schedules and cancellation against the sequential result; race detector.",
 "C18": "Thumbnails under schedules and cancellation against single thumbnails; cell geometry; race detector.",
 "C20": "Every completed render of a history of edits and cancellations against a reference compositor that works on exact numbers.",
 "C21": "Sequences of drawings with random goroutine counts and schedules, each pixel against an exact model of the operator; race detector.",
 "C22": "Trees built with or transformed by random matrices, in one or two steps, after cancelled attempts and several at a time, under random schedules; each pixel of single layers against the document sampled by an independent tent filter.",
 "C19": "The command runs on a simulated disk with failing opens, creates, writes and closes; success iff all files are complete.",
}
NA = {
 "N01": "Pure functions of one colour value: no schedule, clock, I/O, fault or second party takes part, so there is nothing to simulate; an input-generation test would only be dressed up as one.",
 "N03": "Comparison of generator output with checked-in files: a single deterministic computation without schedule or fault.",
 "N04": "The js and wasm decoders are sequential pure functions and need a JavaScript host; nothing in them depends on a schedule or a fault.",
 "N05": "Static table lookup; no schedule, fault or history.",
}
claimed = open(os.path.join(H, "tools", "claimed.txt")).read().split()
titles = {}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
m = {"version": 1,
     "setup_cmd": "./check.py --setup",
     "checks": [], "not_applicable": []}
for i in sorted(titles):
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
          "technique": "deterministic simulation with fault injection", "level": "exploration",
          "level_note": NOTE[i] + " Seeded search over inputs, schedules and faults on the real code, rewritten so that the simulator owns goroutines, sync, GOMAXPROCS, map order and I/O; a sample, not a proof. Trusts the simulator, the rewriter and the oracle in /verif/sim."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check for it has been built yet.")})
m["notes"] = "No hooks in /repo: checks copy /repo's working tree into a scratch directory and rewrite the copy (sim/tool). Replay a violation with ./check.py --replay FILE."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
