#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SCHED = "stateless model checking of the real code: every interleaving within a preemption bound under a controlled scheduler (iterative context bounding, happens-before state caching), race detector on each"
SEQ = "explicit-state exploration of the real code: every sequence/input within bounds under a virtual clock, compared step by step with an executable reference model"
BOTH = "model checking of the real code: every operation sequence within bounds against a reference model, and every interleaving within a preemption bound under a controlled scheduler"
IN = "exhaustive enumeration of a bounded input space on the real code against an independent reference"
note = {
 "C01": (SEQ, "Every sequence of event calls, argument mutations, clock steps and reads up to the stated depth."),
 "C02": (SEQ, "Every maximum and number of calls in boundary sets, every order of setting changes and creations up to a depth, with storage reuse forced."),
 "C03": (SEQ, "Every sequence of calls around Finish, through every wrapper, plus interleavings of two finishers and an event."),
 "C04": (SCHED, "Every interleaving at synchronisation operations within the preemption bound of 2-3 goroutines; linearizability against the sequential model; data races are violations."),
 "C05": (SEQ, "Every history of creations, resizes and searches up to a depth that wraps the buffers, against a reference collector."),
 "C06": (SCHED, "Every interleaving within the preemption bound of creators, searchers and resizers; outcome compared with all sequential orders."),
 "C07": (BOTH, "Pools recycle at the first opportunity; every history of drops, reuse and stale handle calls up to a depth, plus interleavings with publishing and reading."),
 "C08": (IN, "Every combination of conditions with boundary values against every kind of trace, and every change of fields between uses."),
 "C09": (SEQ, "Every population and request from boundary sets against a reference search."),
 "C10": (SCHED, "Every interleaving within the preemption bound of a search with goroutines changing the traces searched."),
 "C11": (SEQ, "Every population and bucketing from boundary sets against reference statistics."),
 "C12": (BOTH, "Every combination of up to 3 searchers incl. failing ones, every arrival order; reference merge."),
 "C13": (SEQ, "Every history of subscribe, unsubscribe, create, event, finish and receive up to a depth against a reference broker."),
 "C14": (SCHED, "Every interleaving within the preemption bound of publishers, subscribers and cancellations."),
 "C15": (IN, "Every request from boundary sets through both encodings, compared with the direct search; every transport fault from a list."),
 "C16": (BOTH, "Every filter through the URL round trip; every interleaving within the preemption bound of deliveries, ticks and disconnects, with in-memory connections; a real loopback server checks the same sequences."),
 "C17": (SEQ, "Every sequence of handler steps up to a length, on a recorder model and on a real loopback server."),
 "C18": (BOTH, "Every tree of contexts up to a depth, every alphabet string, and interleavings of goroutines sharing a prefix."),
 "C19": (SEQ, "Every stack of up to 3 decorators times every call sequence up to a depth."),
 "C20": (IN, "Every combination of wrappers, entry point, event kind and stack setting; the caller's own line is the oracle."),
 "C21": (IN, "Every assignment of strings from a hostile alphabet to the page's inputs; the page is parsed, its structure compared, its links followed, its scripts run on DOM stand-ins."),
 "C22": (IN, "Every combination of flags from boundary sets, run as real processes against loopback servers."),
}
trust = " Bounds, states, transitions and executions are in the evidence file. Trusted: the controlled scheduler's models of sync, atomic, channel, time, context and pool operations, the Go toolchain, and the reference model."
na = []
checks = []
for line in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in na: continue
    t, n = note[p]
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p, "technique": t, "level": "model_checking", "level_note": n + trust})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": [{"property": p, "reason": "check under construction"} for p in na],
 "notes": "No hooks in /repo: an instrumented copy of its sources is built through a go build overlay. Genuine defects found are repaired by fix: commits and listed in known-findings.txt."}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
