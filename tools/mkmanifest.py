#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {
 "C01": "seeded search over memory-access-level interleavings of the real code; every call compared with the same call alone in a fresh process, vector-clock race detection, inputs re-read; assumes sequential consistency plus race freedom",
 "C02": "seeded search over interleavings and allocation failures; structural snapshots of every live formula, race detection, comparison with the same construction alone",
 "C03": "seeded search over interleavings of parses; each compared with the same parse alone in a fresh process, race detection",
 "C04": "seeded histories with allocation failure; exact comparison with a list-of-samples model after every step",
 "C05": "seeded I/O, allocation and replacement fault sequences at every I/O event of the real loader on a simulated disk; result must denote one installed content or throw; retry must succeed",
 "C06": "seeded crash points of a file writer; the generator knows exactly which definitions are complete in the surviving bytes",
 "C07": "seeded calls; in most calls every allocation is failed in turn (once and from there on); simulated heap checks accesses, leaks and double frees",
 "C08": "seeded call histories under varying heap content, locale, errno, clock; each call compared with itself made first in a fresh process; checked heap accesses",
 "C09": "seeded object-lifetime histories; every live object compared with its snapshot after every step; checked heap accesses",
 "C10": "seeded fault sequences; descriptors, mappings and heap blocks held by the library compared before and after",
 "C11": "seeded end-to-end simulation (sensors, network, journal, crashes, spec files); verdicts compared with an independent piecewise-linear reference evaluator (tolerance 1e-6); bounded intervals are outside (not expressible in specification text)",
 "C12": "seeded interleavings of an appender and readers under a simulated reader-writer lock; reads compared with the same read of a private copy of that prefix",
 "C13": "seeded histories of arrivals, faults, crashes and restarts; every lookup and range search compared with an independent piecewise-linear model of the accepted samples (interpolated values and slopes to 1e-7 relative, everything else exactly)",
 "C14": "as C13; results compared with the model (times and stored values exactly, interpolated values to 1e-7 relative); the resized signal is not constrained beyond the end of the original, where the code and its documentation differ",
 "C16": "seeded search over the points at which threads are suspended and over interleavings; a call of another thread that waits, or spins, is a violation; results compared with the same call alone in a fresh process",
 "C18": "seeded search over hand-overs, thread ends and interleavings; contents re-read at each hand-over and calls repeated in other threads, compared with the same call alone in a fresh process; happens-before race detection, and memory of ended threads is checked",
 "C19": "seeded search over calls, faults and interleavings; the observable process state (listed in DESIGN.md) and the scratch directory are compared before, during and after calls; what is not in the list, e.g. the state of rand(), is not observed",
 "C17": "work is counted in memory accesses of the instrumented code (copying by size), which is exact and repeatable; sizes n against 4n and 12n, early against late calls of a history with faults; factor 2 of slack over proportional growth, so constant factors are not decided",
 "C15": "as C13; times compared exactly, values with the model to 1e-7 relative",
}
TECH = "deterministic simulation with fault injection (seeded schedule and fault search, replayable)"
pure = "is a pure function of its input with no schedule, clock, I/O, fault or history in it, so there is nothing for a simulator to decide; see DESIGN.md"
NA = {
 "C20": "robustness with bounded intervals " + pure + " (the code ignores the intervals on this tree: Interval::has_value is inverted; recorded in DESIGN.md as an observation)",
 "C21": "soundness of robustness " + pure,
 "C22": "the accepted language " + pure + " (storage and crash effects on specification text are C05/C06)",
 "C26": "equivalence of simplified formulas " + pure,
 "C27": "faithfulness of printing " + pure,
 "C28": "interval well-formedness " + pure,
 "C29": "the Python bindings are not built here (no pybind11 installed) and wrapper equivalence involves no schedule or fault",
}
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams (memory accesses, threads, heap, I/O, clock, locale) are compiler instrumentation and symbol interposition in the simulator build of /repo's sources."}
for p in props:
    i = p["id"]
    if i in NOTE:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
