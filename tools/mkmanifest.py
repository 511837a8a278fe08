#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("A pure function of its arguments: no schedule, clock, fault, I/O, memory failure or history can change its result, so "
        "deterministic simulation has nothing to vary but the input, which would be plain input generation. "
        "What the technique can say about this code (no shared state, no races, same answer whatever ran before) is C17.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        t = ("deterministic simulation with fault injection: seeded scheduler over every memory access, lock, allocation and clock reading of several threads"
             if c["mode"] == "sched" else
             "deterministic simulation with fault injection: seeded histories of calls with faults injected at the allocator, stream, file-system and callback seams")
        checks.append(dict(property=i, quick_cmd="python3 vsim.py check " + i,
            thorough_cmd="VERIF_TIER=thorough python3 vsim.py check " + i, technique=t, level="exploration",
            level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=PURE if i >= "C30" else "check under construction"))
m = dict(version=1, setup_cmd="python3 -c 'import checks, vsim'", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam is an interposed symbol (allocator, system calls, pthread, clocks), a compiler instrumentation callback, or an argument the library already takes (streams, functors, comparators).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
