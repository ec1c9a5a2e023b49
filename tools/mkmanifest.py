#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/config.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(R, "checks"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = ("Seeded search over schedules (preemption at every memory access and synchronisation call), fault sequences, clocks and workloads, of the real "
        "library code in a simulator; holds on everything explored. Trusted: the simulated pthread/clock layer, sequentially consistent memory plus a "
        "happens-before race detector (so weak-memory effects appear as races), the oracles in checks/%s. Bounds: 2-7 threads and a few operations each per run.")
m = {"version": 1, "setup_cmd": "python3 sim/check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seam is the pthread/clock interface, wrapped at link time, plus compiler instrumentation of every memory access. All checks: python3 sim/check.py <id> [--replay FILE]."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]; src = sorted({s for v in c["variants"].values() for s in v["src"]})
        m["checks"].append({"property": i, "quick_cmd": "python3 sim/check.py " + i, "thorough_cmd": "python3 sim/check.py " + i + " --thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, clocks and faults; invariant and history oracles", "level": "exploration", "level_note": NOTE % ", ".join(src)})
    else: m["not_applicable"].append({"property": i, "reason": "the check for this property is not built yet"})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
