#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/parts.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
from parts import PARTS, META
NA = {"C28": "The conversions are pure functions of their argument: no schedule, clock, I/O, randomness, history or second party for a simulator to decide. "
             "(Their use inside the node is still exercised by every node-level simulation, where a wrong conversion shows up under C10, C11, C03 or C21.)"}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PARTS:
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": META.get(i, {}).get("technique", "deterministic simulation with fault injection: seeded search over schedules, inputs and faults, checked against a reference model"),
        "level": "exploration",
        "level_note": META.get(i, {}).get("note", "Real code in a single-process simulator that owns threads, clocks, TF, messages, storage and randomness; violations replay exactly. "
                      "Samples the space (see evidence), trusts the simulated ROS layer and the oracle in sim/harness."),
    })
na = [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PARTS]
m = {"version": 1, "setup_cmd": "python3 sim/build.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator replaces the ROS interfaces at the include path and interposes the C library's threads and clocks."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
