#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of decided properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NA = {"C90": "Pure functions of their argument: no schedule, time, I/O, randomness or other party for a simulated environment to vary."}
NOTE = ("Seeded search: every run executes the unmodified agent (all of its threads) inside one process "
        "under a simulated kernel, network, file system, clock and servers, with faults drawn from the "
        "same seed; the verdict covers the runs explored, not all behaviours. Trusted: the simulated "
        "kernel and library stand-ins described in DESIGN.md.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append({"property": i, "quick_cmd": "./check " + i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator replaces the modules the agent imports."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
