#!/usr/bin/env python3
"""Development aid: run seeds of one property and list all violations, gaps and timings.
usage: tools/sweep.py PROP [SECONDS] [BASE]"""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if not sys.executable.startswith("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
import gc
gc.disable()
from dst import driver, world, core
world.prepare()
sys.setrecursionlimit(20000)
prop = sys.argv[1]
secs = float(sys.argv[2]) if len(sys.argv) > 2 else 20
base = sys.argv[3] if len(sys.argv) > 3 else "1"
driver.warm(prop, base)
recs, problems, wall = driver.explore(prop, base, secs, 8)
v = collections.OrderedDict()
for m in recs:
    for x in m["v"] + m["o"]:
        v.setdefault((x[0], x[1]), []).append((m["i"], x[2] if len(x) > 2 else ""))
bad = collections.OrderedDict()
for m in recs:
    for b in m["bad"]:
        bad.setdefault(b[-700:], []).append(m["i"])
print("%d runs in %.1fs, max wall %.1fs (seed %s)" % (
    len(recs), wall, max(m["wall"] for m in recs), max(recs, key=lambda m: m["wall"])["i"]))
print("faults", driver.merge(m["faults"] for m in recs))
print("probes", driver.merge(m["probes"] for m in recs))
for k in sorted(v):
    l = v[k]
    print("%-4s %-30s x%d  seeds %s  %s" % (k[0], k[1], len(l), [x[0] for x in l[:4]],
                                            next((x[1] for x in l if x[1]), "")[:200]))
for b, l in bad.items():
    print("BAD x%d seeds %s: %s" % (len(l), l[:4], b))
for p in problems:
    print("PROBLEM", p)
sys.stdout.flush()
os._exit(0)
