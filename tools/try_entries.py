import sys, random, collections
sys.path[:0] = ["/verif", sys.argv[1] if len(sys.argv) > 1 else "/repo/src", "/opt/venv/lib/python3.12/site-packages"]
sys.dont_write_bytecode = True
from specs.entries import ENTRIES
from pyvc.concrete import *
rng = random.Random(1)
N = 200
import time
for e in ENTRIES:
    if not (e.schema or e.concrete): continue
    t=time.time()
    c = collections.Counter(); ex = {}
    for eid, ctx, d in entry_cases(e, rng, N):
        for f in check_entry(e, eid, ctx, d):
            c[f["clause"]] += 1
            ex.setdefault(f["clause"], (d, f["detail"]))
    for d in e.refuse:
        for f in check_refuse(e, list(e.ids)[0], e.ctxs[0], d):
            c[f["clause"]] += 1; ex[f["clause"]] = (d, f["detail"])
    print(e.pid, e.name, dict(c), f"{time.time()-t:.2f}s")
    for k,(d,det) in ex.items(): print("    ", k, short(d,200), "\n         ", short(det,300))
