"""slow.py CHECK N [seed]: the plans that take longest."""
import importlib, json, os, sys, itertools
sys.path.insert(0, "/verif")
from sim import runner
m = sys.argv[1].lower(); n = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
mod = importlib.import_module("checks." + m)
pool = runner.Pool(m, 8, env=getattr(mod, "ENV", None)); pool.start()
rows = []
try:
    for p, wi, r in pool.run_many(itertools.islice(mod.plans(seed, "quick"), n), timeout=getattr(mod, "TIMEOUT", 60)):
        rows.append((r.get("wall", 0), r["status"], mod.label(p), p, r.get("stats")))
finally:
    pool.close()
rows.sort(key=lambda x: -x[0])
print("total cpu", sum(r[0] for r in rows))
for r in rows[:12]:
    print(r[0], r[1], r[2], json.dumps(r[3])[:220], r[4])
