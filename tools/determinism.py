"""Runs the first N plans of a check three times: on two workers with the same
hash seed and on one with another; prints the runs that differ."""
import importlib, itertools, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), VERIF]
from sim import runner
name, n = sys.argv[1].lower(), int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
mod = importlib.import_module("checks." + name)
pool = runner.Pool(name, 8, env=getattr(mod, "ENV", None))
try:
    pool.start()
    plans = list(itertools.islice(mod.plans(seed, "quick"), n))
    res = [[(r.get("digest"), r) for _, _, r in pool.run_many(plans, 90, only=o)] for o in ([0, 1, 2], [3, 4, 5, 6], [7])]
    bad = 0
    for p, a, b, c in zip(plans, *res):
        if not a[0] == b[0] == c[0]:
            bad += 1
            print("same-hash-seed" if a[0] != b[0] else "other-hash-seed", json.dumps(p)[:300], a[0], b[0], c[0], a[1]["status"], a[1].get("stats"), b[1].get("stats"), c[1].get("stats"))
    print(bad, "of", n)
    for p, a in zip(plans, res[0]):
        if a[1]["status"] != "ok":
            print(json.dumps(p), a[1])
finally:
    pool.close()
