"""tally.py CHECK N [seed]: runs the first N plans and groups the violations, with one example plan each written to /tmp/tally/."""
import importlib, json, os, sys, itertools, collections
sys.path.insert(0, "/verif")
from sim import runner
m = sys.argv[1].lower(); n = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
filt = sys.argv[4] if len(sys.argv) > 4 else ""
mod = importlib.import_module("checks." + m)
pool = runner.Pool(m, 8, env=getattr(mod, "ENV", None)); pool.start()
g = collections.defaultdict(list)
try:
    for p, wi, r in pool.run_many((p for p in itertools.islice(mod.plans(seed, "quick"), n) if filt in mod.label(p)), timeout=getattr(mod, "TIMEOUT", 60)):
        vs = r.get("violations") or []
        if r["status"] != "ok":
            vs = [{"sig": r["status"] + ":" + mod.label(p), "msg": str(r)[:1500]}]
        for v in vs[:1]:
            f = p.get("faults") or p.get("ops")
            fs = "+".join(sorted(f"{'/'.join(x['ops'])}:{x['kind']}:{x.get('err') or ''}{':sticky' if x.get('sticky') else ''}" for x in f if isinstance(x, dict) and "ops" in x)) if isinstance(f, list) else ""
            g[v["sig"]].append((fs, p, v["msg"]))
finally:
    pool.close()
os.makedirs("/tmp/tally", exist_ok=True)
for i, (s, l) in enumerate(sorted(g.items())):
    c = collections.Counter(x[0] for x in l)
    print(f"[{i}] {len(l)} {s} :: {l[0][2][:150]}")
    if any(c): print("     ", "; ".join(f"{k}*{v}" for k, v in c.most_common(6)))
    json.dump(min((x[1] for x in l), key=lambda p: len(json.dumps(p))), open(f"/tmp/tally/{i}.json", "w"))
