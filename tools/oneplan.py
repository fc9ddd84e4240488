"""Runs one plan in this process tree: oneplan.py CHECK PLAN.json|'JSON'."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), VERIF]
from sim import runner
name = sys.argv[1].lower()
mod = importlib.import_module("checks." + name)
src = sys.argv[2]
plan = json.load(open(src)) if os.path.exists(src) else json.loads(src)
plan = plan.get("plan", plan)
pool = runner.Pool(name, 1, env=getattr(mod, "ENV", None))
try:
    pool.start()
    r = pool.one(plan, 0, 120)
    for k, v in r.items():
        print(k, ":", v if k != "trace" else "...")
    for v in runner.violations_of(mod, plan, r):
        print(v)
finally:
    pool.close()
