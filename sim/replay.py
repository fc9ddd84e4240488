"""Replays a violation: replay.py FILE.  Exit 1 when it occurs again."""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), VERIF]
from sim import runner  # noqa: E402


def main(path):
    with open(path) as f:
        d = json.load(f)
    name = d["property"].lower()
    mod = importlib.import_module("checks." + name)
    pool = runner.Pool(name, 1, env=getattr(mod, "ENV", None))
    try:
        pool.start()
        r = pool.one(d["plan"], 0, 3 * getattr(mod, "TIMEOUT", 60))
    finally:
        pool.close()
    vs = runner.violations_of(mod, d["plan"], r)
    for v in vs:
        print(v["sig"], "--", v["msg"])
    if r.get("status") == "harness_error":
        print(r)
        return 2
    if any(v["sig"] == d["sig"] for v in vs):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("did not occur:", d["sig"])
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
