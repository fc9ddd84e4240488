"""Coordinator of one check: spawns workers, feeds them plans, confirms and
minimises violations, writes replay files and evidence."""

import collections
import fnmatch
import importlib
import itertools
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path[:0] = [REPO, VERIF]

from sim import build, shimctl  # noqa: E402

PY = build.PY


class Harness(Exception):
    pass


class Pool:
    """Workers; ``run_many`` yields (plan, result) in plan order."""

    def __init__(self, mod, n, env=None, twin_env=None):
        self.mod = mod
        self.n = n
        self.dir = build.scratch("rsciosim-" + mod)
        self.runs = os.path.join(self.dir, "runs")
        os.mkdir(self.runs)
        self.shim = shimctl.build(self.dir)
        b = os.path.join(self.dir, "build")
        os.mkdir(b)
        self.so = build.unbcf(b)
        self.env = env or {}
        self.workers = []
        self.ids = itertools.count()

    def base_env(self, extra):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "SIM_REPO", "LANG")}
        e.update(
            HOME=self.dir, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg",
            OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", TIFFFILE_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
            TQDM_DISABLE="1", NUMBA_CACHE_DIR=os.path.join(self.dir, "numba"), MPLCONFIGDIR=self.dir, TMPDIR=os.path.join(self.dir, "tmp"),
            LD_PRELOAD=self.shim, SIM_SHIM=self.shim, MALLOC_ARENA_MAX="1",
        )
        if self.so:
            e["SIM_UNBCF"] = self.so
        e.update(self.env)
        e.update(extra or {})
        return e

    def start(self):
        os.makedirs(os.path.join(self.dir, "tmp"), exist_ok=True)
        # the first worker compiles whatever numba needs, the rest load it
        for i in range(self.n):
            self.workers.append(self._spawn(i))
        for w in self.workers:
            self._ready(w)

    def _spawn(self, i):
        d = os.path.join(self.dir, f"w{i}")
        os.makedirs(d, exist_ok=True)
        # the last worker differs in its hash seed: results may not
        extra = {"SIM_SCRATCH": d, "SIM_RUNS": self.runs}
        if i == self.n - 1 and self.n > 1 and "PYTHONHASHSEED" not in self.env:
            extra["PYTHONHASHSEED"] = "4711"
        err = open(os.path.join(self.dir, f"w{i}.err"), "ab")
        p = subprocess.Popen(
            [PY, os.path.join(VERIF, "sim", "worker.py"), self.mod], env=self.base_env(extra), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=VERIF
        )
        err.close()
        return {"p": p, "i": i, "dir": d}

    def _ready(self, w):
        line = w["p"].stdout.readline()
        if not line:
            with open(os.path.join(self.dir, f"w{w['i']}.err"), errors="replace") as f:
                raise Harness("worker failed to start:\n" + f.read()[-3000:])

    def _one(self, w, plan, timeout):
        job = {"id": next(self.ids), "check": self.mod, "plan": plan, "timeout": timeout}
        try:
            w["p"].stdin.write(json.dumps(job).encode() + b"\n")
            w["p"].stdin.flush()
            line = w["p"].stdout.readline()
            if not line:
                raise OSError("worker gone")
            return json.loads(line)["result"]
        except (OSError, ValueError) as e:
            try:
                w["p"].kill()
                w["p"].wait()
            except OSError:
                pass
            nw = self._spawn(w["i"])
            self._ready(nw)
            w.clear()
            w.update(nw)
            return {"status": "harness_error", "error": f"worker died: {e!r}"}

    def run_many(self, plans, timeout=60, stop=lambda: False, only=None):
        """Results in the order of the plans."""
        it = iter(plans)
        lock = threading.Lock()
        out = queue.Queue()
        done = object()
        count = itertools.count()

        def feeder(w):
            try:
                while not stop():
                    with lock:
                        try:
                            p = next(it)
                        except StopIteration:
                            break
                        k = next(count)
                    out.put((k, p, w["i"], self._one(w, p, timeout)))
            except BaseException as e:  # noqa: BLE001
                out.put((None, None, None, e))
            finally:
                out.put(done)

        ws = self.workers if only is None else [self.workers[i] for i in only]
        ts = [threading.Thread(target=feeder, args=(w,), daemon=True) for w in ws]
        for t in ts:
            t.start()
        left = len(ts)
        pend = {}
        nxt = 0
        while left:
            x = out.get()
            if x is done:
                left -= 1
                continue
            k, p, wi, r = x
            if k is None:
                raise Harness(f"coordinator: {r!r}")
            pend[k] = (p, wi, r)
            while nxt in pend:
                yield pend.pop(nxt)
                nxt += 1
        for k in sorted(pend):
            yield pend[k]

    def one(self, plan, worker=0, timeout=60):
        return self._one(self.workers[worker], plan, timeout)

    def close(self):
        for w in self.workers:
            try:
                w["p"].stdin.close()
            except OSError:
                pass
        for w in self.workers:
            try:
                w["p"].wait(5)
            except subprocess.TimeoutExpired:
                w["p"].kill()
                w["p"].wait()
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], capture_output=True)
        shutil.rmtree(self.dir, ignore_errors=True)


def violations_of(mod, plan, res):
    """[{sig,msg}] of one result; harness errors are no violations."""
    st = res.get("status")
    if st == "ok":
        return res.get("violations", [])
    label = getattr(mod, "label", lambda p: "?")(plan)
    if st == "timeout" and getattr(mod, "HANG", True):
        return [{"sig": f"{label}:hang", "msg": "no progress: the call did not return within the time limit"}]
    if st == "crash" and getattr(mod, "CRASH", True):
        return [{"sig": f"{label}:crash", "msg": f"the process was ended by signal {res.get('signal')}"}]
    if st == "exit" and getattr(mod, "CRASH", True):
        return [{"sig": f"{label}:exit", "msg": f"the process ended with code {res.get('code')}"}]
    return []


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def match_known(known, prop, sig):
    for k in known:
        if k["property"] == prop and k.get("status") == "open" and any(fnmatch.fnmatchcase(sig, s.replace("[", "[[]")) for s in k["sigs"]):
            return k
    return None


# --------------------------------------------------------------- minimisation
def shrink_candidates(plan, trace):
    """Generic simplifications: no schedule, shorter schedules, fewer faults, fewer steps."""
    def cp():
        return json.loads(json.dumps(plan))

    s = plan.get("sched")
    if s:
        if s.get("script") is None and trace and trace.get("script") is not None:
            p = cp()
            p["sched"].update(script=[], tasks=[])
            yield p
            p = cp()
            p["sched"].update(trace)
            yield p
        elif s.get("script") is not None:
            for key in ("script", "tasks"):
                v = s[key]
                n = len(v)
                c = n
                while c >= 1:
                    for i in range(0, n, c):
                        p = cp()
                        w = v[:i] + v[i + c:] if key == "script" else v[:i] + [0] * min(c, n - i) + v[i + c:]
                        if w != v:
                            p["sched"][key] = w
                            yield p
                    c = c // 2 if c > 1 else 0
        if s.get("workers", 1) > 1:
            p = cp()
            p["sched"]["workers"] = 1
            yield p
    for key in ("faults", "ops", "steps", "clients"):
        v = plan.get(key)
        if isinstance(v, list) and len(v) > 1:
            c = len(v)
            while c >= 1:
                for i in range(0, len(v), c):
                    if len(v) - min(c, len(v) - i) >= 1:
                        p = cp()
                        p[key] = v[:i] + v[i + c:]
                        yield p
                c = c // 2 if c > 1 else 0


def minimise(mod, pool, plan, res, sig, budget, timeout):
    t0 = time.monotonic()
    trace = res.get("trace")
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        own = getattr(mod, "shrink", None)
        gens = itertools.chain(own(plan) if own else (), shrink_candidates(plan, trace))
        for cand in gens:
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r = pool.one(cand, 0, timeout)
            if any(v["sig"] == sig for v in violations_of(mod, cand, r)):
                if cand.get("sched", {}) and (cand["sched"].get("script") is None):
                    pass
                plan, res, progress = cand, r, True
                trace = r.get("trace") or trace
                break
    return plan, res, tried


# ------------------------------------------------------------------------ run
def main(argv):
    prop = argv[0]
    modname = prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    print(f"seed {seed} tier {tier}", flush=True)
    t0 = time.monotonic()
    mod = importlib.import_module("checks." + modname)
    n = int(os.environ.get("SIM_PAR", "0")) or min(8, os.cpu_count() or 1)
    n = max(2, n)
    pool = Pool(modname, n, env=getattr(mod, "ENV", None))
    known = load_known()
    timeout = getattr(mod, "TIMEOUT", 60)
    limit = getattr(mod, "QUICK_S", 120) if tier == "quick" else getattr(mod, "THOROUGH_S", 3000)
    if os.environ.get("SIM_LIMIT_S"):
        limit = float(os.environ["SIM_LIMIT_S"])
    try:
        pool.start()
        tstart = time.monotonic()
        plans = mod.plans(seed, tier)
        if os.environ.get("SIM_N"):
            plans = itertools.islice(plans, int(os.environ["SIM_N"]))
        agg = collections.Counter()
        stats = collections.Counter()
        faults = collections.Counter()
        fams = collections.Counter()
        keys, inter, outcomes = set(), set(), collections.Counter()
        cand = collections.OrderedDict()
        hits = collections.Counter()
        samples, errs, recheck = [], [], []
        stop = lambda: time.monotonic() - tstart > limit or sum(match_known(known, prop, s) is None for s in list(cand)) > 40  # noqa: E731
        for plan, wi, res in pool.run_many(plans, timeout, stop):
            agg["runs"] += 1
            agg[res["status"]] += 1
            if res["status"] == "harness_error":
                errs.append((plan, res))
                continue
            fams[getattr(mod, "label", lambda p: "?")(plan)] += 1
            for k, v in (res.get("stats") or {}).items():
                stats[k] += v
            for k, v in (res.get("faults") or {}).items():
                faults[k] += v
            if res.get("outcome"):
                outcomes[res["outcome"]] += 1
            if res.get("interleaving"):
                inter.add(res["interleaving"])
            if res.get("nontrivial"):
                agg["nontrivial"] += 1
                keys.add(res.get("key") or json.dumps(plan, sort_keys=True))
                if len(samples) < 4 and (len(samples) == 0 or agg["runs"] % 37 == 0):
                    samples.append({"plan": plan, "outcome": res.get("outcome"), "stats": res.get("stats")})
            if res.get("digest") and len(recheck) < (24 if tier == "quick" else 200) and (agg["runs"] % 7 == 1):
                recheck.append((plan, wi, res["digest"]))
            for v in violations_of(mod, plan, res):
                hits[v["sig"]] += 1
                cand.setdefault(v["sig"], []) .append((plan, res, v))
        t_search = time.monotonic() - tstart
        # determinism: the same plan on another worker, under another hash seed
        mism = []
        checked = 0
        t1 = time.monotonic()
        for plan, wi, dg in recheck:
            if time.monotonic() - t1 > (20 if tier == "quick" else 200):
                break
            w = n - 1 if wi != n - 1 else 0
            r = pool.one(plan, w, timeout)
            checked += 1
            if r.get("digest") != dg:
                mism.append({"plan": plan, "a": dg, "b": r.get("digest"), "status": r.get("status")})
        # violations
        reported, knowns, unrepro = [], {}, []
        t1 = time.monotonic()
        for sig, occ in cand.items():
            k = match_known(known, prop, sig)
            if k is not None:
                knowns.setdefault(k["id"], (k, sig, occ[0][2]["msg"]))
                continue
            if time.monotonic() - t1 > 150 and reported:
                break
            ok = False
            for plan, res, v in occ[:3]:
                tl = timeout * (2 if res["status"] == "timeout" else 1)
                r1 = pool.one(plan, 0, tl)
                r2 = pool.one(plan, n - 1, tl)
                if all(any(x["sig"] == sig for x in violations_of(mod, plan, r)) for r in (r1, r2)):
                    ok = True
                    break
            if not ok:
                unrepro.append({"sig": sig, "msg": v["msg"], "plan": plan})
                continue
            if len(reported) < 12:
                small, rs, tried = minimise(mod, pool, plan, r1, sig, 0 if res["status"] == "timeout" else (25 if not reported else 8), timeout)
            else:
                small, rs, tried = plan, r1, 0
            reported.append({"sig": sig, "msg": v["msg"], "plan": small, "original": plan, "result": rs, "tried": tried})
        # probes of known findings not met by the search
        for k in known:
            if k["property"] == prop and k.get("status") == "open" and k["id"] not in knowns:
                hit = False
                for pl in k.get("probes", []):
                    r = pool.one(pl, 0, timeout)
                    for v in violations_of(mod, pl, r):
                        m = match_known(known, prop, v["sig"])
                        if m is not None and m["id"] == k["id"]:
                            knowns[k["id"]] = (k, v["sig"], v["msg"])
                            hit = True
                        elif m is None and not any(x["sig"] == v["sig"] for x in reported):
                            reported.append({"sig": v["sig"], "msg": v["msg"], "plan": pl, "original": pl, "result": r, "tried": 0})
                    if hit:
                        break
        for k, sig, msg in knowns.values():
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        vio = []
        for i, v in enumerate(reported):
            path = os.path.join(rdir, f"{prop}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "sig": v["sig"], "msg": v["msg"], "plan": v["plan"], "original_plan": v["original"], "trace": v["result"].get("trace"), "events": v["result"].get("events"), "minimiser_runs": v["tried"]}, f, indent=1)
            vio.append({"sig": v["sig"], "msg": v["msg"], "replay": path})
            print(f"  {v['sig']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        for plan, res in errs[:3]:
            print("harness error:", res.get("error"), res.get("tb", "")[-1500:], json.dumps(plan)[:300], file=sys.stderr)
        if unrepro:
            print("not reproduced:", json.dumps(unrepro)[:600], file=sys.stderr)
        if mism:
            print("nondeterministic runs:", json.dumps(mism)[:600], file=sys.stderr)
        wall = time.monotonic() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
            "coverage": {
                "evaluations": agg["runs"],
                "distinct_nontrivial": len(keys),
                "rule": mod.RULE,
                "samples": samples or [{"plan": None}],
                "nontrivial_runs": agg["nontrivial"],
                "runs_per_hour": int(agg["runs"] / max(t_search, 1e-3) * 3600),
                "seeds_per_hour": round(3600 / max(wall, 1e-3), 1),
                "simulated_time": mod.SIMTIME if hasattr(mod, "SIMTIME") else "the code has no timers; progress is counted in scheduler steps and storage operations",
                "scheduler": {k: stats[k] for k in sorted(stats)},
                "faults_injected": dict(sorted(faults.items())),
                "distinct_interleavings": len(inter),
                "outcomes": dict(sorted(outcomes.items())),
                "families": dict(sorted(fams.items())),
                "determinism": {"rerun_on_other_worker_and_hash_seed": checked, "different": len(mism)},
                "harness_errors": agg["harness_error"],
                "not_reproduced": len(unrepro),
                "known_findings_seen": sorted(knowns),
                "real_code": mod.REAL, "stubs": mod.STUBS,
            },
            "assumptions": mod.ASSUMPTIONS,
            "wall_s": round(wall, 1),
            "violations": vio,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
        print(f"{prop}: {agg['runs']} runs ({agg['nontrivial']} non-trivial, {len(keys)} distinct), {len(inter)} interleavings, faults {dict(faults)}, {len(vio)} violations, {len(knowns)} known, {agg['harness_error']} harness errors, determinism {checked - len(mism)}/{checked}, {wall:.1f}s")
        if os.environ.get("SIM_VERBOSE"):
            print("outcomes", dict(outcomes))
            for s, c in hits.most_common():
                print("   ", c, s, cand[s][0][2]["msg"][:200])
        if vio:
            return 1
        if agg["runs"] == 0 or agg["harness_error"] * 2 > agg["runs"]:
            return 2
        return 0
    finally:
        pool.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
