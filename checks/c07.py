"""C07: the result of a call does not depend on the calls before it."""

import gc
import os
import re
import shutil
import warnings

import numpy as np

from checks import common
from checks.c05 import all_files, rnd_fault as read_fault
from checks.common import rng_of
from sim import canon, formats, inputs, shimctl, signals
from sim.ctx import Interrupt

LEVEL = "exploration"
REAL = common.REAL
STUBS = "results of storage operations and interruptions of the earlier calls, at seeded points"
RULE = (
    "A run forks a process that only does the final call (read a file of the catalogue, or write a random signal and read it back), and keeps what it returned as reference. Then a history of one to six other calls "
    "takes place: reads of other files of the same and of other formats, of another file under the same path, with other options, of files cut short, with storage faults, interrupted; writes of other signals; "
    "changes in place of everything the earlier calls returned. Then the same final call must return the same data, axes, metadata, mapping and post-processing steps. Non-trivial: at least one earlier call ran code of the library."
)
ASSUMPTIONS = ["Lazy data of a file that was replaced since are dropped before it is read again."]
QUICK_S = 200
TIMEOUT = 60
WNAMES = list(formats.ALL)


def label(p):
    t = p["target"]
    return t.get("entry") and inputs.catalog()[t["entry"]]["fmt"] + ":read" or t["case"]["fmt"] + ":write"


def small():
    return [e for e in inputs.catalog().values() if e["nbytes"] < 3e6 and e["fsize"] < 3e6 and e["t"] < 0.3]


def rnd_step(rng, groups, fmt):
    fs = sorted(groups)
    r = rng.random()
    if r < 0.68:
        f = fmt if fmt in groups and rng.random() < 0.6 else rng.choice(fs)
        e = rng.choice(groups[f])
        s = {"do": "read", "entry": e["id"], "lazy": bool(e["lazy_ok"] and rng.random() < 0.4), "how": rng.choice(["none", "none", "none", "cut", "faults", "interrupt"])}
        if s["how"] == "cut":
            s["cut"] = {"file": rng.randrange(8), "at": rng.random()}
        elif s["how"] == "faults":
            s["faults"] = [read_fault(rng, e)]
            s["faults"][0]["nth"] = rng.choice([1, 2, 3, 5, 10, 30, 100])
        elif s["how"] == "interrupt":
            s["nth"] = int(10 ** rng.uniform(0, 4))
        s["mutate"] = rng.random() < 0.7
        s["keep"] = rng.random() < 0.3
        s["same_path"] = rng.random() < 0.4
    else:
        f = fmt if fmt in WNAMES and rng.random() < 0.5 else rng.choice(WNAMES)
        s = {"do": "write", "case": formats.ALL[f].gen(rng, small=True), "how": rng.choice(["none", "none", "faults", "interrupt"]), "mutate": rng.random() < 0.5}
        if s["how"] == "faults":
            s["faults"] = [{"ops": [rng.choice(["write", "open", "close"])], "kind": "err", "err": "ENOSPC", "nth": rng.choice([1, 2, 5, 20]), "sticky": False}]
        elif s["how"] == "interrupt":
            s["nth"] = int(10 ** rng.uniform(0, 3.5))
    return s


def plans(seed, tier):
    n = 1600 if tier == "quick" else 80000
    groups = common.by_format(small())
    fs = sorted(groups)
    for i in range(n):
        rng = rng_of(seed, "c07", i)
        if rng.random() < 0.75:
            f = fs[i % len(fs)]
            e = rng.choice(groups[f])
            t = {"entry": e["id"], "lazy": bool(e["lazy_ok"] and rng.random() < 0.35)}
        else:
            f = WNAMES[i % len(WNAMES)]
            t = {"case": formats.ALL[f].gen(rng, small=True)}
        yield {"target": t, "steps": [rnd_step(rng, groups, f) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))], "twice": rng.random() < 0.3}


def mutate(x, seen=None):
    """Changes everything below a returned object in place."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for i in np.ndindex(x.shape):
                mutate(x[i], seen)
        elif x.flags.writeable and not is_mapped(x):
            try:
                x.view("u1")[...] ^= 0x5A
            except Exception:
                pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            mutate(v, seen)
        for k in list(x):
            if not isinstance(x[k], (dict, list, np.ndarray)):
                x[k] = "changed by the caller"
        x["added by the caller"] = 1
    elif isinstance(x, list):
        for v in x:
            mutate(v, seen)
        x.append("added by the caller")
    elif isinstance(x, tuple):
        for v in x:
            mutate(v, seen)


def is_mapped(a):
    while isinstance(a, np.ndarray):
        if isinstance(a, np.memmap):
            return True
        a = a.base
    return type(a).__name__ == "mmap"


def extra(r):
    """Parts of the result which are functions."""
    out = []
    for s in r:
        m = s.get("mapping") or {}
        out.append([sorted((str(k), str(v[0]) if isinstance(v, (tuple, list)) else str(v)) for k, v in m.items()), len(s.get("post_process") or [])])
    return out


def execute(plan, ctx):
    import dask

    vio = []
    t = plan["target"]
    d = ctx.sub()
    src = d + ".src"
    os.mkdir(src)
    if t.get("entry"):
        e = inputs.catalog()[t["entry"]]
        name = e["fmt"]
        inputs.materialise(e, src)

        def clear():
            shutil.rmtree(d)
            os.mkdir(d)

        def place():
            clear()
            # the bytes are written into the file of an earlier step if one has its name
            shutil.copytree(src, d, dirs_exist_ok=True)

        def final():
            r = inputs.read(e, os.path.join(d, e["main"]), lazy=t["lazy"])
            x = extra(r)
            raw.append(r)
            return canon.canon_read(r), x
    else:
        case = t["case"]
        F = formats.ALL[case["fmt"]]
        name = case["fmt"]
        path = F.path(d, "file", case)

        def place():
            shutil.rmtree(d)
            os.mkdir(d)

        def final():
            F.write(case, path, signals.build(case["desc"]))
            r = F.read(case, path)
            x = extra(r)
            raw.append(r)
            return canon.canon_read(r), x

    raw = []
    ran = []
    inj = {}
    kept = []
    with dask.config.set(scheduler="synchronous"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        place()
        st, ref = ctx.fork(final)
        if st == "end":
            return {"violations": [], "nontrivial": False, "outcome": "reference ended"}

        def step(i, s):
            if s["do"] == "read":
                q = inputs.catalog()[s["entry"]]
                w = d if s["same_path"] and t.get("entry") else ctx.sub()
                if w == d:
                    shutil.rmtree(d)
                p = inputs.materialise(q, w)
                if w == d and t.get("entry") and q["fmt"] == name and os.path.isfile(p) and os.path.isfile(os.path.join(src, e["main"])) and len(q.get("files") or []) == 1:
                    # under the very same name
                    p2 = os.path.join(d, e["main"])
                    os.makedirs(os.path.dirname(p2), exist_ok=True)
                    os.rename(p, p2)
                    p = p2
                if s["how"] == "cut":
                    fs = [f for f in all_files(w) if os.path.getsize(f)]
                    f = fs[s["cut"]["file"] % len(fs)]
                    with open(f, "r+b") as fh:
                        fh.truncate(int(os.path.getsize(f) * s["cut"]["at"]))

                def call():
                    r = inputs.read(q, p, lazy=s["lazy"])
                    if s["lazy"] and s["how"] == "none":
                        canon.canon_read(r)
                    return r
            else:
                G = formats.ALL[s["case"]["fmt"]]
                w = ctx.sub()
                p = G.path(w, "file", s["case"])
                sig = signals.build(s["case"]["desc"])

                def call():
                    G.write(s["case"], p, sig)
                    return sig
            shimctl.begin(w)
            if s["how"] == "faults":
                for x in s["faults"]:
                    shimctl.add_fault(x)
            r = None
            try:
                if s["how"] == "interrupt":
                    with Interrupt(nth=s["nth"]):
                        r = call()
                else:
                    r = call()
                ran.append("ok")
            except Exception:
                ran.append("raised")
            except KeyboardInterrupt:
                ran.append("interrupted")
                inj["interrupt"] = inj.get("interrupt", 0) + 1
            for k, v in shimctl.injected().items():
                if v:
                    inj[k] = inj.get(k, 0) + v
            shimctl.end()
            if s["how"] == "cut":
                inj["cut"] = inj.get("cut", 0) + 1
            if r is not None and s["mutate"]:
                mutate(r)
            if r is not None and s.get("keep") and w != d:
                kept.append(r)

        for i, s in enumerate(plan["steps"]):
            step(i, s)
            gc.collect()
        for k in range(2 if plan["twice"] else 1):
            place()
            mutate(raw)
            raw.clear()
            gc.collect()
            try:
                got = ("ok", final())
            except Exception as ex:
                got = ("raise", f"{type(ex).__name__}: {ex}"[:300])
            tag = f"{label(plan)}{':again' if k else ''}"
            if st != got[0]:
                vio.append({"sig": f"{tag}:{st}-{got[0]}", "msg": f"{ran}: alone: {str(ref)[:200] if st == 'raise' else 'returned'}; after: {got[1] if got[0] == 'raise' else 'returned'}"})
            elif st == "ok":
                for x in canon.diff(ref[0], got[1][0])[:3]:
                    vio.append({"sig": f"{tag}:{re.sub('[0-9]+', '#', '/'.join(x.split(':')[0].split('/')[2:5]))[:60]}", "msg": f"after {ran}: {x}"})
                if ref[1] != got[1][1]:
                    vio.append({"sig": f"{tag}:mapping", "msg": f"after {ran}: mapping or post-processing {ref[1]} -> {got[1][1]}"[:500]})
            elif re.sub("[0-9]+", "#", ref) != re.sub("[0-9]+", "#", got[1]):
                vio.append({"sig": f"{tag}:other-exception", "msg": f"after {ran}: {ref} -> {got[1]}"[:500]})
    return {
        "violations": vio,
        "nontrivial": bool(ran),
        "interleaving": canon.digest([[s["do"], s.get("entry") or s["case"]["fmt"], s["how"]] for s in plan["steps"]] + ran),
        "stats": {"calls": len(ran)},
        "faults": inj,
        "outcome": f"{st}",
        "digest": canon.digest([v["msg"] for v in vio]) + ",".join(ran),
    }
