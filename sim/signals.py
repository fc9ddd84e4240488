"""Signal descriptions (JSON) and the dictionaries built from them."""

import functools
import numpy as np

UNITS = ["nm", "um", "eV", "s", "1/nm", "mrad"]


def rnd_shape(rng, ndim, lo=1, hi=9, big=False):
    s = [rng.randint(lo, hi) for _ in range(ndim)]
    if ndim and rng.random() < 0.25:
        s[rng.randrange(ndim)] = rng.randint(10, 70 if big else 24)
    return s


def rnd_axes(rng, shape, nnav, units=UNITS, names=None, offset=True, simple=False):
    axes = []
    pool = list(names or ["x", "y", "z", "t", "E", "qx", "qy"])
    if not names:
        rng.shuffle(pool)
    for i, n in enumerate(shape):
        scale = rng.choice([1.0, 0.5, 2.0, 0.1, 1.5e-3, 12.25, 100.0]) if not simple else 1.0
        axes.append(
            dict(
                size=int(n),
                name=pool[i % len(pool)],
                scale=scale,
                offset=(rng.choice([0.0, 0.0, -3.5, 10.0, 0.25]) if offset and not simple else 0.0),
                units=rng.choice(units),
                navigate=i < nnav,
            )
        )
    return axes


def rnd_chunks(rng, shape, min_parts=1):
    """An irregular chunking, as tuples of block lengths."""
    out = []
    for n in shape:
        mode = rng.random()
        if n <= 1 or mode < 0.3:
            out.append([int(n)])
        elif mode < 0.7:
            c = rng.randint(1, max(1, n))
            full, rest = divmod(n, c)
            out.append([c] * full + ([rest] if rest else []))
        else:
            left, parts = n, []
            while left:
                c = rng.randint(1, left)
                parts.append(c)
                left -= c
            out.append(parts)
    return out


def make_data(desc):
    rs = np.random.RandomState(desc["seed"] % (2**32))
    dt = np.dtype([tuple(x) if isinstance(x, list) else x for x in desc["dtype"]] if isinstance(desc["dtype"], list) else desc["dtype"])
    shape = tuple(desc["shape"])
    if dt.fields:
        a = np.empty(shape, dt)
        for f in dt.names:
            a[f] = rs.randint(0, 255, shape)
    elif dt.kind == "b":
        a = rs.randint(0, 2, shape).astype(bool)
    elif dt.kind in "iu":
        info = np.iinfo(dt)
        lo, hi = desc.get("lo"), desc.get("hi")
        lo = max(info.min, -(2**40)) if lo is None else lo
        hi = min(info.max, 2**40) if hi is None else hi
        a = rs.randint(lo, hi, shape, dtype=np.int64 if hi < 2**62 else np.uint64).astype(dt)
        if desc.get("edge") and a.size > 2:
            a.flat[0], a.flat[-1] = (info.min if desc.get("lo") is None else lo), (info.max if desc.get("hi") is None else hi)
    elif dt.kind == "f":
        a = (rs.randint(-(2**20), 2**20, shape) / 64.0).astype(dt)
        if desc.get("edge") and a.size > 3:
            a.flat[0], a.flat[-1], a.flat[a.size // 2] = np.nan, np.inf, -0.0
    elif dt.kind == "c":
        a = (rs.randint(-999, 999, shape) + 1j * rs.randint(-999, 999, shape)).astype(dt)
    else:
        raise ValueError(dt)
    order = desc.get("order", "C")
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "strided" and a.ndim:
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        b[tuple(slice(0, 2 * n, 2) for n in a.shape)] = a
        a = b[tuple(slice(0, 2 * n, 2) for n in a.shape)]
    elif order == "readonly":
        a.flags.writeable = False
    return a


def build(desc, lazy=None):
    """Signal dictionary as HyperSpy hands it to a writer."""
    data = make_data(desc)
    lazy = bool(desc.get("chunks")) if lazy is None else lazy
    if desc.get("ragged"):
        rs = np.random.RandomState(desc["seed"] % (2**32))
        rag = np.empty(data.shape, dtype=object)
        for i in np.ndindex(data.shape):
            rag[i] = rs.randint(0, 1000, rs.randint(1, 6)).astype(desc["ragged"])
        data = rag
    if lazy:
        import dask.array as da

        data = da.from_array(data, chunks=tuple(tuple(c) for c in desc["chunks"]))
    axes = []
    for i, a in enumerate(desc["axes"]):
        ax = dict(a)
        ax.setdefault("_type", "UniformDataAxis")
        ax.setdefault("is_binned", False)
        if ax["_type"] == "UniformDataAxis":
            ax.pop("axis", None)
        elif ax["_type"] == "DataAxis":
            ax["axis"] = np.array(ax["axis"], dtype=float)
            for k in ("scale", "offset"):
                ax.pop(k, None)
        axes.append(ax)
    md = {
        "General": {"title": desc.get("title", "")},
        "Signal": {"signal_type": desc.get("signal_type", "")},
        "_HyperSpy": {"Folding": {"unfolded": False, "signal_unfolded": False, "original_shape": None, "original_axes_manager": None}},
    }
    _merge(md, _decode(desc.get("md", {}), lazy))
    if desc.get("no_hs"):
        md.pop("_HyperSpy")
    om = _decode(desc.get("om", {}), lazy)
    if desc.get("om_from"):
        om, md2 = original_metadata(desc["om_from"])
        if desc.get("md_from"):
            md2.pop("_HyperSpy", None)
            md2.pop("Signal", None)
            _merge(md2, md)
            md = md2
    return {
        "data": data,
        "axes": axes,
        "metadata": md,
        "original_metadata": om,
        "attributes": {"_lazy": lazy, "ragged": bool(desc.get("ragged"))},
        "learning_results": _decode(desc.get("lr", {})),
        "models": {},
        "package": "hyperspy",
        "package_version": "2.5.0",
        "package_info": {"package": "hyperspy", "package_version": "2.5.0"},
        "tmp_parameters": dict(desc.get("tmp", {})),
    }


def original_metadata(entry):
    """What the file ``entry`` of the catalogue was read with."""
    import copy
    import os
    import shutil
    import tempfile
    import warnings

    from sim import inputs

    e = inputs.catalog()[entry]
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = inputs.read(e, inputs.materialise(e, d))
            r = r[0] if r else {}
    finally:
        shutil.rmtree(d)
    return plain(copy.deepcopy(r.get("original_metadata") or {})), plain(copy.deepcopy(r.get("metadata") or {}))


def plain(x):
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


@functools.lru_cache(None)
def om_entries(fmt):
    """Files whose original metadata the writer of ``fmt`` looks at."""
    from sim import inputs

    return sorted(k for k, e in inputs.catalog().items() if fmt in (None, e["fmt"]) and e["nbytes"] < 3e6 and e["fsize"] < 3e6 and e["t"] < 0.2)


def _merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            _merge(a[k], v)
        else:
            a[k] = v


def from_reader(d, lazy):
    """The signal HyperSpy would hand to a writer after loading ``d``."""
    axes = []
    for i, a in enumerate(d["axes"]):
        a = dict(a)
        a.setdefault("name", f"ax{i}")
        a.setdefault("navigate", False)
        a.setdefault("units", "")
        a.setdefault("is_binned", False)
        if "axis" in a:
            a["_type"] = "DataAxis"
        else:
            a.setdefault("scale", 1.0)
            a.setdefault("offset", 0.0)
            a["_type"] = "UniformDataAxis"
        axes.append({k: a[k] for k in ("_type", "name", "scale", "offset", "units", "size", "navigate", "is_binned", "axis") if k in a})
    return {
        "data": d["data"],
        "axes": axes,
        "metadata": {"General": {"title": "from reader"}, "Signal": {"signal_type": ""}},
        "original_metadata": {},
        "attributes": {"_lazy": lazy, "ragged": False},
        "learning_results": {},
        "models": {},
        "package": "hyperspy",
        "package_version": "2.5.0",
        "package_info": {"package": "hyperspy", "package_version": "2.5.0"},
        "tmp_parameters": {},
    }


def _decode(o, lazy=False):
    """JSON forms of values JSON cannot hold: {"$nd": [...], "dtype"}, {"$t": [...]}, {"$b": hex},
    {"$da": ..., "chunks"} (a dask array in a lazy signal)."""
    if isinstance(o, dict):
        if "$nd" in o:
            return np.array(o["$nd"], dtype=o.get("dtype"))
        if "$da" in o:
            a = np.array(o["$da"], dtype=o.get("dtype"))
            if not lazy:
                return a
            import dask.array as da

            return da.from_array(a, chunks=o["chunks"])
        if "$t" in o:
            return tuple(_decode(v, lazy) for v in o["$t"])
        if "$b" in o:
            return bytes.fromhex(o["$b"])
        if "$np" in o:
            return np.dtype(o["dtype"]).type(o["$np"])
        return {k: _decode(v, lazy) for k, v in o.items()}
    if isinstance(o, list):
        return [_decode(v, lazy) for v in o]
    return o


def rnd_md(rng, depth=2, rich=True, nobytes=False):
    """A random metadata tree."""
    out = {}
    for k in rng.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta"], rng.randint(1, 4)):
        t = rng.randrange(13 if rich else 4)
        if t == 0:
            v = rng.randint(-1000, 1000)
        elif t == 1:
            v = rng.choice([0.5, -1e300, 1e-12, 3.25])
        elif t == 2:
            v = rng.choice(["text", "", "é µ 中", "a b/c", "x" * 300])
        elif t == 3:
            v = rng.random() < 0.5
        elif t == 4:
            v = None
        elif t == 5:
            v = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
        elif t == 6:
            v = {"$t": [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]}
        elif t == 7:
            v = {"$nd": [[rng.randint(0, 99) for _ in range(3)] for _ in range(rng.randint(1, 3))], "dtype": rng.choice(["<f8", "<i4", "u1"])}
        elif t == 8:
            v = [rng.choice(["a", "bb", "é"]) for _ in range(rng.randint(1, 3))]
        elif t == 9:
            v = {"$b": "00ff10" * rng.randint(1, 3)} if not nobytes else 3
        elif t == 10:
            v = [{"k": i} if rng.random() < 0.5 else [i, [i, 2 * i]] for i in range(rng.choice([2, 11, 13]))]
            if rng.random() < 0.5:
                v = {"$t": v}
        elif depth > 0:
            v = rnd_md(rng, depth - 1, rich, nobytes)
        else:
            v = 7
        out[k] = v
    return out
