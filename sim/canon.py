"""Canonical form of what readers return, for exact comparison and digests."""

import datetime
import hashlib
import json
import pathlib

import numpy as np


def is_dask(a):
    return hasattr(a, "dask") and hasattr(a, "compute")


def arr(a):
    """Canonical form of an array (values are hashed)."""
    a = np.asanyarray(a)
    if a.dtype == object:
        return {"_arr": "object", "shape": list(a.shape), "items": [canon(x) for x in a.ravel().tolist()] if a.size and not isinstance(a.ravel()[0], np.ndarray) else [canon(x) for x in a.ravel()]}
    if a.dtype.byteorder == ">" or (a.dtype.fields and a.dtype != a.dtype.newbyteorder("=")):
        try:
            a = a.astype(a.dtype.newbyteorder("="))
        except Exception:
            pass
    c = np.ascontiguousarray(a)
    if c.dtype.kind in "fc":
        # one representation for every NaN
        c = c.copy()
        c[np.isnan(c)] = np.nan
    h = hashlib.sha1(c.tobytes()).hexdigest()
    return {"_arr": str(c.dtype.str if not c.dtype.fields else c.dtype.descr), "shape": list(a.shape), "sha": h}


def canon(o, compute=True, depth=0):
    if depth > 60:
        return "..."
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, (int,)):
        return int(o)
    if isinstance(o, float):
        return float(o).hex() if o == o else "nan"
    if isinstance(o, complex):
        return ["complex", canon(o.real), canon(o.imag)]
    if isinstance(o, np.generic):
        if isinstance(o, np.void):
            return ["void", o.tobytes().hex(), str(o.dtype)]
        if isinstance(o, (np.datetime64, np.timedelta64)):
            return ["dt", str(o)]
        return canon(o.item(), compute, depth + 1)
    if is_dask(o):
        if compute:
            return arr(o.compute())
        return {"_dask": str(o.dtype), "shape": [int(s) if s == s else None for s in o.shape]}
    if isinstance(o, np.ndarray):
        if o.ndim == 0 and o.dtype != object:
            return canon(o[()], compute, depth + 1)
        return arr(o)
    if isinstance(o, bytes):
        return ["bytes", o.hex() if len(o) < 200 else hashlib.sha1(o).hexdigest()]
    if isinstance(o, dict):
        return {str(k): canon(v, compute, depth + 1) for k, v in o.items()}
    if isinstance(o, (list,)):
        return [canon(v, compute, depth + 1) for v in o]
    if isinstance(o, tuple):
        return ["tuple"] + [canon(v, compute, depth + 1) for v in o]
    if isinstance(o, (set, frozenset)):
        return ["set"] + sorted(json.dumps(canon(v, compute, depth + 1), sort_keys=True) for v in o)
    if isinstance(o, (datetime.datetime, datetime.date, datetime.time, pathlib.PurePath)):
        return [type(o).__name__, str(o)]
    if hasattr(o, "to_dict"):
        try:
            return canon(o.to_dict(), compute, depth + 1)
        except Exception:
            pass
    if callable(o):
        return "<callable>"
    if hasattr(o, "todense"):
        return arr(o.todense())
    return f"<{type(o).__name__}>"


def digest(c):
    return hashlib.sha1(json.dumps(c, sort_keys=True, default=str).encode()).hexdigest()[:16]


def diff(a, b, path="", out=None, limit=6):
    """Paths at which two canonical forms differ."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if type(a) is not type(b):
        out.append(f"{path}: {short(a)} != {short(b)}")
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append(f"{path}/{k}: missing on the left (right {short(b[k])})")
            elif k not in b:
                out.append(f"{path}/{k}: missing on the right (left {short(a[k])})")
            else:
                diff(a[k], b[k], f"{path}/{k}", out, limit)
            if len(out) >= limit:
                break
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append(f"{path}: length {len(a)} != {len(b)}")
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, f"{path}/{i}", out, limit)
    elif a != b:
        out.append(f"{path}: {short(a)} != {short(b)}")
    return out


def short(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 100 else s[:97] + "..."


def canon_read(dicts, compute=True):
    """Canonical form of the list of dictionaries a reader returned."""
    out = []
    for d in dicts:
        c = {k: canon(v, compute) for k, v in d.items() if k not in ("post_process", "mapping")}
        # the log of readings and writings holds the moment at which they happened
        log = c.get("metadata", {}).get("General", {}).get("FileIO") if isinstance(c.get("metadata"), dict) and isinstance(c["metadata"].get("General"), dict) else None
        for x in (log.values() if isinstance(log, dict) else log or []):
            if isinstance(x, dict):
                x.pop("timestamp", None)
        out.append(c)
    return out
