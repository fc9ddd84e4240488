"""Python side of the LD_PRELOADed fault-injection library."""

import ctypes
import errno
import os
import subprocess

OPS = ["open", "read", "write", "trunc", "sync", "close", "mmap", "rename", "unlink", "mkdir", "stat", "list"]
KINDS = {"err": 1, "short": 2, "eintr": 3, "kill": 4, "torn": 5, "eof": 6, "tail": 7}  # tail: an error that shows when stdio flushes
BIT = {o: 1 << i for i, o in enumerate(OPS)}

_L = None


def build(dest_dir):
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")
    out = os.path.join(dest_dir, "simshim.so")
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", out, src, "-ldl"], check=True)
    return out


def lib():
    global _L
    if _L is None:
        L = ctypes.CDLL(None)
        l, d = ctypes.c_long, ctypes.c_double
        L.sim_add_fault.argtypes = [ctypes.c_int, l, ctypes.c_int, ctypes.c_int, l, ctypes.c_int]
        for f in ("sim_fault_fired", "sim_count", "sim_injected"):
            getattr(L, f).restype = l
            getattr(L, f).argtypes = [ctypes.c_int]
        for f in ("sim_nlog", "sim_rw_open", "sim_wmaps", "sim_alloc_seen", "sim_alloc_failed", "sim_alloc_max", "sim_clock_reads"):
            getattr(L, f).restype = l
        L.sim_log.restype = ctypes.c_void_p
        L.sim_alloc.argtypes = [l, l, l]
        L.sim_clock.argtypes = [ctypes.c_int, d, d, d]
        L.sim_begin.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        _L = L
    return _L


def begin(root, root2=None):
    lib().sim_begin(os.fsencode(os.path.realpath(root)), os.fsencode(os.path.realpath(root2)) if root2 else None)


def end():
    lib().sim_end()


def add_fault(f):
    """f: dict(ops=[...], nth, kind, err='EIO', arg=0, sticky=False)"""
    mask = 0
    for o in f["ops"]:
        mask |= BIT[o]
    return lib().sim_add_fault(mask, int(f["nth"]), KINDS[f["kind"]], getattr(errno, f.get("err") or "EIO"), int(f.get("arg", 0)), 1 if f.get("sticky") else 0)


def clear():
    lib().sim_clear_faults()


def counts():
    L = lib()
    return {o: int(L.sim_count(i)) for i, o in enumerate(OPS)}


def injected():
    L = lib()
    return {k: int(L.sim_injected(v)) for k, v in KINDS.items()}


def log():
    L = lib()
    n = min(int(L.sim_nlog()), 65536)
    p = L.sim_log()
    if not p or not n:
        return []
    raw = ctypes.string_at(p, n * 8)
    out = []
    for i in range(n):
        op, fk = raw[8 * i], raw[8 * i + 1]
        h = raw[8 * i + 2] | raw[8 * i + 3] << 8
        size = int.from_bytes(raw[8 * i + 4 : 8 * i + 8], "little", signed=True)
        out.append((OPS[op], fk, h, size))
    return out
