"""Simulation worker: imports the code under test once, then forks one child
per simulated run, so that every run starts from the same process state and
may die without harm.  Protocol: JSON lines on the original stdout."""

import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path[:0] = [REPO, VERIF]

from sim import sched  # noqa: E402

sched.install_locks()


def preimport(names):
    import importlib
    import logging
    import warnings

    warnings.simplefilter("ignore")
    so = os.environ.get("SIM_UNBCF")
    if so:
        import importlib.util

        spec = importlib.util.spec_from_file_location("rsciio.bruker.unbcf_fast", so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        import rsciio.bruker

        sys.modules["rsciio.bruker.unbcf_fast"] = m
        rsciio.bruker.unbcf_fast = m
    import numcodecs.blosc

    numcodecs.blosc.use_threads = False
    import rsciio

    assert os.path.realpath(rsciio.__file__).startswith(os.path.realpath(REPO) + os.sep), rsciio.__file__
    logging.disable(logging.NOTSET)
    for n in names:
        importlib.import_module(n)
    warnings.resetwarnings()
    # parsing/compiling of numba functions is not part of any run
    import gc

    gc.collect()
    gc.freeze()


COMMON = [
    "numpy", "dask", "dask.array", "dask.local", "dask.callbacks", "dask.diagnostics", "h5py", "zarr", "tifffile", "imageio.v3", "yaml", "pint", "box",
    "dateutil.parser", "dateutil.tz", "sparse", "scipy.io", "PIL.Image", "mrcz",
    "rsciio.utils.file", "rsciio.utils.path", "rsciio._hierarchical",
    "rsciio.utils._distributed", "rsciio.utils._fei_stream_readers", "rsciio.utils._skimage_exposure", "rsciio.utils._units",
] + ["rsciio.%s._api" % f for f in (
    "arina blockfile bruker delmic dens digitalmicrograph digitalsurf edax emd empad hamamatsu hspy image impulse jeol jobinyvon mrc mrcz msa "
    "netcdf nexus numpy pantarhei phenom protochips quadstar quantumdetector renishaw ripple semper tia tiff tofwerk topspin trivista tvips usid zspy"
).split()] + ["rsciio.emd._emd_ncem", "rsciio.emd._emd_velox"]


def child(job, wfd, errpath):
    import importlib
    import random

    os.setpgid(0, 0)
    random.seed(0)
    import uuid

    urng = random.Random(job["plan"].get("seed", 0) if isinstance(job["plan"], dict) else 0)
    uuid.uuid4 = lambda: uuid.UUID(int=urng.getrandbits(128), version=4)
    # collections happen when the code asks for them, not when some
    # allocation counter overflows
    import gc

    gc.disable()
    res = {}
    # every read of the wall clock moves it on by a millisecond
    from sim import shimctl

    shimctl.lib().sim_clock(1, 1.6e9, 1e-3, 0.0)
    try:
        mod = importlib.import_module("checks." + job["check"])
        from sim import ctx

        c = ctx.Ctx(job)
        try:
            res = mod.execute(job["plan"], c)
        finally:
            c.close()
        res.setdefault("status", "ok")
    except BaseException as e:  # noqa: BLE001
        res = {"status": "harness_error", "error": repr(e), "tb": traceback.format_exc()[-3000:]}
    data = json.dumps(res, default=str).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def main():
    proto_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    proto_in = os.fdopen(os.dup(0), "rb")
    os.dup2(devnull, 0)
    check = sys.argv[1]
    import importlib

    mod = importlib.import_module("checks." + check)
    pre = getattr(mod, "PREIMPORT", None)
    preimport(COMMON if pre is None else pre)
    if hasattr(mod, "warmup"):
        mod.warmup()
    os.write(proto_out, b'{"ready": true}\n')
    scratch = os.environ["SIM_SCRATCH"]
    for line in proto_in:
        job = json.loads(line)
        if job.get("quit"):
            break
        rfd, wfd = os.pipe()
        errpath = os.path.join(scratch, f"stderr.{os.getpid()}")
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            e = os.open(errpath, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(e, 2)
            lim = int(os.environ.get("SIM_RLIMIT_AS_GB", "0"))
            if lim:
                resource.setrlimit(resource.RLIMIT_AS, (lim << 30, lim << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            child(job, wfd, errpath)
        os.close(wfd)
        t0 = time.monotonic()
        deadline = t0 + job.get("timeout", 60)
        buf = b""
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            r, _, _ = select.select([rfd], [], [], left)
            if not r:
                timed_out = True
                break
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            buf += b
        os.close(rfd)
        if timed_out:
            for p in (-pid, pid):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        _, st = os.waitpid(pid, 0)
        if timed_out:
            res = {"status": "timeout"}
        elif os.WIFSIGNALED(st):
            res = {"status": "crash", "signal": os.WTERMSIG(st)}
        elif os.WEXITSTATUS(st) != 0 and not buf:
            res = {"status": "exit", "code": os.WEXITSTATUS(st)}
        else:
            try:
                res = json.loads(buf)
            except ValueError:
                res = {"status": "harness_error", "error": "bad output: %r" % buf[:200]}
        if res["status"] in ("crash", "exit", "harness_error", "timeout"):
            try:
                with open(errpath, errors="replace") as f:
                    res["stderr"] = f.read()[-1500:]
            except OSError:
                pass
        res["wall"] = round(time.monotonic() - t0, 4)
        data = json.dumps({"id": job["id"], "result": res}).encode() + b"\n"
        while data:
            n = os.write(proto_out, data)
            data = data[n:]


if __name__ == "__main__":
    main()
