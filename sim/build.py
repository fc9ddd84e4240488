"""Builds what a run needs from the current working tree of the repository."""

import glob
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile

REPO = os.environ.get("SIM_REPO", "/repo")
PY = "/opt/venv/bin/python"


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return d
    raise RuntimeError("no scratch directory")


def scratch(name):
    """A directory whose name does not change from one invocation to the next,
    unless another invocation is using it."""
    d = os.path.join(scratch_root(), name)
    for _ in range(3):
        try:
            os.mkdir(d, 0o755)
            with open(os.path.join(d, "pid"), "w") as f:
                f.write(str(os.getpid()))
            return d
        except FileExistsError:
            try:
                with open(os.path.join(d, "pid")) as f:
                    pid = int(f.read())
                os.kill(pid, 0)
                break  # in use
            except (OSError, ValueError):
                subprocess.run(["chmod", "-R", "u+rwX", d], capture_output=True)
                shutil.rmtree(d, ignore_errors=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=scratch_root())


def unbcf(dest):
    """Path of a freshly built Bruker extension, or None when the one in the
    repository was built from the current sources."""
    d = os.path.join(REPO, "rsciio", "bruker")
    src = sorted(glob.glob(os.path.join(d, "*.pyx"))) + sorted(glob.glob(os.path.join(d, "*.px[di]")))
    if not src:
        return None
    h = hashlib.sha256()
    for p in src:
        with open(p, "rb") as f:
            h.update(f.read())
    have = glob.glob(os.path.join(d, "unbcf_fast*" + sysconfig.get_config_var("EXT_SUFFIX"))) or glob.glob(os.path.join(d, "unbcf_fast*.so"))
    try:
        with open("/opt/vp/build/rsciio__bruker__unbcf_fast.sha256") as f:
            stamp = f.read().split()[0]
    except (OSError, IndexError):
        stamp = None
    if have and stamp == h.hexdigest():
        return None
    for p in src:
        shutil.copy(p, dest)
    pyx = os.path.join(dest, "unbcf_fast.pyx")
    try:
        subprocess.run([PY, "-m", "cython", "-3", pyx], check=True, capture_output=True, cwd=dest)
        out = os.path.join(dest, "unbcf_fast" + sysconfig.get_config_var("EXT_SUFFIX"))
        import numpy

        subprocess.run(
            ["gcc", "-O1", "-fPIC", "-shared", "-w", "-I", sysconfig.get_paths()["include"], "-I", numpy.get_include(), "-o", out, pyx[:-4] + ".c"],
            check=True, capture_output=True,
        )
        return out
    except (subprocess.CalledProcessError, OSError):
        return None
