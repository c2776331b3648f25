"""Bring the compiled extensions of the tree under test up to date.

The inputs of every extension are digested (same rule as the project's own
build script uses); when they equal the stamp of the last successful build the
existing .so files are used, otherwise they are rebuilt in place (git-ignored
products only).  A file lock keeps concurrent runs apart."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def clean_env():
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        BLIS_NUM_THREADS="1",
        CUDA_VISIBLE_DEVICES="",
    )
    return env


def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        rel = "/repo/" + str(p.relative_to(REPO))
        h.update(f"{rel}\0".encode())
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()


def state():
    shared = [REPO / "setup.py", REPO / "thinc" / "about.py"]
    for pat in ("*.pxd", "*.pxi", "*.hh", "*.h", "*.hpp"):
        shared += sorted((REPO / "thinc").rglob(pat))
    shared = [p for p in shared if p.is_file()]
    return {
        str(pyx.relative_to(REPO).with_suffix("")): _digest([pyx] + shared)
        for pyx in sorted((REPO / "thinc").rglob("*.pyx"))
    }


SKIP = {"thinc/backends/_accelerate", "thinc/backends/apple_ops"}


def _products(mod):
    base = REPO / mod
    yield base.with_suffix(".cpp")
    yield from base.parent.glob(f"{base.name}.*.so")
    for d in (REPO / "build").glob("*/"):
        yield from (d / mod).parent.glob(f"{base.name}.*")


class BuildError(Exception):
    pass


def ensure_built(log=sys.stderr):
    """Returns True when something had to be rebuilt."""
    (REPO / "build").mkdir(exist_ok=True)
    stamp = REPO / "build" / "vp-stamp.json"
    with open(REPO / "build" / "verif.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        new = state()
        try:
            old = json.loads(stamp.read_text())
        except (OSError, ValueError):
            old = {}
        stale = [
            m
            for m in new
            if m not in SKIP
            and (
                new[m] != old.get(m)
                or not list((REPO / m).parent.glob(f"{Path(m).name}.*.so"))
            )
        ]
        if not stale:
            return False
        for m in stale:
            for p in list(_products(m)):
                if p.is_file():
                    p.unlink()
        stamp.write_text(
            json.dumps({m: h for m, h in old.items() if new.get(m) == h and m not in stale}, indent=1)
        )
        r = subprocess.run(
            [PY, "setup.py", "build_ext", "--inplace", "-j", "4"],
            cwd=REPO,
            env=clean_env(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=600,
        )
        if r.returncode != 0:
            print(r.stdout[-5000:], file=log)
            raise BuildError("build_ext failed")
        stamp.write_text(json.dumps(new, indent=1))
        return True


if __name__ == "__main__":
    print("rebuilt" if ensure_built() else "up to date")
