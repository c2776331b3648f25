"""Driver shared by all checks: deterministic cases, monitors, verdicts, evidence.

A check module (checks/pNN.py) registers *groups* with @group.  A group is a
function g(ctx, rng) that builds one workload case from rng, drives the real
code and lets oracles observe it through ctx.check / ctx.close / ctx.equal.
Cases are numbered; case k of a group is a pure function of
(VERIF_SEED, property, group, k), so a replay re-runs exactly that case.

Verdicts are three-valued: exit 0 held on what was observed, exit 1 with a
VIOLATION line, exit 2 inconclusive (deciding monitor not reached, watchdog,
harness error)."""
import contextlib
import hashlib
import json
import os
import signal
import sys
import threading
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class Stop(Exception):
    """Abandon the current case (not an error, not an observation)."""


class Group:
    def __init__(self, fn, quick, thorough, min_obs, name=None, weight=1):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.min_obs = min_obs


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:4], "little")


class Ctx:
    case_s = 100
    def __init__(self, pid, tier, seed, known):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.known = known  # {mechanism: description}
        self.evaluations = 0
        self.cases = Counter()
        self.obs = Counter()  # observations per group
        self.notes = Counter()  # free counters: "events seen"
        self.sigs = set()
        self.samples = []
        self.violations = []  # dicts
        self.nviol = Counter()
        self.known_hits = Counter()
        self.errors = []
        self.skips = Counter()
        self.group = None
        self.index = None
        self.desc = None
        self._mech_seen = set()

    # -- case bookkeeping --------------------------------------------------
    def describe(self, *a, **kw):
        """Record what this case is (replay text, samples) ..."""
        self.desc = {"case": [str(x) for x in a], **{k: _short(v) for k, v in kw.items()}}

    def sig(self, *parts):
        """Signature of a distinct non-trivial case."""
        self.sigs.add(hashlib.md5((self.group + repr(parts)).encode()).hexdigest()[:16])

    def note(self, name, n=1):
        self.notes[name] += n

    def skip(self, why):
        self.skips[f"{self.group}: {why}"] += 1
        raise Stop()

    # -- oracles -----------------------------------------------------------
    def check(self, ok, mech, msg="", **data):
        self.evaluations += 1
        self.obs[self.group] += 1
        if not ok:
            self.violate(mech, msg, **data)
        return bool(ok)

    def violate(self, mech, msg="", **data):
        if mech in self.known:
            self.known_hits[mech] += 1
            return
        self.nviol[mech] += 1
        if self.nviol[mech] <= 3:
            self.violations.append(
                {
                    "property": self.pid,
                    "mechanism": mech,
                    "message": str(msg)[:2000],
                    "data": {k: _short(v) for k, v in data.items()},
                    "group": self.group,
                    "index": self.index,
                    "seed": self.seed,
                    "tier": self.tier,
                    "case": self.desc,
                }
            )

    def close(self, got, want, mech, msg="", rtol=1e-4, atol=1e-5, **data):
        import numpy as np

        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.check(False, mech, f"{msg}: shape {got.shape} != {want.shape}", **data)
        g = got.astype("float64") if got.dtype != object else got
        w = want.astype("float64")
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            return self.check(True, mech)
        bad = np.argwhere(~ok)[0] if ok.ndim else ()
        i = tuple(int(x) for x in bad)
        return self.check(
            False,
            mech,
            f"{msg}: {int((~ok).sum())}/{ok.size} differ, first at {i}: got {g[i]!r} want {w[i]!r}",
            **data,
        )

    def equal(self, got, want, mech, msg="", **data):
        import numpy as np

        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            got = np.asarray(got)
            want = np.asarray(want)
            ok = (
                got.shape == want.shape
                and got.dtype == want.dtype
                and got.tobytes() == want.tobytes()
            )
            if not ok:
                msg = f"{msg}: {got.dtype}{got.shape} vs {want.dtype}{want.shape} {_short(got)} vs {_short(want)}"
        else:
            ok = got == want
            if not ok:
                msg = f"{msg}: got {got!r} want {want!r}"
        return self.check(ok, mech, msg, **data)

    def raises(self, fn, mech, msg="", exc=Exception):
        """The call must be refused with an ordinary exception."""
        try:
            fn()
        except exc:
            return self.check(True, mech)
        return self.check(False, mech, f"{msg}: was accepted")

    def sample(self, text):
        if len(self.samples) < 40:
            self.samples.append(text if isinstance(text, (str, dict)) else str(text))

    # -- running -----------------------------------------------------------
    def run_case(self, group, index):
        import numpy as np

        self.group, self.index, self.desc = group.name, index, None
        s = seed_of(self.seed, self.pid, group.name, index)
        rng = np.random.RandomState(s)
        np.random.seed(s)
        self.cases[group.name] += 1
        before = self.evaluations
        nv = len(self.violations)
        try:
            with time_limit(self.case_s):
                group.fn(self, rng)
        except Stop:
            pass
        except MemoryError:
            self.errors.append(f"{group.name}[{index}]: MemoryError")
        except TooLong as e:
            if from_repo(e, harness_last=False):
                self.violate(f"no-answer:{group.name}", f"no answer within {self.case_s} s", traceback=traceback.format_exc()[-2500:])
            else:
                self.errors.append(f"{group.name}[{index}]: case took over {self.case_s} s: {traceback.format_exc()[-2500:]}")
        except Exception as e:
            if not from_repo(e) and indigestible(e):
                # the harness handles every result the property allows, so it
                # was given one of another form
                self.evaluations += 1
                self.obs[self.group] += 1
                self.violate(
                    f"result-form:{self.group}:{type(e).__name__}",
                    f"the observer could not use a result: {type(e).__name__}: {e}",
                    traceback=traceback.format_exc()[-2500:],
                )
            elif from_repo(e):
                self.evaluations += 1
                self.obs[self.group] += 1
                self.violate(
                    f"exception:{self.group}:{type(e).__name__}",
                    f"unexpected {type(e).__name__}: {e}",
                    traceback=traceback.format_exc()[-2500:],
                )
            else:
                self.errors.append(
                    f"{group.name}[{index}]: {traceback.format_exc()[-2500:]}"
                )
        if self.desc is not None and self.evaluations > before:
            if self.cases[group.name] <= 2:
                self.sample({"group": group.name, "index": index, **self.desc})


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    """Ends a case that does not end by itself (main thread only)."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(*_):
        raise TooLong()

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def indigestible(e):
    """Harness exceptions that come from the form of an observed result (wrong
    shape, type, number of items), not from the environment or from names that
    the tree under test does not have (any more)."""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        return o is None or type(o).__module__ in ("builtins", "numpy") and not isinstance(o, (type, type(sys)))
    return isinstance(e, (ValueError, TypeError, IndexError, KeyError, ZeroDivisionError, AssertionError, StopIteration, ArithmeticError))


def from_repo(e, harness_last=True):
    """Did this exception come out of the code under test (deepest non-library
    frame inside the repo's thinc package)?  Otherwise it is a harness error."""
    root = str(REPO / "thinc")
    tb = e.__traceback__
    seen = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root) or fn.startswith("thinc/"):
            seen = True
        elif fn.startswith(str(VERIF)) and harness_last:
            seen = False  # harness frame deeper than repo frame (callback)
        tb = tb.tb_next
    return seen


def _short(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        with np.printoptions(threshold=24, precision=6, linewidth=200):
            return f"{v.dtype}{v.shape} {v!s}"[:600]
    s = v if isinstance(v, str) else repr(v)
    return s[:2600]


REGISTRY = {}


def group(quick, thorough=None, min_obs=1):
    """quick/thorough: number of cases per tier."""

    def deco(fn):
        mod = fn.__module__
        REGISTRY.setdefault(mod, []).append(
            Group(fn, quick, thorough if thorough is not None else quick * 20, min_obs)
        )
        return fn

    return deco


def load_known(pid):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {
        f["mechanism"]: f["what_fails"]
        for f in data.get("findings", [])
        if f["property"] == pid
    }


def run_shard(pid, tier, seed, shard, nshards, out, only=None):
    import importlib

    sys.path.insert(0, str(VERIF))
    sys.path.insert(0, str(REPO))
    import warnings

    warnings.simplefilter("ignore")
    import thinc

    assert str(Path(thinc.__file__).resolve()).startswith(str(REPO.resolve())), thinc.__file__
    mod = importlib.import_module(f"checks.{pid.lower()}")
    groups = REGISTRY.get(mod.__name__, [])
    ctx = Ctx(pid, tier, seed, load_known(pid))
    ctx.case_s = getattr(mod, "CASE_S", 100)
    deadline = time.time() + float(os.environ.get("VERIF_SHARD_S", "600"))
    status = Path(out + ".status")
    if only is not None:
        gname, idx = only
        for g in groups:
            if g.name == gname:
                ctx.run_case(g, idx)
    else:
        # interleave the groups so that a time cap cuts all of them evenly
        plan = []
        for g in groups:
            n = max(1, int(g.quick * getattr(mod, "QUICK_X", 1))) if tier == "quick" else g.thorough
            for k in range(n):
                plan.append(((k + 0.5) / n, g, k))
        plan.sort(key=lambda t: t[0])
        mine = [t for j, t in enumerate(plan) if j % nshards == shard]
        done = 0
        tg = Counter()
        for _, g, k in mine:
            if time.time() > deadline:
                ctx.notes["cases_not_run_time_cap"] += len(mine) - done
                break
            status.write_text(json.dumps([g.name, k]))
            t0 = time.time()
            ctx.run_case(g, k)
            tg[g.name] += time.time() - t0
            done += 1
        if os.environ.get("VERIF_PROF"):
            print({k: round(v, 2) for k, v in tg.most_common(12)}, file=sys.stderr)
    fin = getattr(mod, "finish", None)
    if fin is not None:
        fin(ctx)
    res = dict(
        evaluations=ctx.evaluations,
        cases=dict(ctx.cases),
        obs=dict(ctx.obs),
        notes=dict(ctx.notes),
        sigs=sorted(ctx.sigs),
        samples=ctx.samples,
        violations=ctx.violations,
        nviol=dict(ctx.nviol),
        known_hits=dict(ctx.known_hits),
        errors=ctx.errors,
        skips=dict(ctx.skips),
        groups=[[g.name, g.min_obs] for g in groups],
        rule=getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
    )
    Path(out).write_text(json.dumps(res))
