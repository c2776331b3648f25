"""Schedules: random parameter settings (including boundaries) of every
built-in schedule are stepped in several orders; each value is compared with an
independent formula, and the history of evaluations must not matter.  A
case is non-trivial when at least three distinct steps of one schedule were
compared; distinct = different schedule kind/parameter/step-order signature."""
import itertools
import math
from fractions import Fraction

from thinc.api import (
    compounding, constant, constant_then, cyclic_triangular, decaying,
    slanted_triangular, warmup_linear,
)
from thinc.schedules import Schedule, plateau

from vlib.core import group

QUICK_X = 12
ASSUMPTIONS = [
    "float formulas compared with relative tolerance 1e-6",
    "slanted_triangular with cut_frac in (0, 1) as its paper requires",
    "plateau reports come with non-decreasing step numbers",
]

R = 1e-6


def num(rng, lo, hi):
    k = rng.randint(4)
    if k == 0:
        return float(lo)
    if k == 1:
        return float(hi)
    return float(lo + (hi - lo) * rng.random_sample())


def gen(rng, depth=2):
    """-> (description, schedule, reference function of step)"""
    kinds = ["constant", "decaying", "compounding", "slanted", "warmup", "cyclic"]
    if depth > 0:
        kinds += ["then", "then", "custom"]
    k = kinds[rng.randint(len(kinds))]
    if k == "constant":
        r = num(rng, -1, 3)
        return f"constant({r})", constant(r), lambda s: r
    if k == "decaying":
        b, d, t = num(rng, 1e-4, 2), num(rng, 0, 1), float(rng.choice([0, 0, 1, 2.5, 10]))
        kw = {} if t == 0 and rng.randint(2) else {"t": t}
        return f"decaying({b},{d},t={t})", decaying(b, d, **kw), lambda s: b / (1 + d * (t + s))
    if k == "compounding":
        up = rng.randint(2)
        a, z = sorted([num(rng, 1e-3, 4), num(rng, 2, 64)])
        c = num(rng, 1.0, 1.6)
        if rng.randint(4) == 0:
            a = z
        if not up:
            a, z, c = z, a, 1.0 / c
        t = float(rng.choice([0, 0, 1, 3.5]))
        kw = {} if t == 0 and rng.randint(2) else {"t": t}

        def ref(s):
            e = math.log(a) + (s + t) * math.log(c)
            if up:
                return z if e >= math.log(z) else math.exp(e)
            if a == z:
                return min(math.exp(e), z)
            return z if e <= math.log(z) else math.exp(e)

        return f"compounding({a},{z},{c},t={t})", compounding(a, z, c, **kw), ref
    if k == "slanted":
        m, n = num(rng, 1e-3, 2), int(rng.choice([1, 2, 3, 5, 7, 10, 25, 50, 100, 1000]))
        cf = float(rng.choice([0.1, 0.1, 0.01, 0.002, 0.3, 0.5, 0.9]))
        ratio = int(rng.choice([1, 2, 32, 32, 100]))
        t = float(rng.choice([0, 0, 2]))
        kw = {}
        if cf != 0.1 or rng.randint(2):
            kw["cut_frac"] = cf
        if ratio != 32 or rng.randint(2):
            kw["ratio"] = ratio
        if t:
            kw["t"] = t
        cut = max(int(n * cf), 1)

        def ref(s):
            u = s + t + 1
            p = u / cut if u < cut else 1 - (u - cut) / (cut * (1 / cf - 1))
            return m * (1 + p * (ratio - 1)) / ratio

        return f"slanted_triangular({m},{n},cf={cf},ratio={ratio},t={t})", slanted_triangular(m, n, **kw), ref
    if k == "warmup":
        i, w = num(rng, 1e-3, 2), int(rng.choice([0, 1, 2, 5, 20]))
        tot = w + int(rng.choice([0, 1, 2, 7, 40]))

        def ref(s):
            if s < w:
                return i * s / w
            if s >= tot:
                return 0.0 if tot > w or s > tot else 0.0
            return i * (tot - s) / (tot - w)

        return f"warmup_linear({i},{w},{tot})", warmup_linear(i, w, tot), ref
    if k == "cyclic":
        lo = num(rng, 0, 1)
        hi = lo + num(rng, 0, 2)
        p = int(rng.choice([1, 2, 3, 5, 11, 100]))

        def ref(s):
            pos = Fraction((s + 1) % (2 * p), p)
            rel = pos if pos <= 1 else 2 - pos
            return lo + (hi - lo) * float(rel)

        return f"cyclic_triangular({lo},{hi},{p})", cyclic_triangular(lo, hi, p), ref
    if k == "then":
        r, n = num(rng, -1, 2), int(rng.choice([0, 1, 2, 5, 20]))
        d, s0, ref0 = gen(rng, depth - 1)
        return f"constant_then({r},{n},{d})", constant_then(r, n, s0), lambda s: r if s < n else ref0(s)
    d, s0, ref0 = gen(rng, depth - 1)
    f = num(rng, 0.5, 2)
    off = int(rng.randint(3))

    def call(schedule, step, **kw):
        return schedule.attrs["f"] * schedule.attrs["inner"](step + off, **kw)

    return f"custom({f}*{d}@+{off})", Schedule("custom", call, attrs={"f": f, "inner": s0}), lambda s: f * ref0(s + off)



def ok(a, b):
    return math.isfinite(float(a)) and abs(float(a) - b) <= R * max(abs(b), 1e-3) + 1e-9


def steps_for(rng):
    base = list(range(0, 13)) + [19, 20, 21, 24, 25, 49, 50, 51, 99, 100, 101, 199, 200, 201, 399, 999, 1000, 1001, 5000]
    if rng.randint(3) == 0:
        base += [10**5, 10**6, 10**7]
    return base


@group(400, 20000, min_obs=2000)
def formulas(ctx, rng):
    d, sched, ref = gen(rng)
    ctx.describe(d)
    steps = steps_for(rng)
    order = rng.randint(3)
    if order == 1:
        steps = steps[::-1]
    elif order == 2:
        rng.shuffle(steps)
    first = {}
    for s in steps:
        s = int(s)
        v = sched(s) if rng.randint(2) else sched(step=s)
        first[s] = float(v)
        ctx.check(ok(v, ref(s)), f"formula:{d.split('(')[0]}", f"{d} at step {s}: {v!r}, formula {ref(s)!r}")
        ctx.note("schedule_values_compared")
    for s in list(first)[:8]:
        ctx.check(float(sched(s)) == first[s], "history-dependent", f"{d}: step {s} changed after other steps were asked")
    ctx.raises(lambda: sched(-1), "negative-step-accepted", d, ValueError)
    # extra information given to every schedule must be tolerated
    v = sched(3, last_score=(1, 0.5), key=(1, "W"))
    ctx.check(float(v) == float(sched(3)), "extra-args-change-value", d)
    ctx.sig(d, order)


@group(250, 8000, min_obs=1000)
def generators(ctx, rng):
    d, sched, ref = gen(rng)
    start = int(rng.choice([0, 0, 1, 2, 7, 100]))
    stride = int(rng.choice([1, 1, 2, 3, 10, 0]))
    ctx.describe(d, start=start, stride=stride)
    kw = {}
    if start or rng.randint(2):
        kw["start"] = start
    if stride != 1 or rng.randint(2):
        kw["step_size"] = stride
    g = sched.to_generator(**kw)
    g2 = sched.to_generator(**kw)
    for i, v in enumerate(itertools.islice(g, 30)):
        want = ref(start + i * stride)
        ctx.check(ok(v, want), "generator", f"{d} start={start} stride={stride} item {i}: {v!r} want {want!r}")
        if i % 3 == 0:
            sched(int(rng.randint(100)))  # interleaved direct calls
    v2 = [float(x) for x in itertools.islice(g2, 5)]
    for i, v in enumerate(v2):
        ctx.check(ok(v, ref(start + i * stride)), "generator-independent", f"{d}: second generator item {i}")
    ctx.raises(lambda: sched.to_generator(start=-1), "negative-start-accepted", d, ValueError)
    ctx.raises(lambda: sched.to_generator(step_size=-1), "negative-stride-accepted", d, ValueError)
    # extra arguments of the generator reach the schedule function at each step
    seen = []

    def spy(schedule, step, **extra):
        seen.append((step, dict(extra)))
        return step

    s = Schedule("spy", spy)
    out = list(itertools.islice(s.to_generator(start, stride, last_score=(1, 2.0), zz=3), 5))
    want = [start + i * stride for i in range(5)]
    ctx.check(out == want and seen == [(x, {"last_score": (1, 2.0), "zz": 3}) for x in want], "generator-extra-args", f"{seen}")
    ctx.sig(d, start, stride)


@group(250, 10000, min_obs=2000)
def plateaus(ctx, rng):
    d, inner, ref = gen(rng, 1)
    pat = int(rng.choice([1, 2, 3, 4]))
    scale = float(rng.choice([0.5, 0.1, 0.9, 2.0, 1.0]))
    sched = plateau(pat, scale, inner)
    wrap = bool(rng.randint(3) == 0)
    top = constant_then(0.125, 2, sched) if wrap else sched
    ctx.describe(f"plateau({pat},{scale},{d})", wrap=wrap)
    best = None
    n = fails = 0
    rep = None
    hist = []
    events = 0
    for step in range(40):
        what = rng.randint(4)
        if what == 0 or rep is None:  # a new report
            last = None if rep is None else rep[0]
            score = float(rng.choice([0, 0.25, 0.5, 0.5, 0.75, 1.0, -1.0]))
            rep = (step if last is None or step > last else last + 1, score)
            hist.append(rep)
            new = True
        else:
            new = False
        give = None if rng.randint(5) == 0 and not new else rep
        calls = 1 + rng.randint(3)
        if new and not (wrap and step < 2):
            # the documented rule
            if best is None or rep[1] > best:
                best, fails = rep[1], 0
            else:
                fails += 1
                if fails == pat:
                    n, fails = n + 1, 0
            events += 1
        elif new:
            # never shown to the plateau schedule (constant phase); drop it
            rep = None
            hist.pop()
            give = (0, 0.5)
        for _ in range(calls):
            v = top(step, last_score=give) if give is not None or rng.randint(2) else top(step)
            want = 0.125 if wrap and step < 2 else scale**n * ref(step)
            if not ctx.check(ok(v, want), "plateau", f"step {step} reports {hist}: {v!r}, expected {want!r} (n_plateaus={n})"):
                return
    # depends only on the reports: replay them at other call patterns
    s2 = plateau(pat, scale, inner)
    for r in hist:
        s2(int(rng.randint(50)), last_score=r)
    ctx.check(ok(s2(39), scale**n * ref(39)), "plateau-depends-on-calls", f"{hist}")
    s3 = plateau(pat, scale, inner)
    ctx.check(ok(s3(5), ref(5)), "plateau-shared-state", "fresh schedule already scaled")
    ctx.note("score_reports", events)
    ctx.sig(d, pat, scale, tuple(hist))
