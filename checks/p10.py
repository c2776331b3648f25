"""Optimizers: random histories of updates over several parameter keys (skips,
interleavings, empty gradients, schedule steps without updates, hyper-parameters
as numbers/lists/generators/schedules) are executed by the real optimizer and by
a float64 executable model kept per key; after every call the returned weights
and gradient are compared.  Distinct = different optimizer configuration,
key order and history length."""
import numpy as np

from thinc.api import (
    Adam, Linear, Optimizer, RAdam, SGD, chain, compounding, constant,
    constant_then, decaying, registry, warmup_linear,
)
from thinc.schedules import Schedule, plateau

from vlib.core import group
from vlib.refopt import RefOpt

QUICK_X = 12
ASSUMPTIONS = [
    "float32 results compared with a float64 model: relative 2e-4 of the accumulated movement",
    "NumpyOps backend (the only one that can run here) and the generic Ops implementation",
    "finite gradients (zeroing keeps NaN)",
]


def hyper(rng, lo, hi, plain=False):
    """A hyper-parameter given in one of the accepted forms.
    -> (value to pass, reference function of the step, label)"""
    a, b = lo + (hi - lo) * rng.random_sample(2)
    a, b = float(a), float(b)
    k = 0 if plain else rng.randint(9)
    if k <= 3:
        return a, (lambda s: a), "num"
    if k == 4:
        xs = [float(x) for x in lo + (hi - lo) * rng.random_sample(1 + rng.randint(4))]
        return list(xs), (lambda s: xs[min(s, len(xs) - 1)]), "list"
    if k == 5:
        xs = [float(x) for x in lo + (hi - lo) * rng.random_sample(1 + rng.randint(4))]
        return (x for x in list(xs)), (lambda s: xs[min(s, len(xs) - 1)]), "gen"
    if k == 6:
        n = int(rng.randint(4))
        return constant_then(a, n, constant(b)), (lambda s: a if s < n else b), "sched"
    if k == 7:
        xs = lambda s: a + (b - a) * (s % 5) / 5
        return Schedule("z", lambda sc, step, **kw: xs(step)), xs, "custom"

    def inf():
        i = 0
        while True:
            yield a + (b - a) * (i % 3) / 3
            i += 1

    return inf(), (lambda s: a + (b - a) * (s % 3) / 3), "infgen"


def make(rng):
    kind = ["sgd", "adam", "radam"][rng.randint(3)]
    l2_decay = bool(rng.randint(2))
    avg = bool(rng.randint(2))
    plain = rng.randint(3) == 0
    h, ref, lab = {}, {}, {}

    def put(name, lo, hi, p=1.0, default=None):
        if rng.random_sample() < p:
            h[name], ref[name], lab[name] = hyper(rng, lo, hi, plain)
        else:
            v = default
            ref[name] = lambda s: v
            lab[name] = "default"

    put("learn_rate", 1e-3, 0.3)
    if rng.randint(8):
        put("L2", 1e-3, 0.2, 0.6, 0.0)
    else:
        put("L2", 1e-6, 1e-5)
    put("grad_clip", 0.3, 2.0, 0.6, 1.0)
    if "grad_clip" in h and rng.randint(3) == 0:
        h["grad_clip"], ref["grad_clip"], lab["grad_clip"] = 0.0, (lambda s: 0.0), "off"
    if kind == "sgd":
        ref["beta1"] = ref["beta2"] = ref["eps"] = lambda s: 0.0
    else:
        put("beta1", *((0.3, 0.95) if rng.randint(5) else (0.96, 0.995)), 0.5, 0.9)
        put("beta2", 0.6, 0.999, 0.5, 0.999)
        put("eps", 1e-8, 1e-3, 0.4, 1e-8)
    lr = h.pop("learn_rate")
    kw = dict(h, L2_is_weight_decay=l2_decay, use_averages=avg)
    way = rng.randint(3)
    simple = all(isinstance(v, (float, bool, list)) for v in [lr, *kw.values()])
    if way == 0:
        cls = {"sgd": SGD, "adam": Adam, "radam": RAdam}[kind]
        opt = cls(lr, **kw)
    elif way == 1 and kind != "sgd":
        opt = Optimizer(lr, use_radam=kind == "radam", **kw)
    elif way == 1:
        opt = Optimizer(lr, beta1=0.0, beta2=0.0, **kw)
    else:
        name = {"sgd": "SGD.v1", "adam": "Adam.v1", "radam": "RAdam.v1"}[kind]
        if simple and rng.randint(2):
            opt = registry.resolve({"o": {"@optimizers": name, "learn_rate": lr, **kw}})["o"]
        else:
            opt = registry.get("optimizers", name)(learn_rate=lr, **kw)
    model = RefOpt(kind, ref, l2_decay)
    return kind, opt, model, {"kind": kind, "l2_decay": l2_decay, "avg": avg, "forms": lab, "way": int(way)}


SHAPES = [(1,), (5,), (3, 4), (4, 1), (2, 3, 2), (7,), (0,), (0, 3), (17,)]
BLOCKS = [(63,), (64,), (65,), (5, 13), (8, 8), (127,), (128,), (3, 43), (193,), (40, 8)]  # the fused kernel works in blocks of 64


def grad_for(rng, shape):
    k = rng.randint(6)
    s = [0.01, 0.3, 1.0, 3.0, 30.0, 0.0][k]
    g = (rng.standard_normal(shape) * s).astype("f")
    if g.size and rng.randint(4) == 0:
        g.ravel()[rng.randint(g.size)] = 0
    return g


@group(260, 6000, min_obs=3000)
def histories(ctx, rng):
    kind, opt, model, d = make(rng)
    n = 1 + rng.randint(4)
    keys = [(int(rng.randint(5)), ["W", "b", "E"][rng.randint(3)]) for _ in range(n)]
    keys = list(dict.fromkeys(keys))
    ctx.describe(d, keys=keys)
    w, wr, moved = {}, {}, {}
    for k in keys:
        sh = SHAPES[rng.randint(len(SHAPES))] if rng.randint(6) else BLOCKS[rng.randint(len(BLOCKS))]
        w[k] = rng.standard_normal(sh).astype("f")
        wr[k] = w[k].astype("f8")
        moved[k] = 1.0
    order = []
    for it in range(int(rng.choice([3, 8, 14, 25])) if rng.randint(25) else int(rng.randint(70, 140))):
        if rng.randint(3) == 0:
            k = keys[rng.randint(len(keys))]
            todo = [k]
        else:
            todo = [keys[i] for i in rng.permutation(len(keys))]
            if rng.randint(3) == 0:
                todo = todo[: 1 + rng.randint(len(todo))]
        for k in todo:
            g = grad_for(rng, w[k].shape)
            ls = float(rng.choice([1.0, 1.0, 0.5, 2.0, 0.0]))
            g0, w0 = g.copy(), w[k].copy()
            kw = {} if ls == 1.0 and rng.randint(2) else {"lr_scale": ls}
            nw, ng = opt(k, w[k], g, **kw)
            rw, rg = model(k, wr[k], g0, lr_scale=ls)
            moved[k] += float(np.abs(rw - wr[k]).max()) if rw.size else 0
            tol = 2e-4 * moved[k] if kind != "sgd" else 5e-5 * moved[k]
            tag = f"{kind}"
            ok = ctx.close(nw, rw, f"weights:{tag}", f"{d} key {k} update {it} lr_scale {ls}", rtol=2e-4, atol=tol)
            ctx.check(nw.dtype == np.float32, "weights-dtype", nw.dtype)
            ctx.check(ng.shape == g0.shape and not np.any(ng), "gradient-not-zeroed", f"{tag} {ng}")
            ctx.note(f"updates_{kind}")
            if not ok:
                return
            w[k], wr[k] = nw, rw
            order.append(k)
        for _ in range(int(rng.choice([0, 1, 1, 1, 2, 3]))):
            opt.step_schedules()
            model.step += 1
            ctx.note("schedule_steps")
        ctx.check(opt.step == model.step, "step-counter", f"{opt.step} {model.step}")
    ctx.sig(d, tuple(order))


@group(80, 1500, min_obs=400)
def key_isolation(ctx, rng):
    """The history of one key is bitwise unaffected by updates to other keys."""
    st = rng.get_state()
    kind, o1, _, d = make(rng)
    rng.set_state(st)
    _, o2, _, _ = make(rng)
    ctx.describe(d)
    key = (3, "W")
    others = [(3, "b"), (4, "W"), (13, "W"), (2, "W")]
    sh = SHAPES[rng.randint(6)]
    w1 = rng.standard_normal(sh).astype("f")
    w2 = w1.copy()
    ow = {k: rng.standard_normal(SHAPES[rng.randint(6)]).astype("f") for k in others}
    for it in range(14):
        g = grad_for(rng, sh)
        w1, _ = o1(key, w1, g.copy())
        for k in others:
            if rng.randint(2):
                ow[k], _ = o2(k, ow[k], grad_for(rng, ow[k].shape))
        w2, _ = o2(key, w2, g.copy())
        for k in others:
            if rng.randint(2):
                ow[k], _ = o2(k, ow[k], grad_for(rng, ow[k].shape))
        if not ctx.check(np.array_equal(w1, w2), "cross-key", f"{d}: update {it} of {key} depends on other keys"):
            return
        if rng.randint(2):
            o1.step_schedules()
            o2.step_schedules()
    ctx.sig(d)


@group(60, 800, min_obs=200)
def schedule_calls(ctx, rng):
    """What schedules see: the optimizer's step, this key and the last score."""
    log = []

    def spy(schedule, step, *, key=None, last_score=None, **kw):
        log.append((step, key, last_score))
        return schedule.attrs["v"]

    mk = lambda v: Schedule("spy", spy, attrs={"v": v})
    kind = rng.randint(3)
    kw = dict(L2=mk(0.01), grad_clip=mk(1.0))
    if kind:
        kw.update(beta1=mk(0.9), beta2=mk(0.99), eps=mk(1e-8))
    opt = [SGD, Adam, RAdam][kind](mk(0.1), **kw)
    step, score = 0, None
    for _ in range(12):
        k = (int(rng.randint(3)), "W")
        log.clear()
        opt(k, rng.standard_normal(3).astype("f"), rng.standard_normal(3).astype("f"))
        ctx.check(log and all(e == (step, k, score) for e in log), "schedule-context", f"{log} expected {(step, k, score)}")
        ctx.note("schedule_calls", len(log))
        if rng.randint(2):
            opt.step_schedules()
            step += 1
        if rng.randint(3) == 0:
            v = [float(rng.random_sample()), 0.0, -float(rng.random_sample()), int(rng.randint(3))][rng.randint(4)]
            opt.last_score = v
            score = (step, v)
            ctx.check(opt.last_score == score, "last_score", f"{opt.last_score}")
    ctx.describe(kind=kind)
    ctx.sig(kind, step, score)


@group(40, 600, min_obs=200)
def plateau_rate(ctx, rng):
    pat, scale = 1 + rng.randint(3), 0.5
    opt = SGD(plateau(pat, scale, constant(0.1)), grad_clip=0.0)
    w = np.zeros(2, dtype="f")
    best, fails, n = None, 0, 0
    ctx.describe(patience=pat)
    for step in range(25):
        for key in [(0, "W"), (1, "b")][: 1 + rng.randint(2)]:
            w0 = np.zeros(2, dtype="f")
            nw, _ = opt(key, w0, np.ones(2, dtype="f"))
            ctx.close(nw, [-0.1 * scale**n] * 2, "plateau-learn-rate", f"step {step}", rtol=1e-5)
        opt.step_schedules()
        if rng.randint(2):
            v = float(rng.choice([0.1, 0.2, 0.3, 0.0, -0.1, 0.2]))
            opt.last_score = v
            if best is None or v > best:
                best, fails = v, 0
            else:
                fails += 1
                if fails == pat:
                    n, fails = n + 1, 0
            opt((9, "W"), np.zeros(1, dtype="f"), np.ones(1, dtype="f"))
    ctx.sig(pat, n)


@group(40, 400, min_obs=80)
def refusals(ctx, rng):
    name = ["learn_rate", "L2", "beta1", "beta2", "eps", "grad_clip"][rng.randint(6)]
    bad = [None, "x", {}, (), [], (x for x in ())][rng.randint(6)]
    kw = {"learn_rate": 0.1, name: bad}
    lr = kw.pop("learn_rate")
    ctx.raises(lambda: Adam(lr, **kw), "bad-hyper-accepted", f"{name}={bad!r}", ValueError)
    opt = Adam([0.1, 0.2, 0.3])
    opt.step_schedules()
    w, _ = opt((0, "W"), np.zeros(2, "f"), np.ones(2, "f"))
    ctx.check(np.all(np.isfinite(w)), "list-rate")
    ctx.describe(name, bad=repr(bad))
    ctx.sig(name, repr(bad)[:12])


@group(60, 1500, min_obs=500)
def through_models(ctx, rng):
    """Training a model applies the same rule to each parameter (key = id, name)."""
    kind, opt, ref, d = make(rng)
    nI, nH, nO = (int(x) for x in 1 + rng.randint(4, size=3))
    model = chain(Linear(nH, nI), Linear(nO, nH)).initialize()
    ctx.describe(d, dims=(nI, nH, nO))
    P = {}
    for node in model.walk():
        for p in node.param_names:
            P[(node.id, p)] = node.get_param(p).astype("f8")
    moved = 1.0
    for it in range(6):
        X = rng.standard_normal((1 + rng.randint(4), nI)).astype("f")
        Y, bp = model.begin_update(X)
        bp(rng.standard_normal(Y.shape).astype("f"))
        G = {(n.id, p): n.get_grad(p).copy() for n in model.walk() for p in n.param_names}
        model.finish_update(opt)
        for node in model.walk():
            for p in node.param_names:
                k = (node.id, p)
                rw, _ = ref(k, P[k], G[k])
                moved += float(np.abs(rw - P[k]).max())
                P[k] = rw
                if not ctx.close(node.get_param(p), rw, f"model-update:{kind}", f"{d} {k} step {it}", rtol=2e-4, atol=2e-4 * moved):
                    return
        opt.step_schedules()
        ref.step += 1
    ctx.sig(d, nI, nH, nO)
