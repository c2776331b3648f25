"""P29: randomness is reproducible from the seed and initialisers are correct.

Monitor: whole training programs (random layers, compositions, inferred models
and configurations x optimizers x averages x dropout x shuffled batches) are run
twice under the same seed while an event log records a digest of every batch,
output, gradient, update and prediction; between the runs the process is put
through a random history, or the second run happens in a new process with
another hash seed, order and history.  The logs must be equal bit for bit.
Draws of the initialisers are judged by statistical oracles for the documented
distributions (Kolmogorov-Smirnov, moments, correlation), bounds and aliasing
monitors, and compared between all ways of configuring them."""
import functools
import gc
import hashlib
import json
import os
import random
import subprocess
import sys
import threading
from pathlib import Path

import numpy as np
import torch

import thinc.api as t
import thinc.initializers
import thinc.layers
from thinc import registry
from thinc.api import Model
from vlib import compose, cont, snap, zoo
from vlib.core import group

from . import p05, p21, p23

QUICK_X = 4
VERIF = Path(__file__).resolve().parent.parent


# -- event log ----------------------------------------------------------------------
def digest(v):
    h = hashlib.sha1()

    def feed(v):
        if v is None or isinstance(v, (int, float, str, bool)):
            h.update(repr(v).encode())
        elif isinstance(v, (list, tuple)):
            h.update(f"{type(v).__name__}{len(v)}".encode())
            for x in v:
                feed(x)
        else:
            arrs = [v] if isinstance(v, np.ndarray) else list(cont.leaves(v))
            h.update(type(v).__name__.encode())
            for a in arrs:
                a = np.asarray(a)
                h.update(f"{a.dtype}{a.shape}".encode())
                if a.dtype.kind == "f" and np.isnan(a).any():
                    a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
                h.update(np.ascontiguousarray(a).tobytes())

    feed(v)
    return h.hexdigest()[:16]


def weights(model):
    out = []
    for n in model.walk():
        for p in n.param_names:
            if n.has_param(p):
                out.append(np.asarray(n.get_param(p)))
        for s in n.shims:
            if hasattr(s._model, "state_dict"):
                out += [p.detach().numpy() for p in s._model.state_dict().values()]
    return out


def gradients(model):
    out = []
    for n in model.walk():
        for p in n.param_names:
            if n.has_grad(p):
                out.append(np.asarray(n.get_grad(p)))
        for s in n.shims:
            if hasattr(s._model, "parameters"):
                out += [p.grad.numpy() for p in s._model.parameters() if p.grad is not None]
    return out


# -- recipes: a seed determines a training program -----------------------------------
def seed_embeds(model):
    """Without a given seed a HashEmbed takes its model's id, which no seed fixes."""
    for i, n in enumerate(model.walk()):
        if n.name == "hashembed":
            n.attrs["seed"] = 7 + i


def cfg_seeds(c):
    if isinstance(c, dict):
        if c.get("@layers") == "HashEmbed.v1" and c.get("seed") is None:
            c["seed"] = 5
        for v in c.values():
            cfg_seeds(v)
    elif isinstance(c, list):
        for v in c:
            cfg_seeds(v)


def torch_model(r):
    nI, nO, nH = (int(v) for v in r.randint(1, 5, size=3))
    k = r.randint(3)
    if k == 0:
        net = torch.nn.Sequential(torch.nn.Linear(nI, nH), torch.nn.Dropout(0.4), torch.nn.ReLU(), torch.nn.Linear(nH, nO))
        return t.PyTorchWrapper(net), lambda q: q.standard_normal((int(q.randint(1, 6)), nI)).astype("f")
    if k == 1:
        m = t.chain(t.Relu(nH, nI, dropout=0.3), t.PyTorchWrapper(torch.nn.Linear(nH, nO)), t.Dropout(0.2))
        return m, lambda q: q.standard_normal((int(q.randint(1, 6)), nI)).astype("f")
    m = t.PyTorchLSTM(2, nI, depth=2, dropout=0.3)
    return m, lambda q: [q.standard_normal((int(k), nI)).astype("f") for k in q.randint(1, 5, size=3)]


def dense(r):
    """The usual feed-forward and sequence models with everything random in them."""
    nI, nH, nO = int(r.randint(1, 6)), int(r.randint(1, 9)), int(r.randint(1, 4))
    k = r.randint(4)
    layer = getattr(t, str(r.choice(["Relu", "Mish", "Maxout", "Gelu", "Swish", "Dish", "HardSwish", "ClippedLinear"])))
    d = float(r.choice([0.1, 0.5, 0.8]))
    if k == 0:
        return t.chain(layer(nH, dropout=d), layer(nH, dropout=d, normalize=True), t.Softmax(nO)), lambda q: q.standard_normal((int(q.randint(1, 9)), nI)).astype("f")
    seqs = lambda q: [q.standard_normal((int(n), nI)).astype("f") for n in q.randint(1, 6, size=int(q.randint(1, 5)))]
    if k == 1:
        return t.with_array(t.chain(t.expand_window(1), layer(nH, dropout=d), t.LayerNorm(), t.Dropout(d))), seqs
    if k == 2:
        return t.chain(t.with_padded(t.LSTM(2 * nH, bi=True, dropout=d)), t.list2ragged(), t.reduce_mean(), t.Dropout(d), t.Linear(nO)), lambda q: seqs(q)
    ids = lambda q: q.randint(0, 20, size=(int(q.randint(2, 9)), 2)).astype("uint64")
    return t.chain(t.concatenate(t.HashEmbed(nH, 9, column=0, seed=3, dropout=d), t.Embed(nO, 20, column=1, dropout=d)), t.Maxout(nH, dropout=d), t.Dropout(d)), ids


SOURCES = ("zoo", "program", "inferred", "config", "torch", "dense")


def source(seed):
    """(how, build, batch): the same for the same seed, whoever asks."""
    r = np.random.RandomState(seed)
    k = str(r.choice(SOURCES, p=[0.2, 0.2, 0.15, 0.15, 0.1, 0.2]))
    s2 = int(r.randint(2**31))
    q = lambda: np.random.RandomState(s2)
    if k == "zoo":
        name = str(r.choice(sorted(p05.FACTORIES)))
        case = p05.FACTORIES[name](q())
        return name, lambda: p05.FACTORIES[name](q()).model, lambda g: case.x(g, int(g.randint(1, 5)))
    if k == "program":
        prog = compose.program(q(), None)
        return "program", lambda: compose.program(q(), None).model, prog.batch
    if k == "inferred":
        kind = str(r.choice(p21.KINDS))
        _, _, _, x, nO, ykind = p21.make(q(), kind=kind)
        return "inferred", lambda: p21.make(q(), kind=kind)[2], lambda g: x(int(g.choice([1, 2, 4]))), lambda X: p21.y_for(q(), X, nO, ykind) if ykind else None
    if k == "config":
        cfg, xgen = p23.model_cfg(q())
        cfg_seeds(cfg)
        return "config", lambda: registry.resolve({"m": cfg})["m"], lambda g: xgen()
    build = torch_model if k == "torch" else dense
    x = build(q())[1]
    return k, lambda: build(q())[0], x


def optimizer(r):
    lr = 0.01
    if r.rand() < 0.4:
        lr = t.warmup_linear(0.01, 3, 10) if r.rand() < 0.5 else t.cyclic_triangular(0.001, 0.02, 4)
    kw = dict(L2=float(r.choice([0, 1e-3])), grad_clip=float(r.choice([0, 1.0])), use_averages=bool(r.rand() < 0.6))
    k = r.randint(3)
    return [t.Adam, t.RAdam, t.SGD][k](lr, **kw)


def run(seed, rseed):
    """The training program of a seed, under random seed rseed: its event log."""
    r = np.random.RandomState(seed + 17)
    how, build, batch, *labels = source(seed)
    g = np.random.RandomState(seed + 1)
    data = [batch(g) for _ in range(int(r.randint(1, 5)))]
    log = [("data", digest(data))]
    opt = optimizer(r)
    drop = float(r.choice([0.0, 0.3, 0.6])) if r.rand() < 0.6 else None
    mb = dict(shuffle=True, buffer=int(r.choice([1, 5])))
    size = [1, 2, 3][r.randint(3)]
    sched = t.compounding(1.0, 8.0, 1.5) if r.rand() < 0.3 else None
    epochs = int(r.choice([1, 2, 3]))
    built = r.rand() < 0.5
    model = build() if built and "orch" not in how and how != "config" else None

    t.fix_random_seed(rseed)
    model = build() if model is None else model
    seed_embeds(model)
    ops = model.ops

    def event(name, fn):
        try:
            v = fn()
        except Exception as e:
            log.append((name, type(e).__name__))
            return None
        return v

    model = event("init", lambda: model.initialize(X=data[0], Y=labels[0](data[0]) if labels else None))
    if model is None:
        return how, log, []
    first = weights(model)
    log.append(("weights", digest(first)))
    if drop is not None:
        t.set_dropout_rate(model, drop)

    def step(X):
        Y, bp = model.begin_update(X)
        log.append(("Y", digest(Y)))
        dX = bp(cont.rand_like(g, Y))
        log.append(("dX", digest(dX)))
        log.append(("grads", digest(gradients(model))))
        model.finish_update(opt)
        opt.step_schedules() if hasattr(opt, "step_schedules") else None
        log.append(("updated", digest(weights(model))))
        return True

    for _ in range(epochs):
        order = []
        for b in ops.minibatch(sched.to_generator() if sched else size, np.arange(len(data) * 3), **mb):
            order.append([int(i) for i in b])
        log.append(("order", str(order)))
        for idx in (i for b in order for i in b):
            if event("step", lambda: step(data[idx % len(data)])) is None:
                return how, log, first
        X = data[0]
        if isinstance(X, (list, np.ndarray)):
            for a, b in ops.multibatch(2, X, list(range(len(X))), shuffle=True):
                log.append(("batch", digest(a) + digest(b)))
    with model.use_params(opt.averages or {}):
        log.append(("averages", digest(weights(model))))
        event("predict", lambda: log.append(("predict", digest(model.predict(data[0])))) or 1)
    log.append(("draws", digest([random.random(), np.random.rand(3), torch.rand(2).numpy()])))
    return how, log, first


def prelude(ctx, rng, depth=1):
    """A history for the process: what happened before must not matter."""
    for _ in range(int(rng.randint(1, 4))):
        k = rng.randint(7)
        if k == 0:
            [random.random() for _ in range(rng.randint(50))], np.random.rand(int(rng.randint(50))), torch.rand(3)
        elif k == 1 and depth:
            run(int(rng.randint(2**31)), int(rng.randint(1000)))
        elif k == 2:
            with t.use_ops("numpy"):
                t.chain(t.Linear(2, 3), t.Dropout(0.3)).initialize().begin_update(np.ones((2, 3), "f"))
        elif k == 3:
            th = threading.Thread(target=lambda: [np.random.standard_normal(100), t.Relu(3, 3, dropout=0.5).initialize()])
            th.start()
            th.join()
        elif k == 4:
            gc.collect()
            globals()["_keep"] = [bytearray(int(rng.randint(1, 10000))) for _ in range(20)]
        elif k == 5:
            t.fix_random_seed(int(rng.randint(1000)))
        else:
            [Model(f"x{i}", None) for i in range(rng.randint(30))]
    if ctx is not None:
        ctx.note("prelude events")


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if tuple(x) != tuple(y):
            return f"event {i} of {len(a)}: {x} / {y}; before: {a[max(0, i - 2):i]}"
    return f"{len(a)} / {len(b)} events"


# -- groups ------------------------------------------------------------------------
@group(120, 6000, 100)
def reproducible(ctx, rng):
    """The same program twice in one process, with a history in between."""
    seed, rseed = int(rng.randint(2**31)), int(rng.choice([0, 1, 42, 2**32 - 1, rng.randint(2**31)]))
    ctx.describe(f"recipe {seed} under seed {rseed}")
    how, a, first = run(seed, rseed)
    prelude(ctx, rng)
    _, b, _ = run(seed, rseed)
    ctx.note(f"program: {how if how in SOURCES else 'zoo'}")
    ctx.note("log events compared", len(a))
    ctx.sig("logs", digest(str(a)))
    ctx.check(list(map(tuple, a)) == list(map(tuple, b)), f"not-reproducible:{how}", first_difference(a, b))


@group(60, 3000, 40)
def seeds_matter(ctx, rng):
    """Other seeds give other draws, and nothing reseeds inside a program."""
    r = np.random.RandomState(rng.randint(2**31))
    nI, nO = int(r.randint(3, 9)), int(r.randint(3, 9))
    s1, s2 = (int(v) for v in r.randint(2**30, size=2) + np.array([0, 2**30]))
    layer = getattr(t, str(r.choice(["Linear", "Relu", "Maxout", "Mish", "Gelu", "Swish", "Dish", "HardSwish", "HardTanh"])))
    X = r.standard_normal((20, nI)).astype("f")

    def go(s):
        t.fix_random_seed(s)
        m = layer(nO, nI).initialize()
        d = t.Dropout(0.5).initialize()
        masks = [digest(d(np.ones((30, 40), "f"), True)[0]) for _ in range(3)]
        orders = [[int(i) for b in m.ops.minibatch(4, np.arange(60), shuffle=True) for i in b] for _ in range(3)]
        multi = [[int(i) for b in m.ops.multibatch(4, np.arange(60), np.arange(60), shuffle=True) for i in b[0]] for _ in range(3)]
        m2 = layer(nO, nI).initialize()
        return digest(weights(m)), digest(weights(m2)), masks, orders + multi, m.ops.get_dropout_mask((40, 40), 0.5)

    a, b = go(s1), go(s2)
    what = f"{layer.__name__}({nO}, {nI}) seeds {s1}, {s2}"
    ctx.describe(what)
    ctx.check(a[0] != b[0], "seed-ignored:init", what)
    ctx.check(a[0] != a[1], "reseeded:two layers initialised alike", what)
    ctx.check(len(set(a[2] + b[2])) == 6, "dropout masks repeat", f"{a[2]} {b[2]}")
    ctx.check(len({str(o) for o in a[3] + b[3]}) == 12, "shuffles repeat", str(a[3])[:300])
    ctx.check(all(sorted(o) == list(range(60)) for o in a[3]), "shuffle is not a permutation", str(a[3])[:300])
    ctx.check(not np.array_equal(a[4], b[4]), "seed-ignored:dropout mask", what)
    # initialize() with values set does not draw: fix_random_seed alone decides the state
    t.fix_random_seed()
    x = (random.random(), float(np.random.rand()), float(torch.rand(1)[0]))
    t.fix_random_seed(0)
    y = (random.random(), float(np.random.rand()), float(torch.rand(1)[0]))
    random.seed(0), np.random.seed(0), torch.manual_seed(0)
    z = (random.random(), float(np.random.rand()), float(torch.rand(1)[0]))
    big = int(rng.choice([1, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]))
    t.fix_random_seed(big)
    y1 = (random.random(), float(np.random.rand()), float(torch.rand(1)[0]))
    random.seed(big), np.random.seed(big), torch.manual_seed(big)
    z1 = (random.random(), float(np.random.rand()), float(torch.rand(1)[0]))
    ctx.check(x == y == z and y1 == z1, "fix_random_seed is not the seed of random, numpy and torch", f"{x} {y} {z}")
    ctx.sig("draws", digest([a[0], b[0]]))


def child(recipes, seed):
    rng = np.random.RandomState(seed)
    out = {}
    order = list(range(len(recipes)))
    rng.shuffle(order)
    for i in order:
        prelude(None, rng, depth=0)
        out[str(i)] = run(*recipes[i])[1]
    return out


@group(4, 120, 2)
def fresh_process(ctx, rng):
    """The same programs in a new process with another hash seed and history."""
    recipes = [(int(rng.randint(2**31)), int(rng.randint(2**31))) for _ in range(8)]
    ctx.describe(str(recipes))
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.randint(1, 2**31))))
    code = ("import sys, json; sys.path[:0] = [sys.argv[4], sys.argv[1]]; import vlib.core; from checks import p29; "
            "print('\\nLOGS' + json.dumps(p29.child(json.loads(sys.argv[2]), int(sys.argv[3]))))")
    p = subprocess.run([sys.executable, "-c", code, str(VERIF), json.dumps(recipes), str(int(rng.randint(2**31))), os.environ.get("VERIF_REPO", "/repo")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines = [ln for ln in p.stdout.splitlines() if ln.startswith("LOGS")]
    if not lines:
        raise RuntimeError(f"the new process gave no logs: {p.returncode} {p.stderr[-800:]}")
    there = json.loads(lines[0][4:])
    for i, rec in enumerate(recipes):
        how, here, _ = run(*rec)
        ctx.note("log events compared", len(here))
        ctx.note("programs compared across processes")
        there_i = [tuple(x) for x in there[str(i)]]
        ctx.check(list(map(tuple, here)) == there_i, f"not-reproducible-across-processes:{how}", f"recipe {rec}: {first_difference(here, there_i)}")
        ctx.sig("logs", digest(str(here)))


# -- initialisers --------------------------------------------------------------------
def g_scale(a):
    return lambda s: np.sqrt(a / (s[0] + s[1]))


def f_scale(a):
    return lambda s: np.sqrt(a / s[1])


INITS = {
    "glorot_uniform_init": ("u", g_scale(6.0)), "glorot_normal_init": ("n", g_scale(2.0)),
    "he_uniform_init": ("u", f_scale(6.0)), "he_normal_init": ("n", f_scale(2.0)),
    "lecun_uniform_init": ("u", f_scale(3.0)), "lecun_normal_init": ("n", f_scale(1.0)),
    "uniform_init": ("u", lambda s: 0.1), "zero_init": ("z", None),
}


def normal_cdf(x):
    from math import erf

    return np.array([0.5 * (1 + erf(v / 2**0.5)) for v in x])


def judge(ctx, values, family, lo, hi, mech, what):
    """Draws against U(lo, hi), or N(0, hi) for family "n"."""
    v = np.asarray(values, dtype="f8").ravel()
    n = v.size
    if family == "z":
        return ctx.check(not v.any(), f"{mech}:not zero", what)
    sd = (hi - lo) / 12**0.5 if family == "u" else hi
    mean = (hi + lo) / 2 if family == "u" else 0.0
    eps = 1e-6 * max(abs(lo), abs(hi))
    ok = True
    if family == "u":
        ok &= ctx.check(((v >= lo - eps) & (v <= hi + eps)).all(), f"{mech}:out of bounds", f"{what}: [{v.min() if n else 0}, {v.max() if n else 0}] not in [{lo}, {hi}]")
    else:
        ok &= ctx.check(n == 0 or np.abs(v).max() < 9 * sd, f"{mech}:implausible", f"{what}: |{np.abs(v).max() if n else 0}| sd {sd}")
    if n >= 30 and hi > lo:
        ok &= ctx.check(abs(v.mean() - mean) * n**0.5 < 7 * sd, f"{mech}:mean", f"{what}: mean {v.mean()} of {n}, expected {mean} sd {sd}")
    if n < 1500 or hi <= lo:
        return ok
    x = np.sort(v)
    F = np.clip((x - lo) / (hi - lo), 0, 1) if family == "u" else normal_cdf(x / sd)
    D = max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())
    ctx.note("distribution tests")
    ok &= ctx.check(D * n**0.5 < 3.4, f"{mech}:distribution", f"{what}: KS distance {D:.4f} of {n} draws; sd {v.std():.5g}, documented {sd:.5g}")
    # how many different values to expect, at the resolution of float32
    K = (hi - lo if family == "u" else 2 * sd) / float(np.spacing(np.float32(max(abs(lo), abs(hi)))))
    expected = K * -np.expm1(-n / K)
    ok &= ctx.check(len(np.unique(v)) > 0.95 * expected, f"{mech}:repeated values", f"{what}: {len(np.unique(v))} of {n}, expected {expected:.0f}")
    z = (v - mean) / sd
    for lag in (1, values.shape[-1]):
        if lag < n - 100:
            c = (z[:-lag] * z[lag:]).mean() * (n - lag) ** 0.5
            ok &= ctx.check(abs(c) < 7, f"{mech}:correlated", f"{what}: lag {lag}: {c}")
    return ok


def shape_for(rng, big, ndim1):
    nd = int(rng.choice([1, 2, 2, 3, 4] if ndim1 else [2, 2, 3, 4]))
    if big:
        s = [int(rng.randint(2, 9)) for _ in range(nd)]
        for i in rng.permutation(nd)[:2]:
            s[i] = int(rng.randint(40, 90))
        if nd == 1:
            s = [int(rng.randint(1600, 5000))]
        return tuple(s)
    s = [int(rng.choice([1, 1, 2, 3, 5, 16])) for _ in range(nd)]
    if rng.rand() < 0.1:
        i = int(rng.randint(nd))
        s[i if i != 1 or ndim1 else 0] = 0
    return tuple(s)


OPS = [lambda: t.get_current_ops(), lambda: t.NumpyOps(), lambda: t.get_ops("numpy"), lambda: t.get_ops("cpu")]


@group(160, 20000, 150)
def initialisers(ctx, rng):
    name = str(rng.choice(sorted(INITS)))
    fam, scale = INITS[name]
    fn = getattr(thinc.initializers, name)
    shape = shape_for(rng, rng.rand() < 0.4, name in ("zero_init", "uniform_init"))
    kw = {}
    if name == "uniform_init" and rng.rand() < 0.6:
        a, b = sorted(float(v) for v in np.round(rng.standard_normal(2) * rng.choice([0.1, 1, 10]), 3))
        kw = dict(lo=a, hi=b) if rng.rand() < 0.6 else (dict(hi=abs(b) + 0.1) if rng.rand() < 0.5 else dict(lo=-abs(a) - 0.1))
    if fam == "u":
        hi = kw.get("hi", 0.1) if name == "uniform_init" else float(scale(shape))
        lo = kw.get("lo", -0.1) if name == "uniform_init" else -hi
    else:
        lo, hi = 0.0, float(scale(shape)) if fam == "n" else 0.0
    what = f"{name}({shape}, {kw})"
    ctx.describe(what)
    ctx.sig("initialiser x shape", f"{name}{len(shape)}{'big' if np.prod(shape) > 1500 else ''}{sorted(kw)}")
    seed = int(rng.randint(2**31))
    ops = OPS[rng.randint(len(OPS))]()
    ways = {
        "direct": lambda: fn(ops, shape, **kw),
        "again": lambda: fn(t.NumpyOps(), shape, **kw),
        "configured": lambda: getattr(thinc.initializers, "configure_" + name)(**kw)(ops, shape),
        "registry": lambda: registry.get("initializers", name + ".v1")(**kw)(ops, shape),
        "config": lambda: registry.resolve({"i": {"@initializers": name + ".v1", **kw}})["i"](ops, shape),
        "partial": lambda: functools.partial(fn, **kw)(ops, shape),
    }
    outs = {}
    for w, f in ways.items():
        t.fix_random_seed(seed)
        outs[w] = f()
        state = digest([np.random.rand(2), random.random()])
        if w == "direct":
            after = state
        ctx.check(state == after, f"{name}:draws otherwise {w}", what)
    d = outs["direct"]
    for w, v in outs.items():
        ctx.check(isinstance(v, np.ndarray) and v.dtype == np.float32 and v.shape == shape, f"{name}:type", f"{what} {w}: {getattr(v, 'dtype', type(v))} {getattr(v, 'shape', None)}")
        ctx.check(digest(v) == digest(d), f"{name}:{w} differs", what)
        ctx.check(v.flags.writeable, f"{name}:read-only", what)
    vs = list(outs.values())
    ctx.check(not any(np.shares_memory(a, b) for i, a in enumerate(vs) for b in vs[:i]), f"{name}:shared memory", what)
    t.fix_random_seed(seed)
    nxt = [fn(ops, shape, **kw) for _ in range(2)]
    if d.size > 3 and fam != "z" and hi > lo:
        ctx.check(digest(nxt[0]) != digest(nxt[1]), f"{name}:consecutive draws are equal", what)
    judge(ctx, d, fam, lo, hi, name, what)
    keep = d.copy()
    for v in vs[1:]:
        v += 1.0
    ctx.check(np.array_equal(keep, d), f"{name}:aliased", what)
    t.fix_random_seed(seed)
    ctx.check(digest(fn(ops, shape, **kw)) == digest(keep), f"{name}:changed by writing into an earlier result", what)
    ctx.note("initialiser calls", 9)


@group(12, 600, 10)
def normal_init_documented(ctx, rng):
    """normal_init is documented as a normal distribution of scale sqrt(1 / fan_in)."""
    shape = (int(rng.randint(30, 80)), int(rng.randint(30, 80)))
    ctx.describe(f"normal_init{shape}")
    v = t.normal_init(t.NumpyOps(), shape)
    sd = float(np.sqrt(1 / shape[1]))
    ctx.check(v.shape == shape and v.dtype == np.float32, "normal_init:type", f"{v.shape} {v.dtype}")
    ctx.check(abs(v.std() / sd - 1) < 0.2, "normal-init-undocumented-distribution", f"normal_init{shape}: spread {v.std():.4g}, documented {sd:.4g}")
    fan = int(rng.randint(1, 50))
    try:
        w = t.normal_init(t.NumpyOps(), shape, fan_in=fan)
        ctx.check(abs(w.std() / np.sqrt(1 / fan) - 1) < 0.2, "normal_init:fan_in", f"fan_in={fan}: {w.std()}")
    except TypeError as e:
        ctx.check(False, "normal-init-undocumented-distribution", f"fan_in={fan}: {e}")


G, H, Z = "glorot_uniform_init", "he_normal_init", "zero_init"
DEFAULTS = {  # as documented in api-layers.md
    "Linear": G, "Maxout": G, "Mish": G, "Relu": G, "ReluK": G, "HardSigmoid": G, "HardTanh": G, "ClippedLinear": G,
    "Dish": H, "Swish": H, "Gelu": H, "HardSwish": H, "HardSwishMobilenet": H, "Sigmoid": Z, "Softmax": Z, "Softmax_v2": Z,
}


@group(60, 4000, 50)
def layer_defaults(ctx, rng):
    """Layers draw their parameters from the documented default, or the given,
    initialiser, whether dimensions are given or inferred."""
    name = str(rng.choice(sorted(DEFAULTS) + ["Embed", "HashEmbed", "LSTM"]))
    nO, nI = int(rng.randint(30, 70)), int(rng.randint(30, 70))
    given = {}
    pick = lambda: str(rng.choice(sorted(INITS)))
    seed = int(rng.randint(2**31))
    if name in ("Embed", "HashEmbed"):
        init = pick() if rng.rand() < 0.5 else None
        kw = dict(seed=3) if name == "HashEmbed" else {}
        if init:
            kw["initializer"] = getattr(thinc.initializers, init)
        t.fix_random_seed(seed)
        m = getattr(t, name)(nO, nI, **kw).initialize()
        E = m.get_param("E")
        what = f"{name}({nO}, {nI}, {init})"
        ctx.describe(what)
        init = init or "uniform_init"
        ctx.sig("layer x initialiser", name + init)
        return of(ctx, E, init, E.shape, f"{name}:E", what)
    if name == "LSTM":
        depth, bi = int(rng.choice([1, 2])), bool(rng.rand() < 0.4)
        nH = nO if not bi else nO + nO % 2
        iw, ib = (pick() if rng.rand() < 0.5 else None), (Z if rng.rand() < 0.5 else None)
        kw = {k: getattr(thinc.initializers, v) for k, v in (("init_W", iw), ("init_b", ib)) if v}
        t.fix_random_seed(seed)
        m = t.LSTM(nH, nI, depth=depth, bi=bi, **kw).initialize()
        flat = m.get_param("LSTM")
        what = f"LSTM({nH}, {nI}, depth={depth}, bi={bi}, {iw})"
        ctx.describe(what)
        ctx.sig("layer x initialiser", name + str(iw))
        ctx.check(not m.get_param("HC0").any(), "LSTM:initial state not zero", what)
        dirs = 2 if bi else 1
        h = nH // dirs
        at, wi = 0, nI
        for _ in range(depth):
            for _ in range(dirs):
                for w in (wi, h):
                    for _ in range(4):
                        of(ctx, flat[at : at + h * w].reshape(h, w), iw or G, (h, w), "LSTM:W", what)
                        at += h * w
                    ctx.check(not flat[at : at + 4 * h].any(), "LSTM:bias not zero", what)
                    at += 4 * h
            wi = h * dirs
        ctx.equal(at, flat.size, "LSTM:size", what)
        t.fix_random_seed(seed)
        lazy = t.LSTM(nH, depth=depth, bi=bi, **kw)
        lazy.initialize(X=t.with_padded(t.noop()).ops.list2padded([np.zeros((2, nI), "f")]))
        ctx.check(digest(lazy.get_param("LSTM")) == digest(flat), "lazy-differs:LSTM", what)
        return None
    iw = pick() if rng.rand() < 0.4 else None
    ib = str(rng.choice(["uniform_init", Z])) if rng.rand() < 0.4 else None
    given = {k: getattr(thinc.initializers, v) for k, v in (("init_W", iw), ("init_b", ib)) if v}
    layer = getattr(thinc.layers, name)
    what = f"{name}({nO}, {nI}, {iw}, {ib})"
    ctx.describe(what)
    ctx.sig("layer x initialiser", f"{name}{iw}{ib}")
    t.fix_random_seed(seed)
    m = layer(nO, nI, **given).initialize()
    W, b = m.get_param("W"), m.get_param("b")
    of(ctx, W, iw or DEFAULTS[name], W.shape, f"{name}:W", what)
    of(ctx, b, ib or Z, b.shape, f"{name}:b", what)
    # inferred dimensions
    t.fix_random_seed(seed)
    lazy = layer(**given)
    Y = np.zeros((2, nO), "f")
    lazy.initialize(X=np.zeros((3, nI), "f"), Y=Y[[0, 1, 1]])
    ctx.check(digest(weights(lazy)) == digest(weights(m)), f"lazy-differs:{name}", what)
    t.fix_random_seed(seed)
    again = layer(nO, **given)
    again.initialize(X=np.ones((3, nI), "f"))
    ctx.check(digest(weights(again)) == digest(weights(m)), f"lazy-differs:{name}", what + " nI from data")
    ctx.note("layers initialised", 3)


def of(ctx, v, init, shape, mech, what):
    fam, scale = INITS[init]
    hi = float(scale(shape)) if scale else 0.0
    return judge(ctx, v, fam, -hi if fam == "u" else 0.0, hi, f"{mech} {init}", what)


@group(60, 4000, 50)
def dropout_masks(ctx, rng):
    """Masks keep each cell with the given rate and rescale, independently."""
    rate = float(np.round(rng.choice([0.05, 0.2, 0.5, 0.8, 0.95, rng.uniform(0.02, 0.98)]), 3))
    shape = (int(rng.randint(40, 90)), int(rng.randint(40, 90)))
    ops = OPS[rng.randint(len(OPS))]()
    seed = int(rng.randint(2**31))
    t.fix_random_seed(seed)
    a, b = ops.get_dropout_mask(shape, rate), ops.get_dropout_mask(shape, rate)
    t.fix_random_seed(seed)
    c = ops.get_dropout_mask(shape, rate)
    what = f"get_dropout_mask({shape}, {rate})"
    ctx.describe(what)
    ctx.sig("rates", rate)
    ctx.check(digest(a) == digest(c), "mask not reproducible", what)
    ctx.check(digest(a) != digest(b), "masks repeat", what)
    n = a.size
    for m in (a, b):
        kept = (m != 0).mean()
        ctx.check(abs(kept - (1 - rate)) < 7 * np.sqrt(rate * (1 - rate) / n), "mask rate", f"{what}: kept {kept}")
        ctx.check(np.allclose(m[m != 0], 1 / (1 - rate), rtol=1e-5), "mask scale", what)
        for ax in (0, 1):
            k = (m != 0).mean(axis=ax)
            sd = np.sqrt(rate * (1 - rate) / shape[ax])
            ctx.check(np.abs(k - (1 - rate)).max() < 7.5 * sd + 3 / shape[ax], "mask uneven", f"{what} axis {ax}: {k.min()}..{k.max()}")
    z = (a != 0).astype("f8") - (1 - rate)
    w = (b != 0).astype("f8") - (1 - rate)
    v = rate * (1 - rate)
    ctx.check(abs((z * w).mean() / v) * n**0.5 < 9, "masks correlated", what)
    f = z.ravel()
    for lag in (1, shape[1]):
        ctx.check(abs((f[:-lag] * f[lag:]).mean() / v) * n**0.5 < 9, "mask cells correlated", f"{what} lag {lag}")
    ctx.note("mask cells", 2 * n)
