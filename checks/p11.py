"""Parameter averages: optimizers with averaging on are driven over random
update histories (direct and through models, native and wrapped PyTorch); a
shadow moving average per key is computed from the values actually returned;
after every update the stored average must equal it and share no memory with
the live parameter.  use_params(averages) is compared with a model that
really holds these values.  Distinct = optimizer kind, keys, history."""
import numpy as np

from thinc.api import (
    Adam, Linear, Maxout, PyTorchWrapper, RAdam, Relu, SGD, chain, clone, Softmax,
    LayerNorm, Embed, HashEmbed, with_array, list2ragged, reduce_mean, tuplify,
)

from vlib.core import group

QUICK_X = 12
ASSUMPTIONS = ["decay (1+t)/(10+t) capped at 0.9999, starting from zeros, t = number of updates of that key (api-backends.md update_averages)"]


def mkopt(rng, avg=True):
    k = rng.randint(3)
    lr = float(rng.choice([0.01, 0.1, 0.5]))
    kw = dict(L2=float(rng.choice([0, 0.1])), L2_is_weight_decay=bool(rng.randint(2)), grad_clip=float(rng.choice([0, 1.0])))
    if avg is not True or rng.randint(2):
        kw["use_averages"] = avg
    return ["sgd", "adam", "radam"][k], [SGD, Adam, RAdam][k](lr, **kw)


def ema(old, w, t):
    d = min((1 + t) / (10 + t), 0.9999)
    return d * old + (1 - d) * w.astype("f8")


SHAPES = [(1,), (4,), (2, 3), (2, 1, 3), (0,)]


@group(200, 4000, min_obs=3000)
def histories(ctx, rng):
    kind, opt = mkopt(rng)
    keys = [(1, "W"), (1, "b"), (2, "W"), (11, "W")][: 1 + rng.randint(4)]
    w = {k: rng.standard_normal(SHAPES[rng.randint(len(SHAPES))]).astype("f") for k in keys}
    shadow, t = {}, {}
    ctx.describe(kind, keys=keys)
    n = int(rng.choice([2, 5, 20, 60]))
    for it in range(n):
        for k in keys:
            if rng.randint(3) == 0:
                continue
            if rng.randint(8) == 0:
                w[k] = (w[k] * 3).astype("f")  # parameter assigned between updates
            w[k], _ = opt(k, w[k], rng.standard_normal(w[k].shape).astype("f"), lr_scale=float(rng.choice([1, 1, 0.1])))
            if w[k].size == 0:
                ctx.check(k not in opt.averages or opt.averages[k].shape == w[k].shape, "empty-parameter")
                continue
            t[k] = t.get(k, 0) + 1
            shadow[k] = ema(shadow.get(k, np.zeros(w[k].shape)), w[k], t[k])
            ctx.note("averaged_updates")
        ctx.check(set(x for x in opt.averages if opt.averages[x].size) == set(shadow), "keys", f"{list(opt.averages)} vs {list(shadow)}")
        for k in shadow:
            a = opt.averages[k]
            if not ctx.close(a, shadow[k], "average-value", f"{kind} {k} after {t[k]} updates", rtol=1e-4, atol=1e-5):
                return
            ctx.check(not any(np.shares_memory(a, w[j]) for j in keys), "average-aliases-parameter", f"{k}")
        if rng.randint(2):
            opt.step_schedules()
    ctx.sig(kind, tuple(keys), n, tuple(sorted(t.items())))


@group(9, 60, min_obs=9)
def long_history(ctx, rng):
    """Past the point where the decay reaches its cap (t > 89990)."""
    opt = SGD(0.01, grad_clip=0.0)
    w = np.zeros(1, dtype="f")
    sh = np.zeros(1)
    key = (0, "W")
    start = int(rng.choice([89900, 10**6, 10**7]))
    opt.nr_update[key] = start
    opt.averages[key] = np.zeros(1, "f")
    w[:] = 1
    for t in range(start + 1, start + 400):
        w, _ = opt(key, w, np.array([np.sin(t)], dtype="f"))
        sh = ema(sh, w, t)
    ctx.close(opt.averages[key], sh, "average-value-capped", rtol=1e-3, atol=1e-6)
    ctx.describe("long")
    ctx.sig(rng.randint(10**6))


@group(30, 300, min_obs=100)
def off(ctx, rng):
    kind, opt = mkopt(rng, avg=False)
    model = Linear(2, 3).initialize()
    for _ in range(5):
        Y, bp = model.begin_update(rng.standard_normal((2, 3)).astype("f"))
        bp(np.ones_like(Y))
        model.finish_update(opt)
        ctx.check(not opt.averages, "kept-when-off", f"{opt.averages}")
    ctx.describe(kind)
    ctx.sig(kind)


def torch_model(nI, nO):
    import torch

    return PyTorchWrapper(torch.nn.Sequential(torch.nn.Linear(nI, nO), torch.nn.Tanh(), torch.nn.Linear(nO, nO)))


def build(rng):
    """-> model, sample input function"""
    nI, nH, nO = (int(x) for x in 1 + rng.randint(5, size=3))
    k = rng.randint(6)
    fl = lambda: rng.standard_normal((1 + rng.randint(4), nI)).astype("f")
    if k == 0:
        return "linear", Linear(nO, nI), fl
    if k == 1:
        return "mlp", chain(Maxout(nH, nI, nP=2), LayerNorm(nH), Relu(nO, nH)), fl
    if k == 2:
        shared = Linear(nI, nI)
        return "shared", chain(shared, Relu(nI, nI), shared), fl
    if k == 3:
        return "torch", chain(Linear(nH, nI), torch_model(nH, nO)), fl
    if k == 4:
        ids = lambda: rng.randint(5, size=(1 + rng.randint(5),)).astype("i")
        return "embed", chain(Embed(nI, 5), Linear(nO, nI)), ids
    return "clone", clone(Linear(nI, nI), 3), fl


@group(120, 2500, min_obs=1500)
def models(ctx, rng):
    name, model, inp = build(rng)
    X = inp()
    model.initialize(X=X)
    kind, opt = mkopt(rng)
    twin = model.copy()  # will really hold the averages
    shadow, t = {}, {}
    steps = 1 + rng.randint(8)
    ctx.describe(name, optimizer=kind, steps=steps)

    def live():
        out = {}
        for node in model.walk():
            for p in node.param_names:
                if node.has_param(p):
                    out[(node.id, p)] = node.get_param(p)
            for s in node.shims:
                for n, p in s._model.named_parameters():
                    out[(s.id, n)] = p.detach().numpy()
        return out

    for it in range(steps):
        B = inp()
        Y, bp = model.begin_update(B)
        bp((rng.standard_normal(Y.shape)).astype("f"))
        model.finish_update(opt)
        opt.step_schedules()
        L = live()
        if not all(np.isfinite(v).all() and np.abs(v).max(initial=0) < 1e15 for v in L.values()):
            ctx.note("diverged")  # the random gradients blew the weights up
            return
        for k, v in L.items():
            t[k] = t.get(k, 0) + 1
            shadow[k] = ema(shadow.get(k, np.zeros(v.shape)), v, t[k])
        ctx.check(set(opt.averages) == set(shadow), "model-keys", f"{sorted(opt.averages)} vs {sorted(shadow)}")
        for k in shadow:
            if not ctx.close(opt.averages[k], shadow[k], "model-average-value", f"{name} {k} step {it}", rtol=1e-4, atol=1e-5):
                return
            ctx.check(not np.shares_memory(opt.averages[k], L[k]), "model-average-aliases", f"{name} {k}")
    # the twin really gets the values
    import torch

    for a, b in zip(model.walk(), twin.walk()):
        for p in a.param_names:
            b.set_param(p, opt.averages[(a.id, p)].copy())
        for sa, sb in zip(a.shims, b.shims):
            with torch.no_grad():
                for n, p in sb._model.named_parameters():
                    p.copy_(torch.from_numpy(opt.averages[(sa.id, n)].copy()))
    before = {k: v.copy() for k, v in live().items()}
    avg0 = {k: v.copy() for k, v in opt.averages.items()}
    y_live = model.predict(X)
    y_live = y_live.copy()
    for rep in range(2):
        with model.use_params(opt.averages):
            ya = model.predict(X)
            B = inp()
            yb = model.predict(B)
        ctx.close(ya, twin.predict(X), "averaged-prediction", f"{name}", rtol=1e-5, atol=1e-6)
        ctx.close(yb, twin.predict(B), "averaged-prediction", f"{name}", rtol=1e-5, atol=1e-6)
        after = live()
        ctx.check(all(np.array_equal(before[k], after[k]) for k in before), "not-restored", name)
        ctx.check(np.array_equal(model.predict(X), y_live), "prediction-not-restored", name)
        ctx.check(all(np.array_equal(avg0[k], opt.averages[k]) for k in avg0), "averages-changed-by-use", name)
    # training after using averages continues the same history
    Y, bp = model.begin_update(X)
    bp(np.ones_like(Y))
    model.finish_update(opt)
    for k, v in live().items():
        t[k] += 1
        shadow[k] = ema(shadow[k], v, t[k])
        ctx.close(opt.averages[k], shadow[k], "average-after-use", f"{name} {k}", rtol=1e-4, atol=1e-5)
    ctx.sig(name, kind, steps)
