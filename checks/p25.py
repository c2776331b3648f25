"""P25: items of a batch do not influence each other.

Monitor: a batch is run joined, in parts, alone item by item, permuted, with
extra items appended, and (padded) with extra padding; every run's per-item
outputs, per-item input gradients and summed parameter gradients are recorded
and an offline comparator checks that they agree."""
import numpy as np

from thinc.types import Padded
from vlib import cont, zoo
from vlib.core import group

QUICK_X = 12
FACTORIES = {k: f for k, f in zoo.LEAVES.items() if k not in ("list2padded", "list2array", "window_floats")}
FACTORIES.update(zoo.ENCODERS)


def run(case, items, dys):
    m = case.model
    X = zoo.join(items, case.xkind)
    Yp = m.predict(X)
    zoo.clear_grads(m)
    Yt, bp = m(X, True)
    if dys is None:
        return split_y(case, Yp), None, None, None
    dY = join_y(case, dys, Yt)
    d = dY if case.pre is None else case.pre(m, X, Yt, dY)
    dX = bp(d)
    return split_y(case, Yp), split_y(case, Yt), zoo.split(dX, case.xkind) if case.dx else None, grads(m)


def grads(m):
    G = zoo.grads(m)
    for i, node in enumerate(m.walk()):
        for j, shim in enumerate(node.shims):
            for name, p in shim._model.named_parameters():
                if p.grad is not None:
                    G[(i, "torch", j, name)] = p.grad.detach().numpy().copy()
    return G


def clear(m):
    zoo.clear_grads(m)
    for node in m.walk():
        for shim in node.shims:
            shim._model.zero_grad()


def split_y(case, Y):
    if case.ykind == "rows":
        return [np.asarray(Y[i : i + 1]) for i in range(len(Y))]
    return zoo.split(Y, case.ykind)


def join_y(case, ys, like):
    if case.ykind == "rows":
        return np.concatenate(ys)
    if case.ykind == "padded":
        # in the layout of the batch that came out
        nS, nB = like.data.shape[:2]
        data = np.zeros_like(like.data)
        for j, (i, n) in enumerate(zip(like.indices, like.lengths)):
            data[: int(n), j] = ys[int(i)]
        return Padded(data, like.size_at_t, like.lengths, like.indices)
    return zoo.join(ys, case.ykind)


def same(ctx, case, a, b, mech, what, scale):
    name = case.name.split(":")[0]
    for x, y in zip(a, b):
        for p, q in zip(cont.leaves(x), cont.leaves(y)):
            if p.dtype.kind == "f":
                ctx.close(p, q, f"{mech}:{name}", f"{case.name} {what}", rtol=3e-4, atol=1e-5 * scale)
            else:
                ctx.check(p.shape == q.shape and np.array_equal(p, q), f"{mech}:{name}", f"{case.name} {what}")


def make_group(name):
    def g(ctx, rng):
        case = FACTORIES[name](rng)
        if not case.rowwise:
            ctx.skip("not batch separable")
        case.initialize(rng)
        m = case.model
        n = int(rng.choice([2, 3, 4, 6]))
        X = case.x(rng, n)
        items = zoo.split(X, case.xkind)
        if len(items) < 2:
            ctx.skip("one item")
        if hasattr(case, "prenorm") or case.name == "LayerNorm":
            pre = X if case.name == "LayerNorm" else case.prenorm(case.P(), X.astype("f8"))
            if pre.astype("f8").var(axis=1).min() < 1e-2:
                ctx.skip("ill conditioned normalisation")
        ctx.describe(case.name, n=len(items))
        ctx.sig(case.name, cont.structure(X))
        clear(m)
        Y0 = split_y(case, m.predict(X))
        ctx.check(len(Y0) == len(items), f"item-count:{case.name.split(':')[0]}", f"{case.name}: {len(Y0)} outputs for {len(items)} items")
        dys = [cont.rand_like(rng, y) for y in Y0]
        clear(m)
        Yp, Yt, dXs, G = run(case, items, dys)
        scale = max([1.0] + [float(np.max(np.abs(a))) for z in (X, Yp, dys) for a in cont.data(z) if a.size]) ** 2
        if not case.name.startswith("Softmax_v2"):  # may leave predictions unnormalised
            same(ctx, case, Yp, Yt, "prediction-vs-training", "", scale)
        # alone
        Gsum = {}
        for i in range(len(items)):
            clear(m)
            yp, yt, dx, gi = run(case, [items[i]], [dys[i]])
            same(ctx, case, yp, [Yp[i]], "alone-output", f"item {i} of {len(items)}", scale)
            same(ctx, case, yt, [Yt[i]], "alone-training-output", f"item {i}", scale)
            if case.dx:
                same(ctx, case, dx, [dXs[i]], "alone-gradient", f"item {i}", scale)
            for k, v in gi.items():
                Gsum[k] = Gsum.get(k, 0) + v.astype("f8")
        gs = max([1.0] + [float(np.max(np.abs(v))) for v in Gsum.values() if v.size])
        for k in G:
            ctx.close(G[k], Gsum[k], f"gradient-sum:{case.name.split(':')[0]}", f"{case.name} {k}", rtol=1e-3, atol=2e-5 * max(gs, scale))
        # permuted, with extra items
        extra = zoo.split(case.x(rng, 2), case.xkind)
        allitems = items + (extra if rng.rand() < 0.6 else [])
        alldys = dys + [None] * (len(allitems) - len(items))
        if len(allitems) > len(items):
            ye = split_y(case, m.predict(zoo.join(extra, case.xkind)))
            if len(ye) != len(extra):
                return ctx.check(False, f"item-count:{case.name.split(':')[0]}", f"{case.name}: {len(ye)} for {len(extra)}")
            alldys = dys + [cont.rand_like(rng, y) for y in ye]
        order = rng.permutation(len(allitems))
        clear(m)
        yp, yt, dx, _ = run(case, [allitems[i] for i in order], [alldys[i] for i in order])
        pos = {int(i): j for j, i in enumerate(order)}
        idx = [pos[i] for i in range(len(items))]
        same(ctx, case, [yp[j] for j in idx], Yp, "permuted-output", f"order {order.tolist()}", scale)
        same(ctx, case, [yt[j] for j in idx], Yt, "permuted-training-output", f"order {order.tolist()}", scale)
        if case.dx:
            same(ctx, case, [dx[j] for j in idx], dXs, "permuted-gradient", f"order {order.tolist()}", scale)
        # more padding
        if case.xkind == "padded" and case.ykind == "padded":
            Xb = zoo.join(items, "padded")
            k = int(rng.choice([1, 3]))
            garbage = rng.choice([0.0, 1.0, -5.0])
            data = np.concatenate([Xb.data, np.zeros((k,) + Xb.data.shape[1:], "f")])
            mask = np.arange(data.shape[0])[:, None] < Xb.lengths[None, :]
            data[~mask] = garbage
            Xg = Padded(data, np.concatenate([Xb.size_at_t, np.zeros(k, "i")]).astype("i"), Xb.lengths, Xb.indices)
            yp = m.predict(Xg)
            same(ctx, case, zoo.split(yp, "padded"), Yp, "padding-influences-output", f"padding {k} rows of {garbage}", scale)
            Y, bp = m(Xg, True)
            same(ctx, case, zoo.split(Y, "padded"), Yt, "padding-influences-training", f"padding {k} rows of {garbage}", scale)

    g.__name__ = name
    g.__module__ = __name__
    slow = name in ("lstm", "enc_lstm", "enc_bidirectional", "enc_torch")
    return group(4 if slow else 10, 600 if slow else 3000, 10)(g)


for _n in FACTORIES:
    make_group(_n)


@group(3, 300, 5)
def torch_bidirectional(ctx, rng):
    """Wrapped bidirectional torch RNNs on batches of different lengths."""
    from thinc.api import PyTorchLSTM

    nI = int(rng.choice([1, 3]))
    m = PyTorchLSTM(2, nI, bi=True)
    m.initialize()
    lens = [3, int(rng.randint(1, 3))] if rng.rand() < 0.5 else [4, 4]
    X = [zoo.values(rng, (k, nI), "n") for k in lens]
    Y = m.predict(X)
    ctx.describe(lens=lens)
    ctx.sig(nI, lens)
    for i, x in enumerate(X):
        alone = m.predict([x])[0]
        mech = "torch-bidirectional" if len(set(lens)) == 1 else "torch-bidirectional-unequal-lengths"
        ctx.close(Y[i], alone, mech, f"PyTorchLSTM(bi=True) item {i} of lengths {lens}", rtol=1e-4, atol=1e-5)
