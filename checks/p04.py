"""P04: running a model never changes caller data or earlier results.

Monitor: histories of predictions, training passes, callbacks (any order,
repeated), and updates over several batches.  Every array that is live at a call
boundary - inputs, output gradients, outputs, input gradients, parameters,
pending gradients - is registered with a digest and re-checked after every
call; predictions and callbacks are replayed later and must repeat."""
import numpy as np

from vlib import compose, cont, zoo
from vlib.core import group

QUICK_X = 8


class Watch:
    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label
        self.live = []  # (what, container, digest)

    def add(self, what, x):
        self.live.append((what, x, cont.digest(x)))
        self.ctx.note("arrays_watched", len(cont.leaves(x)))

    def verify(self, after):
        for i, (what, x, d) in enumerate(self.live):
            now = cont.digest(x)
            self.ctx.check(now == d, f"{what}-changed:{self.label}", f"{what} #{i} changed after {after}")
            if now != d:
                self.live[i] = (what, x, now)


def params_state(m):
    P, G, A = {}, {}, {}
    for i, node in enumerate(m.walk()):
        for name in node.param_names:
            if node.has_param(name):
                P[(i, name)] = cont.digest(node.get_param(name))
            if node.has_grad(name):
                G[(i, name)] = cont.digest(node.get_grad(name))
        for j, shim in enumerate(node.shims):
            for name, p in shim._model.state_dict().items():
                P[(i, j, name)] = cont.digest(p.detach().numpy())
            for name, p in shim._model.named_parameters():
                G[(i, j, name)] = None if p.grad is None else cont.digest(p.grad.numpy())
        A[i] = {k: repr(v) for k, v in node.attrs.items() if isinstance(v, (int, float, str, bool, tuple, type(None)))}
        A[(i, "dims")] = {d: node.maybe_get_dim(d) for d in node.dim_names}
    return P, G, A


def same(ctx, a, b, mech, msg):
    la, lb = cont.leaves(a), cont.leaves(b)
    if not ctx.check(len(la) == len(lb), mech, f"{msg}: {len(la)} arrays, then {len(lb)}"):
        return
    for x, y in zip(la, lb):
        if x.dtype.kind == "f" and x.size:
            s = float(np.max(np.abs(x[np.isfinite(x)]))) if np.isfinite(x).any() else 1.0
            ctx.close(y, x, mech, msg, rtol=2e-5, atol=1e-6 * max(s, 1e-3))
        else:
            ctx.check(x.shape == y.shape and np.array_equal(x, y), mech, msg)


def history(ctx, rng, m, make, pre, label, replay=True, dx=True):
    w = Watch(ctx, label)
    batches = []
    for _ in range(int(rng.choice([2, 3]))):
        X = make()
        w.add("input", X)
        batches.append(X)
    first = {}
    cbs = []  # [bp, dY, dX or None]
    ops = []
    n_steps = int(rng.choice([6, 10, 16]))
    for _ in range(n_steps):
        r = rng.rand()
        P, G, A = params_state(m)
        if r < 0.35:
            i = int(rng.randint(len(batches)))
            Y = m.predict(batches[i])
            if i in first:
                same(ctx, first[i], Y, f"prediction-not-repeatable:{label}", f"batch {i} after {''.join(ops)}")
            else:
                first[i] = cont.copy(Y)
            w.add("output", Y)
            op = "p"
            P2, G2, A2 = params_state(m)
            ctx.check(G2 == G, f"predict-leaves-gradient:{label}", "gradients changed by predict")
            ctx.check(A2 == A, f"predict-changes-state:{label}", f"{[(k, A[k], A2[k]) for k in A if A[k] != A2.get(k)][:2]}")
            ctx.check(P2 == P, f"parameters-changed:{label}", "predict")
        elif r < 0.6 or not cbs:
            i = int(rng.randint(len(batches)))
            Y, bp = m(batches[i], True)
            w.add("output", Y)
            dY = cont.rand_like(rng, Y)
            if pre is not None:
                dY = pre(m, batches[i], Y, dY)
            w.add("output-gradient", dY)
            cbs.append([bp, dY, None])
            op = "f"
            P2, G2, A2 = params_state(m)
            ctx.check(G2 == G, f"forward-leaves-gradient:{label}", "gradients changed by a forward pass")
            ctx.check(A2 == A, f"forward-changes-state:{label}", f"{[(k, A[k], A2[k]) for k in A if A[k] != A2.get(k)][:2]}")
            ctx.check(P2 == P, f"parameters-changed:{label}", "forward")
        elif r < 0.93:
            j = int(rng.randint(len(cbs)))
            bp, dY, dX = cbs[j]
            if dX is not None and not replay:
                continue
            got = bp(dY)
            if dX is None:
                cbs[j][2] = cont.copy(got)
            else:
                same(ctx, dX, got, f"callback-not-repeatable:{label}", f"after {''.join(ops)}")
            w.add("input-gradient", got)
            op = "b"
            P2, G2, A2 = params_state(m)
            ctx.check(P2 == P, f"parameters-changed:{label}", "callback")
            ctx.check(A2 == A, f"callback-changes-state:{label}", "")
        else:
            def sgd(key, weights, gradient, **kw):
                new = weights - 1e-3 * gradient
                gradient *= 0
                return new.astype(weights.dtype), gradient

            def sgd_in_place(key, weights, gradient, **kw):
                weights -= 1e-3 * gradient
                gradient *= 0
                return weights, gradient

            m.finish_update(sgd if rng.rand() < 0.5 else sgd_in_place)
            first.clear()
            cbs.clear()
            op = "u"
        ops.append(op)
        ctx.note(f"op_{op}")
        w.verify("".join(ops))
    ctx.sig(label, "".join(ops), [cont.structure(x) for x in batches])


FACTORIES = {**zoo.LEAVES, **zoo.ENCODERS}


def make_group(name):
    def g(ctx, rng):
        case = FACTORIES[name](rng)
        case.initialize(rng)
        ctx.describe(case.name)
        sizes = [1, 2, 5] + ([0] if case.xkind == "rows" and rng.rand() < 0.1 and name in ("linear", "relu", "maxout", "softmax", "embed") else [])
        history(ctx, rng, case.model, lambda: case.x(rng, int(rng.choice(sizes))), case.pre, name, replay="torch" not in name)

    g.__name__ = name
    g.__module__ = __name__
    slow = name in ("lstm", "enc_lstm", "enc_bidirectional", "enc_torch")
    return group(4 if slow else 6, 800 if slow else 2500, 10)(g)


for _n in FACTORIES:
    make_group(_n)


@group(60, 12000, 60)
def composed(ctx, rng):
    prog = compose.program(rng)
    X = prog.batch(rng)
    m = prog.model
    m.initialize(X=X)
    prog.randomise(rng)
    ctx.describe(repr(prog))
    history(ctx, rng, m, lambda: prog.batch(rng), None, "composed")


@group(30, 6000, 30)
def with_dropout(ctx, rng):
    """Layers with real dropout: prediction repeatable, callbacks too."""
    import thinc.api as t

    nI = int(rng.choice([2, 4]))
    k = int(rng.randint(10))
    rate = float(rng.choice([0.1, 0.5, 0.9]))
    kind = "rows"
    if k < 6:
        layer = ["Relu", "Mish", "Maxout", "Gelu", "Swish", "HardTanh", "HardSwish", "HardSwishMobilenet", "Dish", "ClippedLinear", "HardSigmoid", "ReluK"][2 * k + int(rng.randint(2))]
        m = getattr(t, layer)(3, nI, dropout=rate, normalize=bool(rng.rand() < 0.3))
    elif k == 6:
        kind = str(rng.choice(["rows", "list", "ragged", "padded"]))
        m = t.Dropout(rate)
    elif k >= 8:
        column = int(rng.randint(3)) if rng.rand() < 0.4 else None
        kind = "ids"
        m = (t.Embed if k == 8 else t.HashEmbed)(3, 7, column=column, dropout=rate)
    else:
        kind = "padded"
        m = t.with_padded(t.LSTM(4, nI, depth=int(rng.choice([1, 2])), bi=bool(rng.rand() < 0.5), dropout=rate))
    ctx.describe(m.name, kind=kind, rate=rate)
    make = lambda: compose.make_batch(rng, kind, nI, int(rng.choice([1, 2, 4])), 1)
    if kind == "ids":
        make = lambda: rng.randint(0, 7, (int(rng.choice([1, 2, 5])),) + (() if column is None else (3,))).astype("i" if k == 8 else "uint64")
    m.initialize(X=make())
    for _, node, name in zoo.params(m):
        node.set_param(name, (rng.standard_normal(node.get_param(name).shape) * 0.5).astype("f"))
    history(ctx, rng, m, make, None, f"dropout-{m.name if k != 7 else 'lstm'}")


@group(20, 5000, 20)
def text_and_ids(ctx, rng):
    """Layers over strings, id maps and lists of lists."""
    import thinc.api as t

    k = int(rng.randint(5))
    if k == 0:
        vocab = ["a", "bb", "ccc", "", "é"]
        m = t.chain(t.strings2arrays(), t.with_array(t.HashEmbed(3, 11, column=0)))
        make = lambda: [[str(rng.choice(vocab)) for _ in range(int(rng.randint(1, 4)))] for _ in range(int(rng.randint(1, 4)))]
        m.initialize()
    elif k == 1:
        table = {int(i): int(rng.randint(5)) for i in range(6)}
        two_d = bool(rng.rand() < 0.5)
        m = t.chain(t.remap_ids_v2(mapping_table=table, default=0, column=0 if two_d else None), t.Embed(2, 5))
        make = lambda: rng.randint(0, 9, size=(int(rng.randint(1, 5)),) + ((2,) if two_d else ())).astype("uint64")
        m.initialize()
    elif k == 2:
        table = {int(i): int(rng.randint(5)) for i in range(6)}
        m = t.chain(t.premap_ids(table, default=1), t.Embed(2, 5))
        make = lambda: rng.randint(0, 9, size=int(rng.randint(1, 6))).astype("uint64")
        m.initialize()
    elif k == 3:
        m = t.chain(t.list2ragged(), t.HashEmbed(2, 7)) if False else t.with_array(t.HashEmbed(2, 7, seed=3))
        make = lambda: [rng.randint(0, 50, size=int(rng.randint(1, 5))).astype("uint64") for _ in range(int(rng.randint(1, 4)))]
        m.initialize()
    else:
        import thinc.layers.sparselinear as sl

        m = sl.SparseLinear_v2(2, length=16)
        m.initialize()

        def make():
            ls = rng.randint(0, 4, size=int(rng.randint(1, 4))).astype("i")
            n = int(ls.sum())
            return (rng.randint(0, 99, size=n).astype("uint64"), rng.standard_normal(n).astype("f"), ls)

    ctx.describe(m.name)
    for _, node, name in zoo.params(m):
        node.set_param(name, rng.standard_normal(node.get_param(name).shape).astype("f"))
    history(ctx, rng, m, make, None, f"ids{k}")


def _user_layer(rng, kind, rows, w):
    """Layers as users write them: gradients are handed to inc_grad as they
    are, without copying."""
    from thinc.api import Model

    def bias(model, X, is_train):
        def backprop(dY):
            model.inc_grad("b", dY)
            return dY

        return X + model.get_param("b"), backprop

    def scale(model, X, is_train):
        s = model.get_param("s")

        def backprop(dY):
            dS = dY * X
            model.inc_grad("s", dS)
            model.inc_grad("t", dS)
            return dY * (s + model.get_param("t"))

        return X * (s + model.get_param("t")), backprop

    def constant(model, X, is_train):
        def backprop(dY):
            model.inc_grad("c", dY.T)
            return X * 0

        return np.ascontiguousarray(model.get_param("c").T) + X * 0, backprop

    f = {"bias": bias, "scale": scale, "constant": constant}[kind]
    r = lambda *s: rng.standard_normal(s).astype("f")
    params = {"bias": {"b": r(rows, w)}, "scale": {"s": r(rows, w), "t": r(rows, w)}, "constant": {"c": r(w, rows)}}[kind]
    return Model(kind, f, params=params)


@group(20, 5000, 20)
def user_layers(ctx, rng):
    """Layers that hand the output gradient itself to inc_grad, alone and
    composed: whatever accumulates later, the arrays stay as they were."""
    import thinc.api as t

    rows, w = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 4]))
    kinds = [str(k) for k in rng.choice(["bias", "scale", "constant"], size=int(rng.choice([1, 1, 2, 3])))]
    ls = [_user_layer(rng, k, rows, w) for k in kinds]
    if len(ls) > 1 and rng.rand() < 0.3:
        ls.append(ls[0])  # the same layer used twice
    how = str(rng.choice(["chain", "add", "concatenate"])) if len(ls) > 1 else "alone"
    m = ls[0] if how == "alone" else getattr(t, how)(*ls)
    m.initialize()
    ctx.describe(how, kinds=kinds, rows=rows, w=w)
    make = lambda: rng.standard_normal((rows, w)).astype("f")
    history(ctx, rng, m, make, None, f"user-{how}")
