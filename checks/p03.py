"""P03: gradients accumulate exactly and each update consumes them exactly once.

Monitor: histories of forward passes, callbacks (in any order, repeated, never
called), gradient assignments and updates on several models (sharing nodes,
wrapping torch modules).  A ledger keeps what every parameter's gradient must be
(the sum of the contributions, each measured alone on a pristine copy); a
recording optimizer logs every call (key, weights, gradient); the log of each
update is compared with the ledger: every parameter with a gradient exactly
once, nothing else, and afterwards value = what the optimizer returned and
gradient = 0."""
import numpy as np

from vlib import compose, cont, snap, zoo
from vlib.core import group

QUICK_X = 20


class Recorder:
    """Optimizer stand-in: logs its calls, returns a changed copy or updates in
    place, zeroes the gradient in place as thinc's Optimizer does."""

    def __init__(self, inner=None, inplace=True):
        self.log = []
        self.inner = inner
        self.inplace = inplace

    def __call__(self, key, weights, gradient, *, lr_scale=1.0):
        w0, g0 = np.array(weights), np.array(gradient)
        if self.inner is not None:
            w, g = self.inner(key, weights, gradient, lr_scale=lr_scale)
        elif self.inplace:
            weights -= 0.1 * gradient
            gradient *= 0
            w, g = weights, gradient
        else:
            w = (weights - 0.1 * gradient).astype(weights.dtype)
            gradient *= 0
            g = gradient
        self.log.append((key, w0, g0, np.array(w)))
        return w, g


class Unit:
    """A model with a ledger."""

    def __init__(self, model, make, pre=None, xkind="rows"):
        self.model, self.make, self.pre = model, make, pre
        self.ledger = {}  # (node index, name) -> float64 sum
        self.pending = []  # [callback, X, dY, contribution or None]

    def nodes(self):
        return list(self.model.walk())

    def reset(self):
        self.ledger = {}


def contribution(unit, X, dY):
    """Gradients of one pass alone, on a pristine copy with equal parameters."""
    c = unit.model.copy()
    snap.clear_grads(c)
    Y, bp = c(X, True)
    bp(dY)
    return collect(c)


def collect(model):
    out = {}
    for i, node in enumerate(model.walk()):
        for name in node.param_names:
            if node.has_grad(name):
                out[(i, name)] = np.asarray(node.get_grad(name), dtype="f8").copy()
        for j, shim in enumerate(node.shims):
            for name, p in shim._model.named_parameters():
                if p.grad is not None:
                    out[(i, j, name)] = p.grad.detach().numpy().astype("f8")
    return out


def state(model):
    """All parameters and gradients, as digests."""
    out = {}
    for node in model.walk():
        for name in node.param_names:
            if node.has_param(name):
                out[(node.id, name)] = cont.digest(node.get_param(name))
            if node.has_grad(name):
                out[(node.id, name, "grad")] = cont.digest(node.get_grad(name))
        for shim in node.shims:
            for name, p in shim._model.named_parameters():
                out[(shim.id, name)] = cont.digest(p.detach().numpy())
                out[(shim.id, name, "grad")] = None if p.grad is None else cont.digest(p.grad.numpy())
    return out


def torch_unit(rng):
    import torch

    from thinc.api import Linear, PyTorchWrapper, Relu, chain

    nI = int(rng.choice([1, 3]))
    names = rng.rand() < 0.4

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            if names:  # parameter names that native layers use too
                self.W = torch.nn.Parameter(torch.randn(4, nI))
                self.b = torch.nn.Parameter(torch.randn(4))
            else:
                self.lin = torch.nn.Linear(nI, 4)
            self.unused = torch.nn.Parameter(torch.randn(2))

        def forward(self, x):
            return torch.tanh(x @ self.W.T + self.b) if names else torch.tanh(self.lin(x))

    if rng.rand() < 0.25:
        parts = [side_by_side([Net() for _ in range(int(rng.choice([2, 3])))]), Linear(2, 4)]
    else:
        parts = [PyTorchWrapper(Net()), Linear(2, 4)]
    if rng.rand() < 0.5:
        parts.insert(0, Relu(nI, nI))
    m = chain(*parts)
    m.initialize(X=np.zeros((2, nI), "f"))
    for _, node, name in zoo.params(m):
        node.set_param(name, (rng.standard_normal(node.get_param(name).shape) * 0.5).astype("f"))
    return Unit(m, lambda: rng.standard_normal((int(rng.randint(1, 5)), nI)).astype("f"))


def side_by_side(modules):
    """One node that holds several wrapped modules and adds up their outputs."""
    import torch

    from thinc.api import ArgsKwargs, Model, PyTorchShim, torch2xp, xp2torch

    def forward(model, X, is_train):
        Y, calls = 0, []
        for shim in model.shims:
            Yt, bp = shim(ArgsKwargs(args=(xp2torch(X, requires_grad=is_train),), kwargs={}), is_train)
            Y = Y + torch2xp(Yt)
            calls.append((Yt, bp))

        def backprop(dY):
            dX = 0
            for Yt, bp in calls:
                dX = dX + torch2xp(bp(ArgsKwargs(args=((Yt,),), kwargs={"grad_tensors": xp2torch(dY)})).args[0])
            return dX

        return Y, backprop

    return Model("side_by_side", forward, shims=[PyTorchShim(m) for m in modules])


def native_unit(rng):
    prog = compose.program(rng, None, share=0.35)
    m = prog.model
    m.initialize(X=prog.batch(rng))
    prog.randomise(rng)
    u = Unit(m, lambda: prog.batch(rng))
    u.prog = prog
    return u


def layer_unit(rng):
    names = [n for n in zoo.LEAVES if n not in ("softmax_v2",)]
    while True:
        case = zoo.LEAVES[str(rng.choice(names))](rng)
        case.initialize(rng)
        if zoo.params(case.model):
            break
    u = Unit(case.model, lambda: case.x(rng, int(rng.choice([1, 2, 4]))))
    u.case = case
    return u


def expected_keys(unit):
    """Keys of the parameters that have a gradient, over distinct nodes."""
    keys = {}
    for node in unit.nodes():
        for name in node.param_names:
            if node.has_grad(name):
                keys[(node.id, name)] = ("native", node, name)
        for shim in node.shims:
            for name, p in shim._model.named_parameters():
                if p.grad is not None:
                    keys[(shim.id, name)] = ("torch", shim, name)
    return keys


def value_of(entry):
    kind, owner, name = entry
    if kind == "native":
        return np.asarray(owner.get_param(name)), np.asarray(owner.get_grad(name))
    p = dict(owner._model.named_parameters())[name]
    return p.detach().numpy(), p.grad.numpy()


def compare(ctx, unit, label, scale):
    got = collect(unit.model)
    for k, g in got.items():
        want = unit.ledger.get(k)
        if want is None:
            ctx.check(not np.any(g), f"gradient-unexplained:{label}", f"{k}: gradient without any backward pass")
            continue
        s = max(1.0, float(np.abs(want).max()) if want.size else 1.0, scale)
        ctx.close(g, want, f"gradient-sum:{label}", f"{k}", rtol=1e-3, atol=3e-5 * s)
    for k, want in unit.ledger.items():
        if k not in got:
            ctx.check(not np.any(want), f"gradient-lost:{label}", f"{k}: contributions but no gradient")


def optimizer(rng):
    from thinc.api import Adam, Optimizer, RAdam, SGD

    k = rng.randint(6)
    if k == 0:
        return Recorder(inplace=True)
    if k == 1:
        return Recorder(inplace=False)
    clip = float(rng.choice([0.0, 1.0]))
    L2 = float(rng.choice([0.0, 1e-2]))
    if k == 2:
        return Recorder(SGD(0.01, L2=L2, grad_clip=clip))
    if k == 3:
        return Recorder(Adam(0.01, L2=L2, grad_clip=clip, L2_is_weight_decay=bool(rng.rand() < 0.5)))
    if k == 4:
        return Recorder(RAdam(0.01, grad_clip=clip))
    return Recorder(Optimizer(0.01, use_averages=False, L2=L2, L2_is_weight_decay=False))


def update(ctx, unit, opt, label):
    keys = expected_keys(unit)
    before = {k: tuple(a.copy() for a in value_of(e)) for k, e in keys.items()}
    untouched = {k: v for k, v in state(unit.model).items() if k[:2] not in keys}
    opt.log.clear()
    unit.model.finish_update(opt)
    seen = [k for k, *_ in opt.log]
    ctx.note("optimizer_calls", len(seen))
    ctx.check(len(seen) == len(set(seen)), f"updated-twice:{label}", f"{[k for k in seen if seen.count(k) > 1][:4]}")
    ctx.check(set(seen) == set(keys), f"updated-set:{label}", f"missing {set(keys) - set(seen)} extra {set(seen) - set(keys)}")
    for key, w, g, new in opt.log:
        if key not in keys:
            continue
        w0, g0 = before[key]
        ctx.equal(w, w0, f"update-weights:{label}", f"{key}: weights handed to the optimizer")
        ctx.equal(g, g0, f"update-gradient:{label}", f"{key}: gradient handed to the optimizer")
        w1, g1 = value_of(keys[key])
        ctx.equal(w1, new, f"update-result:{label}", f"{key}: value returned by the optimizer was not stored")
        ctx.check(not np.any(g1), f"gradient-not-reset:{label}", f"{key}: gradient after the update {g1.ravel()[:4]}")
    after = state(unit.model)
    ctx.check(all(after.get(k) == v for k, v in untouched.items()), f"untouched-changed:{label}", "a parameter without gradient changed")
    unit.reset()


def history(make, label):
    def g(ctx, rng):
        u = make(rng)
        other = native_unit(rng)
        opt = optimizer(rng)
        ctx.describe(type(u).__name__, label, opt=type(opt.inner).__name__)
        ops = []
        X0 = other.make()
        Y0, bp0 = other.model(X0, True)
        bp0(cont.rand_like(rng, Y0))
        other_state = state(other.model)
        scale = 1.0
        n_steps = int(rng.choice([4, 8, 12]))
        case = getattr(u, "case", None)
        given = []  # gradients handed in by the caller
        for step in range(n_steps):
            for v, keep in given:
                ctx.equal(v, keep, "inc-grad-argument", f"an array given to inc_grad changed later ({ops[-1]})")
            r = rng.rand()
            if r < 0.4 or not u.pending:
                X = u.make()
                Y, bp = u.model(X, True)
                dY = cont.rand_like(rng, Y)
                if case is not None and case.pre is not None:
                    dY = case.pre(u.model, X, Y, dY)
                u.pending.append([bp, X, dY, contribution(u, X, cont.copy(dY))])
                ops.append("f")
                ctx.note("forward_passes")
            elif r < 0.75:
                i = int(rng.randint(len(u.pending)))
                again = rng.rand() < 0.15 and label != "torch"
                bp, X, dY, c = u.pending[i] if again else u.pending.pop(i)
                bp(cont.copy(dY))
                for k, v in c.items():
                    u.ledger[k] = u.ledger.get(k, 0) + v
                    if v.size:
                        scale = max(scale, float(np.abs(v).max()))
                ops.append("b2" if again else "b")
                ctx.note("backward_passes")
                compare(ctx, u, label, scale)
            elif r < 0.8:
                i = int(rng.randint(len(u.pending)))
                u.pending.pop(i)  # a batch that is never backpropagated
                ops.append("drop")
            elif r < 0.85 and label != "torch":
                cands = [(k, n, name) for k, n, name in zoo.params(u.model) if n.has_grad(name) or rng.rand() < 0.5]
                if cands:
                    k, n, name = cands[rng.randint(len(cands))]
                    v = rng.standard_normal(n.get_param(name).shape).astype("f")
                    if rng.rand() < 0.5:
                        n.set_grad(name, v.copy())
                        u.ledger[k] = v.astype("f8")
                    else:
                        lay = int(rng.randint(3))
                        if lay == 1:
                            v = np.asfortranarray(v)
                        elif lay == 2 and v.ndim:
                            v = np.repeat(v, 2, axis=-1)[..., ::2]
                        if n.has_grad(name) and rng.rand() < 0.2:
                            v = v.astype("f8")  # added to a float32 gradient
                        keep = v.copy()
                        n.inc_grad(name, v)
                        u.ledger[k] = u.ledger.get(k, 0) + keep.astype("f8")
                        ctx.equal(v, keep, "inc-grad-argument", "inc_grad changed its argument")
                        if rng.rand() < 0.4:
                            v[...] = 77.0  # the caller reuses its buffer
                            compare(ctx, u, label, scale)
                        else:
                            given.append((v, keep))
                    ops.append("set")
            else:
                compare(ctx, u, label, scale)
                # callbacks kept over an update would see changed parameters:
                # finish them or drop them first, like a training loop
                u.pending.clear()
                update(ctx, u, opt, label)
                scale = 1.0
                ops.append("u")
                ctx.note("updates")
        u.pending.clear()
        compare(ctx, u, label, scale)
        update(ctx, u, opt, label)
        ctx.check(state(other.model) == other_state, "other-model-changed", f"{label}: updating one model changed another")
        ctx.sig(label, tuple(ops), getattr(getattr(u, "prog", None), "spec", None) or getattr(case, "name", ""))

    g.__name__ = f"history_{label}"
    g.__module__ = __name__
    return group(30, 12000, 30)(g)


history(native_unit, "composed")
history(layer_unit, "layers")
history(torch_unit, "torch")


@group(12, 5000, 10)
def overlapping_models(ctx, rng):
    """Two models sharing layers: the shared parameter collects from both, and
    an update through one of them consumes its gradient exactly once."""
    from thinc.api import Linear, chain

    w = int(rng.choice([1, 2, 4]))
    shared = Linear(w, w)
    a = chain(Linear(w, w), shared, shared)
    b = chain(shared, Linear(2, w))
    for m in (a, b):
        m.initialize(X=np.zeros((2, w), "f"))
    for m in (a, b):
        for _, node, name in zoo.params(m):
            node.set_param(name, (rng.standard_normal(node.get_param(name).shape) * 0.5).astype("f"))
    ctx.describe(w=w)
    order = "".join(rng.choice(["a", "b"], size=int(rng.randint(1, 6))))
    ctx.sig(w, order)
    ua, ub = Unit(a, None), Unit(b, None)
    for c in order:
        u = ua if c == "a" else ub
        X = rng.standard_normal((int(rng.randint(1, 4)), w)).astype("f")
        Y, bp = u.model(X, True)
        dY = cont.rand_like(rng, Y)
        con = contribution(u, X, dY)
        bp(dY)
        nodes = u.nodes()
        for (i, name), v in con.items():
            for other in (ua, ub):
                for j, n in enumerate(other.nodes()):
                    if n is nodes[i]:
                        other.ledger[(j, name)] = other.ledger.get((j, name), 0) + v
    compare(ctx, ua, "overlap", 3.0)
    compare(ctx, ub, "overlap", 3.0)
    opt = optimizer(rng)
    first, second = (ua, ub) if rng.rand() < 0.5 else (ub, ua)
    only = {k: v for k, v in state(second.model).items() if k[0] not in {n.id for n in first.nodes()}}
    update(ctx, first, opt, "overlap")
    now = state(second.model)
    ctx.check(all(now.get(k) == v for k, v in only.items()), "other-model-changed", "update of an overlapping model changed foreign parameters")
    for node in second.nodes():
        if node in first.nodes():
            for name in node.param_names:
                if node.has_grad(name):
                    ctx.check(not np.any(node.get_grad(name)), "gradient-not-reset:overlap", "shared parameter")


@group(10, 3000, 10)
def unique_keys(ctx, rng):
    """Keys handed to optimizers identify one parameter in the process, also
    when native and wrapped models mix."""
    import torch

    from thinc.api import Linear, PyTorchWrapper, chain

    class Net(torch.nn.Module):
        def __init__(self, n):
            super().__init__()
            self.W = torch.nn.Parameter(torch.randn(n, 2))
            self.b = torch.nn.Parameter(torch.randn(n))

        def forward(self, x):
            return x @ self.W.T + self.b

    parts, keys = [], {}
    for _ in range(int(rng.randint(2, 7))):
        parts.append(Linear(2, 2) if rng.rand() < 0.5 else PyTorchWrapper(Net(2)))
    m = chain(*parts)
    if rng.rand() < 0.5:
        m = chain(m, m.copy())
    m.initialize(X=np.zeros((1, 2), "f"))
    X = rng.standard_normal((3, 2)).astype("f")
    Y, bp = m(X, True)
    bp(np.ones_like(Y))
    log = []

    def opt(key, w, g, **kw):
        log.append(key)
        return w, g

    m.finish_update(opt)
    n = sum(2 for node in m.walk() if node.shims or node.name == "linear")
    ctx.describe(n=n)
    ctx.sig(tuple(p.name for p in parts), n)
    ctx.check(len(log) == n, "keys-count", f"{len(log)} calls for {n} parameters")
    ctx.check(len(set(log)) == len(log), "keys-collide", f"{[k for k in log if log.count(k) > 1][:4]} of {len(log)}")


@group(12, 3000, 10)
def training_equivalence(ctx, rng):
    """k accumulated small batches + one update = one joined batch + one
    update, for models that treat rows independently."""
    from thinc.api import Adam, SGD

    g = compose.Gen(rng, None)
    nI = g.width()
    spec, w = g.gen("rows", nI, 2)
    m = spec.model
    m.initialize(X=np.zeros((2, nI), "f"))
    for _, node, name in zoo.params(m):
        node.set_param(name, (rng.standard_normal(node.get_param(name).shape) * 0.5).astype("f"))
    if not zoo.params(m):
        ctx.skip("no parameters")
    m2 = m.copy()
    k = int(rng.randint(2, 6))
    X = rng.standard_normal((3 * k, nI)).astype("f")
    Y, bp = m(X, True)
    dY = cont.rand_like(rng, Y)
    bp(dY)
    cbs = []
    for i in range(k):
        _, b = m2(X[3 * i : 3 * i + 3], True)
        cbs.append((b, dY[3 * i : 3 * i + 3]))
    for i in rng.permutation(k):
        cbs[i][0](cbs[i][1])
    ctx.describe(repr(spec), k=k)
    ctx.sig(repr(spec), k)
    o1, o2 = SGD(0.05, use_averages=False), SGD(0.05, use_averages=False)
    m.finish_update(o1)
    m2.finish_update(o2)
    for a, b in zip(m.walk(), m2.walk()):
        for name in a.param_names:
            if a.has_param(name):
                ctx.close(a.get_param(name), b.get_param(name), "accumulated-vs-joined", f"{spec} {name}", rtol=1e-3, atol=1e-4)


@group(20, 4000, 20)
def gradient_reads(ctx, rng):
    """Reading: all gradients of a tree at once, single ones, and those that are
    not there."""
    from checks import p05

    fam = p05.family(rng)
    m = fam.build()
    X = fam.make(rng)
    p05.bring(rng, fam, m, X, histories=False)
    snap.clear_grads(m)
    nodes = list(m.walk())
    want = {}
    for n in nodes:
        for name in n.param_names:
            if n.has_param(name) and rng.rand() < 0.6:
                v = n.get_param(name)
                g = np.asarray(rng.standard_normal(v.shape), v.dtype)
                if rng.rand() < 0.3:
                    g = np.zeros_like(v)
                for _ in range(int(rng.randint(1, 4))):
                    n.inc_grad(name, g)
                    want[(n.id, name)] = want.get((n.id, name), 0) + g.astype("f8")
    ctx.describe(fam.name, grads=len(want))
    ctx.sig(fam.name, len(nodes), len(want))
    before = state(m) if fam.name != "graph" else None
    got = m.get_gradients()
    ctx.check(set(got) == set(want), "gradients-read", f"{fam.name}: {set(got) ^ set(want)}")
    for n in nodes:
        ctx.check(set(n.grad_names) == {k[1] for k in want if k[0] == n.id}, "gradients-read", f"{n.name}: grad_names {n.grad_names}")
        for name in n.param_names:
            k = (n.id, name)
            ctx.check(n.has_grad(name) == (k in want), "gradients-read", f"{n.name}.{name}: has_grad {n.has_grad(name)}")
            g = n.maybe_get_grad(name)
            ctx.check((g is None) == (k not in want), "gradients-read", f"{n.name}.{name}: {g}")
            if k in want and k in got:
                p, d = got[k]
                ctx.check(p is n.get_param(name), "gradients-read", f"{n.name}.{name}: another parameter")
                ctx.close(d, want[k], "gradients-read", f"{n.name}.{name}", rtol=1e-5, atol=1e-5)
                ctx.close(g, want[k], "gradients-read", f"{n.name}.{name}", rtol=1e-5, atol=1e-5)
    if before is not None:
        ctx.check(state(m) == before, "reading-changes", fam.name)


class Remote:
    """Keeps parameters elsewhere and applies gradients itself."""

    def __init__(self):
        self.params, self.grads, self.log = {}, {}, []

    def get_param(self, i, name):
        return self.params[(i, name)]

    def set_param(self, i, name, value):
        self.params[(i, name)] = np.array(value)

    def set_grad(self, i, name, value):
        self.grads[(i, name)] = np.array(value)

    def inc_grad(self, i, name, value):
        k = (i, name)
        self.grads[k] = self.grads.get(k, 0) + np.array(value)


@group(12, 2000, 10)
def remote_parameters(ctx, rng):
    """Parameters served by a proxy: every read sees the proxy's value, every
    gradient goes there exactly once and none stays behind."""
    from thinc.api import Linear, Maxout, Relu, chain

    w = [int(x) for x in rng.randint(1, 4, size=3)]
    m = chain(Linear(w[1], w[0]), Maxout(w[2], w[1]), Relu(2, w[2])).initialize(X=np.zeros((1, w[0]), "f"))
    for _, node, name in zoo.params(m):
        node.set_param(name, rng.standard_normal(node.get_param(name).shape).astype("f"))
    twin = m.copy()
    proxy = Remote()
    for node in m.walk():
        for name in node.param_names:
            proxy.params[(node.id, name)] = node.get_param(name).copy()
        node._params.proxy = proxy
    pairs = [(a, b, name) for a, b in zip(m.walk(), twin.walk()) for name in a.param_names]
    log = []
    ctx.sig(tuple(w))
    for _ in range(int(rng.randint(2, 6))):
        k = rng.randint(4)
        log.append(int(k))
        if k == 0:  # the other side changes a parameter
            a, b, name = pairs[rng.randint(len(pairs))]
            v = rng.standard_normal(a.get_param(name).shape).astype("f")
            proxy.params[(a.id, name)] = v
            b.set_param(name, v.copy())
        elif k == 1:
            a, b, name = pairs[rng.randint(len(pairs))]
            v = rng.standard_normal(a.get_param(name).shape).astype("f")
            a.set_param(name, v)
            b.set_param(name, v.copy())
            ctx.check(np.array_equal(proxy.params[(a.id, name)], v), "remote-parameter", "a value that was set is not at the proxy")
        elif k == 2:
            a, b, name = pairs[rng.randint(len(pairs))]
            v = rng.standard_normal(a.get_param(name).shape).astype("f")
            a.set_grad(name, v)
            b.set_grad(name, v.copy())
        else:
            X = rng.standard_normal((3, w[0])).astype("f")
            Y, bp = m(X, True)
            Y2, bp2 = twin(X, True)
            ctx.close(Y, Y2, "remote-prediction", f"{log}")
            dY = rng.standard_normal(Y.shape).astype("f")
            ctx.close(bp(dY.copy()), bp2(dY), "remote-gradient", f"{log}", rtol=1e-4, atol=1e-4)
        ctx.describe(log=str(log))
        for a, b, name in pairs:
            ctx.check(np.array_equal(a.get_param(name), b.get_param(name)), "remote-parameter", f"{a.name}.{name} after {log}")
            g = proxy.grads.get((a.id, name))
            ctx.check((g is not None) == b.has_grad(name), "remote-gradient", f"{a.name}.{name} after {log}")
            if g is not None:
                ctx.close(g, b.get_grad(name), "remote-gradient", f"{a.name}.{name} after {log}", rtol=1e-4, atol=1e-4)
            ctx.check(not a.has_grad(name), "remote-gradient-kept", f"{a.name}.{name} after {log}")
