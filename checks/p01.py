"""P01: the callback of a training-mode call gives the true gradient.

Monitor: for each drawn layer configuration, parameters and batch, the float32
layer is run in training mode with a random output gradient.  The oracle is
the directional derivative of <dY, f(X, params)> by central differences in
float64 - of the layer itself run in double precision, or of an independent
float64 reference where the layer only computes in single precision - along
random directions in input and parameter space, jointly, for the input alone
and for each parameter alone.  The gradients the float32 run left are compared
with those of the double precision run and with the same oracle.  A mismatch
at a point where one-sided derivatives disagree (a kink) is only believed if
it persists at nearby points."""
import numpy as np

from vlib import cont, layout, zoo
from vlib.core import group

QUICK_X = 30


class Bad(Exception):
    def __init__(self, mech, msg, kink=False):
        self.mech, self.msg, self.kink = mech, msg, kink


def run(case, X, dY, seed=None):
    """Training pass + callback on fresh gradients: Y, dX, grads, type of dX"""
    m = case.model
    zoo.clear_grads(m)
    Y, bp = m(X, True)
    d = dY if case.pre is None else case.pre(m, X, Y, dY)
    dX = bp(d)
    return Y, dX, zoo.grads(m)


def vjp_dot(dX, V, G, PV):
    s = 0.0
    if V is not None:
        s += cont.dot(dX, V)
    for k, v in PV.items():
        if k in G:
            s += float(np.sum(G[k].astype("f8") * v))
    return s


def scale_of(dX, V, G, PV):
    """Sum of absolute products: the scale rounding errors live on."""
    s = 0.0
    if V is not None:
        for x, v in zip(cont.data(dX), cont.data(V)):
            s += float(np.sum(np.abs(x.astype("f8").ravel() * v.astype("f8").ravel())))
    for k, v in PV.items():
        if k in G:
            s += float(np.sum(np.abs(G[k].astype("f8") * v)))
    return s


class Oracle:
    """L(t) = <dY, f(X + tV, P + t PV)> in float64."""

    def __init__(self, case, X, dY):
        self.case = case
        self.dY = cont.cast(dY, "f8")
        self.P0 = {k: np.asarray(n.get_param(name), dtype="f8") for k, n, name in zoo.params(case.model)}
        self.nodes = {k: (n, name) for k, n, name in zoo.params(case.model)}
        self.X0 = cont.cast(X, "f8")
        self.use_model = case.f64
        self.h = 1e-5

    def L(self, t, V, PV):
        X = self.X0 if V is None else cont.axpy(t, V, self.X0)
        if self.use_model:
            for k, (n, name) in self.nodes.items():
                n.set_param(name, self.P0[k] + t * PV[k] if k in PV else self.P0[k])
            Y, _ = self.case.model(X, True)
        else:
            P = {}
            for k, (n, name) in self.nodes.items():
                P[name] = self.P0[k] + t * PV[k] if k in PV else self.P0[k]
            Y = self.case.ref(P, X)
        return cont.dot(self.dY, Y), cont.dot(absl(self.dY), absl(Y))

    def derivative(self, V, PV):
        """Richardson-extrapolated central difference, its own error estimate,
        and the disagreement of the one-sided differences (kink indicator)."""
        h = self.h
        a, s1 = self.L(h, V, PV)
        b, s2 = self.L(-h, V, PV)
        a2, _ = self.L(h / 2, V, PV)
        b2, _ = self.L(-h / 2, V, PV)
        c, s3 = self.L(0, V, PV)
        self.restore()
        d1 = (a - b) / (2 * h)
        d2 = (a2 - b2) / h
        num = (4 * d2 - d1) / 3
        noise = 1e-15 * max(s1, s2, s3) / h * 40 + abs(d1 - d2)
        kink = abs((a - c) / h - (c - b) / h)
        return num, kink, noise

    def restore(self):
        if self.use_model:
            for k, (n, name) in self.nodes.items():
                n.set_param(name, self.P0[k])


def absl(x):
    return cont.map_data(np.abs, x)


def directions(case, rng, X, P0):
    out = []
    dirX = cont.rand_like(rng, cont.cast(X, "f8")) if case.dx else None
    frozen = getattr(case, "frozen", ())
    PV = {k: rng.standard_normal(v.shape) for k, v in P0.items() if k[1] not in frozen}
    out.append(("joint", dirX, PV))
    if case.dx:
        out.append(("input", dirX, {}))
        # a single coordinate of the input
        V = cont.map_data(lambda a: a * 0, dirX)
        arrs = [a for a in cont.data(V) if a.size]
        if arrs:
            a = arrs[rng.randint(len(arrs))]
            a.reshape(-1)[rng.randint(a.size)] = 1.0
            if isinstance(V, cont.Padded):
                V.data = V.data * cont.pad_mask(V)
            out.append(("input-coord", V, {}))
    for k in PV:
        out.append((f"param:{k[1]}", None, {k: PV[k]}))
        if PV[k].size:
            e = np.zeros(PV[k].shape)
            e.reshape(-1)[rng.randint(e.size)] = 1.0
            out.append((f"param-coord:{k[1]}", None, {k: e}))
    return out


def probe(ctx, case, rng, X, count=True):
    """One gradient experiment; raises Bad on the first disagreement."""
    m = case.model
    P32 = {k: np.array(n.get_param(name)) for k, n, name in zoo.params(m)}

    def restore():
        for k, n, name in zoo.params(m):
            n.set_param(name, P32[k].copy())

    try:
        zoo.clear_grads(m)
        Y32, _ = m(X, True)
        dY = cont.rand_like(rng, Y32)
        if rng.rand() < 0.25:  # sparse output gradient: most entries zero
            dY = cont.map_data(lambda a: (a * (rng.rand(*a.shape) < 0.2)).astype(a.dtype), dY)
        Y32, dX32, G32 = run(case, X, dY)
        n_obs = 0
        if case.dx:
            if cont.structure(dX32) != cont.structure(X):
                raise Bad("gradient-structure", f"{case.name}: input gradient {cont.structure(dX32)} for input {cont.structure(X)}")
            if isinstance(X, cont.Padded):
                pass
        for k, n, name in zoo.params(m):
            if k in G32 and G32[k].shape != P32[k].shape:
                raise Bad("gradient-shape", f"{case.name}.{name}: gradient {G32[k].shape} for parameter {P32[k].shape}")
            if k not in G32 and name not in getattr(case, "frozen", ()):
                raise Bad("gradient-missing", f"{case.name}.{name}: no gradient after the callback")
        if case.linear:
            o = LinOracle(case, X, dY)
            dX, G, tol = dX32, G32, 1e-4
        else:
            o = Oracle(case, X, dY)
            if case.f64:
                zoo.cast_params(m, "f8")
                zoo.clear_grads(m)
                for _, n, name in zoo.params(m):
                    if n.has_grad(name):
                        n.set_grad(name, n.get_grad(name).astype("f8"))
                Y, dX, G = run(case, cont.cast(X, "f8"), cont.cast(dY, "f8"))
                tol = case.tol
            else:
                dX, G, tol = dX32, G32, case.tol
        amp = amplification(case, X)
        big = max([1.0] + [float(np.max(np.abs(a))) for a in cont.data(X) + cont.data(dY) if a.size]) ** 2
        for what, V, PV in directions(case, rng, X, {k: v.astype("f8") for k, v in P32.items()}):
            num, kink, noise = o.derivative(V, PV)
            got = vjp_dot(dX, V, G, PV)
            sc = scale_of(dX, V, G, PV)
            lim = tol * (sc + abs(num)) + noise + case.atol * amp**2 * big
            n_obs += 1
            if not abs(num - got) <= lim:
                raise Bad("not-the-gradient", f"{case.name} {what}: callback gives {got!r}, derivative is {num!r} (limit {lim:.3g})", kink > 1e-4 * (sc + abs(num)) + 2 * noise)
        # the same call with the same values in another memory layout
        if rng.rand() < 0.4:
            zoo.clear_grads(m)
            for k, n, name in zoo.params(m):
                n.set_param(name, P32[k].copy())
            lx = cont.map_data(lambda a: layout.pick(rng, a, 0.1)[0], X) if case.dx and rng.rand() < 0.6 else X
            ld = cont.map_data(lambda a: layout.pick(rng, a, 0.1)[0], dY) if case.pre is None else dY
            try:
                _, dXl, Gl = run(case, lx, ld)
            except (ValueError, TypeError, BufferError):
                ctx.note("layouts_refused")
            else:
                pairs = [(f"grad:{k[1]}", Gl[k], G32[k]) for k in G32]
                if case.dx:
                    pairs += [("input", a, b) for a, b in zip(cont.data(dXl), cont.data(dX32))]
                for what, a, b in pairs:
                    n_obs += 1
                    lim = 1e-3 * (float(np.max(np.abs(b))) if b.size else 0) + 1e-5 * big * amp**2
                    if a.shape != b.shape or (a.size and not float(np.max(np.abs(a.astype("f8") - b))) <= lim):
                        raise Bad("layout-changes-gradient", f"{case.name} {what}: {a!r} in another memory layout, {b!r} contiguous", case.name.startswith(("Maxout", "reduce_max")))
        # the single precision run agrees with the double precision run
        if case.f64 and not case.linear and amp < 30:
            pairs = [(f"grad:{k[1]}", G32[k], G[k]) for k in G32]
            if case.dx:
                pairs += [("input", a, b) for a, b in zip(cont.data(dX32), cont.data(dX))]
            for what, a, b in pairs:
                if a.dtype != np.float32:
                    raise Bad("gradient-dtype", f"{case.name} {what}: {a.dtype} for a float32 batch")
                if not a.size:
                    continue
                n_obs += 1
                s = float(np.max(np.abs(b)))
                err = float(np.max(np.abs(a.astype("f8") - b)))
                # rounding errors are relative to the terms that are summed
                if not err <= 2e-3 * s + 1e-5 * amp**2 * max(1.0, big):
                    raise Bad("single-precision-gradient", f"{case.name} {what}: float32 gradient off by {err!r} (scale {s!r})", True)
        return n_obs
    finally:
        restore()
        zoo.clear_grads(m)


def amplification(case, X):
    """How much a normalisation inside the layer magnifies rounding errors."""
    if case.name == "LayerNorm":
        pre = X
    elif case.name.endswith("+norm"):
        pre = case.prenorm(case.P(), np.asarray(X, dtype="f8"))
    else:
        return 1.0
    pre = np.asarray(pre, dtype="f8")
    return float(max(1.0, 1 / np.sqrt(pre.var(axis=1).min() + 1e-8))) if pre.size else 1.0


class LinOracle(Oracle):
    """Layers linear in their parameters, in the precision they run in."""

    def __init__(self, case, X, dY):
        super().__init__(case, X, dY)
        self.X0 = X
        self.use_model = True
        self.h = 1.0
        self.P0 = {k: v.astype("f4") for k, v in self.P0.items()}

    def L(self, t, V, PV):
        for k, (n, name) in self.nodes.items():
            n.set_param(name, (self.P0[k] + t * PV[k]).astype("f4") if k in PV else self.P0[k])
        Y, _ = self.case.model(self.X0, True)
        return cont.dot(self.dY, Y), cont.dot(absl(self.dY), absl(Y))

    def derivative(self, V, PV):
        a, s1 = self.L(1, None, PV)
        b, s2 = self.L(-1, None, PV)
        self.restore()
        return (a - b) / 2, 0.0, 1e-5 * max(s1, s2)


def jitter(rng, X):
    return cont.map_data(lambda a: (a + rng.standard_normal(a.shape) * 2e-2).astype(a.dtype), X)


def examine(ctx, case, rng, X):
    try:
        n = probe(ctx, case, rng, X)
        ctx.obs[ctx.group] += n
        ctx.evaluations += n
        ctx.note(f"directions:{case.name.split(':')[0]}", n)
        return True
    except Bad as e:
        kink = e.kink
        for k in range(2 if not kink else 0):
            try:  # other directions at the same point
                probe(ctx, case, rng, X)
            except Bad as e2:
                kink = kink or e2.kink
        if not kink:
            ctx.violate(f"{e.mech}:{case.name.split(':')[0]}", e.msg, X=repr(X)[:1500])
            ctx.obs[ctx.group] += 1
            ctx.evaluations += 1
            return False
        first = e
    # suspicious, but possibly a kink: believe it if nearby points agree
    for k in range(4):
        Xj = jitter(rng, X)
        if isinstance(Xj, cont.Padded):
            Xj.data = (Xj.data * cont.pad_mask(Xj)).astype("f")
        for key, n, name in zoo.params(case.model):
            p = n.get_param(name)
            if name not in getattr(case, "frozen", ()):
                v = (p + rng.standard_normal(p.shape) * 2e-2).astype(p.dtype)
                n.set_param(name, case.fix(name, v) if case.fix else v)
        try:
            probe(ctx, case, rng, Xj)
            ctx.note("kinks_excused")
            return True
        except Bad as e:
            first = e
    ctx.obs[ctx.group] += 1
    ctx.evaluations += 1
    ctx.violate(f"{first.mech}:{case.name.split(':')[0]}", first.msg, X=repr(X)[:1500])
    return False


def make_group(name):
    def g(ctx, rng):
        case = zoo.LEAVES[name](rng).initialize(rng)
        ctx.describe(case.name)
        for i in range(2):
            X = case.x(rng)
            ctx.sig(case.name, cont.structure(X), sorted((k, n.get_param(nm).shape) for k, n, nm in zoo.params(case.model)))
            if not examine(ctx, case, rng, X):
                return

    g.__name__ = name
    g.__module__ = __name__
    cheap = name not in ("lstm",)
    return group(12 if cheap else 6, 6000 if cheap else 1500, 20 if cheap else 5)(g)


for _n in zoo.LEAVES:
    make_group(_n)


@group(30, 1500, 100)
def refusals(ctx, rng):
    """Softmax and pooling layers refuse gradients that do not fit their output."""
    import thinc.api as t

    name = str(rng.choice(["softmax", "softmax_v2", "first", "last", "max", "mean", "sum"]))
    n, w = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    if name.startswith("softmax"):
        m = t.Softmax(w, 3) if name == "softmax" else t.Softmax_v2(w, 3, normalize_outputs=bool(rng.randint(2)))
        X = rng.standard_normal((n, 3)).astype("f")
        m.initialize(X=X)
    else:
        m = getattr(t, "reduce_" + name)()
        ls = rng.randint(1, 4, n).astype("i")
        X = t.Ragged(rng.standard_normal((int(ls.sum()), w)).astype("f"), ls)
        m.initialize()
    ctx.describe(name, n=n, w=w)
    ctx.sig(name, n, w)
    Y, bp = m(X, True)
    dY = np.ones(Y.shape, "f")
    bp(dY)
    for what, bad in [("shape", np.ones((n + 1, w), "f")), ("shape", np.ones((n, w + 1), "f")), ("type", np.ones((n, w), "f8"))]:
        ctx.raises(lambda: m(X, True)[1](bad), f"refusal:{what}", f"{name}: gradient {bad.dtype}{bad.shape} for an output of {Y.dtype}{Y.shape}", exc=ValueError)
