"""P02: composed models compute the composition and follow the chain rule.

Monitor: random programs over thinc's combinators (nested, with shared nodes,
over every container kind) are executed; an independent executable model in
float64 numpy, which knows only the documented meaning of each combinator,
gives the expected output, and its finite differences along random directions
give the expected input gradient and the expected gradient of every parameter
(summed over all uses).  Probe layers log the calls that reach them."""
import numpy as np

from thinc.types import Padded, Ragged
from vlib import compose, cont, zoo
from vlib.core import group

QUICK_X = 20


def kind_ok(Y, kind):
    if kind in ("rows", "3d"):
        return isinstance(Y, np.ndarray)
    if kind == "list":
        return isinstance(Y, list)
    if kind == "ragged":
        return isinstance(Y, Ragged)
    if kind == "padded":
        return isinstance(Y, Padded)
    return isinstance(Y, tuple) and all(kind_ok(y, k) for y, k in zip(Y, kind.split("-")[1:] * 2))


def directional(spec, env, X, dY, vX=None, vP=None, eps=1e-5):
    """d/dt <dY, spec(X + t vX; P + t vP)> by central differences."""

    def f(t):
        x = X if vX is None else compose.like(X, compose.flat(X) + t * vX)[0]
        e = env
        if vP is not None:
            e = compose.Env.__new__(compose.Env)
            e.v = dict(env.v)
            for k, v in vP.items():
                e.v[k] = env.v[k] + t * v
        return float(compose.flat(compose.evaluate(spec, x, e)) @ dY)

    a = (f(eps) - f(-eps)) / (2 * eps)
    b = (f(eps / 2) - f(-eps / 2)) / eps
    return a, abs(a - b)


def observe(ctx, rng, prog, X, log, label):
    m, spec = prog.model, prog.spec
    env = compose.Env(m)
    Xr = compose.to_ref(X, prog.xkind)
    want = compose.evaluate(spec, Xr, env)
    before = cont.digest(X)
    if log is not None:
        log.clear()
    Y = m.predict(X)
    if log is not None:
        ctx.check(all(not e[2] for e in log), f"predict-runs-training:{label}", f"{prog}: a layer ran in training mode during predict")
        log.clear()
    if not ctx.check(kind_ok(Y, prog.ykind), f"container:{label}", f"{prog}: output {type(Y)}"):
        return
    Yr = compose.to_ref(Y, prog.ykind)
    fw, fy = compose.flat(want), compose.flat(Yr)
    ctx.close(fy, fw, f"output:{label}", f"{prog} predict", rtol=2e-4, atol=2e-5)
    Yt, bp = m(X, True)
    if log is not None:
        ctx.check(all(e[2] for e in log), f"training-flag:{label}", f"{prog}: a layer ran in prediction mode during training")
        ctx.note("probe_layer_calls", len(log))
    ctx.close(compose.flat(compose.to_ref(Yt, prog.ykind)), fw, f"training-output:{label}", f"{prog}", rtol=2e-4, atol=2e-5)
    dY = cont.rand_like(rng, Yt)
    dYr = compose.flat(compose.to_ref(dY, prog.ykind))
    zoo.clear_grads(m)
    dX = bp(dY)
    if not ctx.check(kind_ok(dX, prog.xkind), f"gradient-container:{label}", f"{prog}: input gradient {type(dX)}"):
        return
    if not ctx.check(cont.structure(X) == cont.structure(dX), f"gradient-structure:{label}", f"{prog}: {cont.structure(dX)} for input {cont.structure(X)}"):
        return
    ctx.check(cont.digest(X) == before, f"input-mutated:{label}", f"{prog}")
    dXr = compose.flat(compose.to_ref(dX, prog.xkind))
    xf = compose.flat(Xr)
    dirs = [rng.standard_normal(xf.size)]
    if xf.size > 1:
        one = np.zeros(xf.size)
        one[rng.randint(xf.size)] = 1.0
        dirs.append(one)
    for v in dirs:
        fd, err = directional(spec, env, Xr, dYr, vX=v)
        if err > 1e-3 * max(1.0, abs(fd)):
            ctx.note("directions_skipped_kink")
            continue
        tol = 5e-4 * float(np.abs(dXr * v).sum()) + 2e-4 * float(np.abs(dYr).sum() + 1) * float(np.abs(v).max()) * 0.1 + 10 * err
        ctx.check(abs(fd - float(dXr @ v)) <= tol, f"input-gradient:{label}", f"{prog}: <dX,v>={float(dXr @ v):.6g} finite difference {fd:.6g} tol {tol:.2g}")
    for node in m.walk():
        for name in node.param_names:
            if not node.has_param(name):
                continue
            g = np.asarray(node.get_grad(name), dtype="f8") if node.has_grad(name) else None
            p = env.v[(node.id, name)]
            if g is None:
                g = np.zeros_like(p)
            v = rng.standard_normal(p.shape)
            fd, err = directional(spec, env, Xr, dYr, vP={(node.id, name): v})
            if err > 1e-3 * max(1.0, abs(fd)):
                ctx.note("directions_skipped_kink")
                continue
            an = float((g * v).sum())
            tol = 5e-4 * float(np.abs(g * v).sum()) + 2e-5 * float(np.abs(dYr).sum() + 1) * float(np.abs(v).max()) + 10 * err
            ctx.check(abs(fd - an) <= tol, f"parameter-gradient:{label}", f"{prog}: {node.name}.{name} <dP,v>={an:.6g} finite difference {fd:.6g} tol {tol:.2g}")
            ctx.note("parameter_directions")


def programs(kinds, label):
    def g(ctx, rng):
        log = []
        prog = compose.program(rng, log, kinds=kinds)
        X = prog.batch(rng)
        ctx.describe(repr(prog))
        ctx.sig(repr(prog), cont.structure(X))
        m = prog.model
        if rng.rand() < 0.5:
            m.initialize()
        else:
            m.initialize(X=X)
        prog.randomise(rng)
        ctx.note("shared_nodes", prog.gen.shared)
        for o in prog.spec.ops():
            ctx.note(f"op_{o}")
        nd = len(prog.gen.debug)
        observe(ctx, rng, prog, X, log, label)
        ctx.note("with_debug_events", len(prog.gen.debug) - nd)
        if rng.rand() < 0.3:  # another batch of other shape, same model
            observe(ctx, rng, prog, prog.batch(rng), log, label)

    g.__name__ = f"programs_{label}"
    g.__module__ = __name__
    return group(40, 30000, 40)(g)


programs(("rows",), "rows")
programs(("list",), "list")
programs(("ragged",), "ragged")
programs(("padded",), "padded")
programs(("rows", "list", "ragged", "padded"), "any")


@group(20, 8000, 10)
def uniqued_embed(ctx, rng):
    """uniqued(layer) = layer on every row, gradients summed over duplicates."""
    from thinc.api import Embed, HashEmbed, chain, concatenate, uniqued, Linear

    nV = int(rng.choice([1, 2, 4, 9]))
    ncol = int(rng.choice([1, 2, 3]))
    col = int(rng.randint(ncol))
    n = int(rng.choice([0, 1, 2, 3, 6, 15, 40]))
    nO = int(rng.choice([1, 3]))
    deep = rng.rand() < 0.5
    E = Embed(nO, nV, column=col)
    inner = chain(E, Linear(2, nO)) if deep else E
    m = uniqued(inner, column=col)
    X = rng.randint(0, nV, size=(n, ncol)).astype(rng.choice(["i", "uint64", "int64"]))
    m.initialize(X=rng.randint(0, nV, size=(3, ncol)).astype("i"))
    for _, node, name in zoo.params(m):
        node.set_param(name, rng.standard_normal(node.get_param(name).shape).astype("f"))
        if name == "E":
            E = node
    ctx.describe(n=n, ncol=ncol, col=col, deep=deep)
    ctx.sig(n, ncol, col, deep, X.tobytes())
    W = E.get_param("E").astype("f8")
    want = W[X[:, col].astype("i8")]
    if deep:
        L = m.layers[0].layers[1]
        LW, Lb = L.get_param("W").astype("f8"), L.get_param("b").astype("f8")
        emb, want = want, want @ LW.T + Lb
    before = X.copy()
    ctx.close(m.predict(X), want, "uniqued-output", f"n={n}")
    Y, bp = m(X, True)
    ctx.close(Y, want, "uniqued-output", f"n={n} training")
    dY = rng.standard_normal(Y.shape).astype("f")
    bp(dY)
    dE = np.zeros_like(W)
    d = dY.astype("f8")
    if deep:
        ctx.close(L.get_grad("W"), d.T @ emb, "uniqued-gradient", "W")
        ctx.close(L.get_grad("b"), d.sum(0), "uniqued-gradient", "b", atol=1e-4)
        d = d @ LW
    np.add.at(dE, X[:, col].astype("i8"), d)
    if E.has_grad("E"):
        ctx.close(E.get_grad("E"), dE, "uniqued-gradient", "E", rtol=1e-3, atol=1e-4)
    else:
        ctx.check(n == 0, "uniqued-gradient", "no gradient")
    ctx.check(np.array_equal(X, before), "uniqued-input-mutated")


@group(15, 5000, 10)
def flatten_nested(ctx, rng):
    """with_flatten over nested lists of any depth of items."""
    from thinc.api import Model, with_flatten

    nI, nO = int(rng.choice([1, 3])), int(rng.choice([1, 2]))
    W = rng.standard_normal((nO, nI)).astype("f")

    def forward(model, X, is_train):
        A = np.stack(X) if len(X) else np.zeros((0, nI), "f")
        model.attrs["seen"].append(len(X))

        def backprop(dY):
            model.attrs["d"].append(dY.copy())
            return dY @ W if len(dY) else np.zeros((0, nI), "f")

        return A @ W.T, backprop

    inner = Model("inner", forward, attrs={"seen": [], "d": []})
    m = with_flatten(inner)
    lens = [int(k) for k in rng.choice([0, 1, 2, 5], size=int(rng.choice([0, 1, 2, 4])))]
    X = [[rng.standard_normal(nI).astype("f") for _ in range(k)] for k in lens]
    ctx.describe(lens=lens)
    ctx.sig(lens, nI, nO)
    Y, bp = m(X, True)
    ctx.check(len(Y) == len(lens), "flatten-items", f"{len(Y)} for {lens}")
    for y, x in zip(Y, X):
        ctx.close(y, np.stack(x) @ W.T if x else np.zeros((0, nO)), "flatten-output", str(lens))
    dY = [rng.standard_normal(np.shape(y)).astype("f") for y in Y]
    dX = bp(dY)
    ctx.check(len(dX) == len(lens), "flatten-gradient-items", str(lens))
    for dx, dy in zip(dX, dY):
        ctx.close(np.asarray(dx), dy @ W, "flatten-gradient", str(lens))


@group(20, 6000, 10)
def extended(ctx, rng):
    """A sum or concatenation given to the same combinator again is extended:
    the result computes over all of the layers, whatever they are called."""
    import thinc.api as t

    n = int(rng.choice([1, 3]))
    calls = {}

    def leaf(i):
        if rng.rand() < 0.4:
            W, b = rng.standard_normal((n, n)).astype("f"), rng.standard_normal(n).astype("f")
            m = t.Linear(n, n)
            m.set_param("W", W)
            m.set_param("b", b)
            calls[m.id] = (W, b)
            if rng.rand() < 0.4:
                m.name = str(rng.choice(["add", "linear|linear", "concatenate", "linear>>linear"]))
            return m
        k = np.float32(rng.choice([0.5, 2, -1]))

        def forward(model, X, is_train):
            return X * k, lambda dY: dY * k

        m = t.Model(str(rng.choice(["add", "a|b", "scale"])), forward)
        calls[m.id] = (np.eye(n, dtype="f") * k, np.zeros(n, "f"))
        return m

    how = str(rng.choice(["add", "concatenate"]))
    comb = getattr(t, how)
    want = []
    m = None
    sizes = [int(k) for k in rng.choice([1, 2], size=int(rng.choice([1, 2, 3])))]
    if sizes[0] == 1:
        sizes[0] = 2
    for i, k in enumerate(sizes):
        new = [leaf(i) for _ in range(k)]
        want.extend(calls[x.id] for x in new)
        m = comb(*new) if m is None else comb(m, *new)
        if rng.rand() < 0.2:
            m.name = str(rng.choice(["total", "add", "x"]))
    ctx.describe(how, sizes=sizes)
    ctx.sig(how, sizes, n, len({x.name for x in m.layers}))
    X = rng.standard_normal((int(rng.choice([1, 3])), n)).astype("f")
    Y, bp = m(X, True)
    outs = [X @ W.T + b for W, b in want]
    ref = sum(outs) if how == "add" else np.hstack(outs)
    ctx.close(Y, ref, "extended-output:" + how, str(sizes), 1e-4, 1e-5)
    if Y.shape != ref.shape:
        return
    dY = rng.standard_normal(Y.shape).astype("f")
    if how == "add":
        dref = sum(dY @ W for W, b in want)
    else:
        dref = sum(dY[:, i * n : (i + 1) * n] @ W for i, (W, b) in enumerate(want))
    ctx.close(bp(dY), dref, "extended-gradient:" + how, str(sizes), 1e-4, 1e-5)


@group(20, 6000, 10)
def flatten_nested_v2(ctx, rng):
    """with_flatten_v2: nested lists in, nested lists out, of anything."""
    from thinc.api import Linear, Model, map_list, with_flatten_v2

    deep = rng.rand() < 0.4
    lens = [int(k) for k in rng.choice([0, 1, 2, 5], size=int(rng.choice([0, 1, 2, 4])))]
    nI, nO = int(rng.choice([1, 3])), int(rng.choice([1, 2]))
    seen = []

    def forward(model, X, is_train):
        seen.append(list(X))

        def backprop(dY):
            seen.append(list(dY))
            return [("d", i, d) for i, d in enumerate(dY)]

        return [("y", i, x) for i, x in enumerate(X)], backprop

    if deep:
        inner = map_list(Linear(nO, nI))
        X = [[rng.standard_normal((int(rng.choice([1, 2])), nI)).astype("f") for _ in range(k)] for k in lens]
    else:
        inner = Model("inner", forward)
        X = [[object() for _ in range(k)] for k in lens]
    m = with_flatten_v2(inner)
    ctx.describe(lens=lens, deep=deep)
    ctx.sig(lens, nI, nO, deep)
    if deep:
        m.initialize()
        lin = inner.layers[0]
        lin.set_param("W", rng.standard_normal((nO, nI)).astype("f"))
        lin.set_param("b", rng.standard_normal(nO).astype("f"))
        W, b = lin.get_param("W"), lin.get_param("b")
    Y, bp = m(X, True)
    ctx.check(type(Y) is list and [len(y) for y in Y] == lens, "flatten2-structure", f"{[len(y) for y in Y]} for {lens}")
    flat, out = [x for xs in X for x in xs], [y for ys in Y for y in ys]
    if deep:
        for x, y in zip(flat, out):
            ctx.close(y, x @ W.T + b, "flatten2-output", str(lens), 1e-4, 1e-5)
    else:
        ctx.check(len(seen) == 1 and len(seen[0]) == len(flat) and all(a is c for a, c in zip(seen[0], flat)), "flatten2-input", str(lens))
        ctx.check(all(y == ("y", i, x) for i, (y, x) in enumerate(zip(out, flat))), "flatten2-output", str(lens))
    dY = [[rng.standard_normal(np.shape(y)).astype("f") if deep else object() for y in ys] for ys in Y]
    dX = bp(dY)
    ctx.check(type(dX) is list and [len(d) for d in dX] == lens, "flatten2-gradient-structure", f"{[len(d) for d in dX]} for {lens}")
    dflat, dout = [d for ds in dY for d in ds], [d for ds in dX for d in ds]
    if deep:
        for d, g in zip(dflat, dout):
            ctx.close(g, d @ W, "flatten2-gradient", str(lens), 1e-4, 1e-5)
        if flat:
            ctx.close(lin.get_grad("W"), sum(d.T @ x for d, x in zip(dflat, flat)), "flatten2-parameter-gradient", str(lens), 1e-4, 1e-5)
    else:
        ctx.check(all(a is c for a, c in zip(seen[1], dflat)), "flatten2-gradient-input", str(lens))
        ctx.check(all(g == ("d", i, d) for i, (g, d) in enumerate(zip(dout, dflat))), "flatten2-gradient", str(lens))


@group(15, 5000, 10)
def with_cpu_containers(ctx, rng):
    """with_cpu hands data through unchanged for every container kind."""
    from thinc.api import NumpyOps, with_cpu

    log = []
    g = compose.Gen(rng, log)
    kind = str(rng.choice(["rows", "list", "ragged", "padded"]))
    nI = g.width()
    k, w = g.gen(kind, nI, 1)
    spec = compose.Spec("same", with_cpu(k.model, ops=NumpyOps()), [k])
    prog = compose.Program(g, spec, kind, kind, nI)
    X = prog.batch(rng)
    ctx.describe(repr(prog))
    ctx.sig(repr(prog), cont.structure(X))
    prog.model.initialize(X=X)
    prog.randomise(rng)
    observe(ctx, rng, prog, X, log, "with_cpu")


@group(15, 5000, 10)
def resize(ctx, rng):
    """Resizing keeps the old outputs and fills the new ones."""
    from thinc.api import Linear, Softmax, resizable
    from thinc.layers.resizable import resize_linear_weighted, resize_model

    nI = int(rng.choice([1, 2, 4]))
    nO = int(rng.choice([1, 2, 3]))
    extra = int(rng.choice([0, 1, 3]))
    fill = {"W": float(rng.choice([0.0, 1.5])), "b": float(rng.choice([0.0, -5.0]))} if rng.rand() < 0.6 else None
    m = resizable(Linear(nO, nI), lambda layer, new: resize_linear_weighted(layer, new, fill_defaults=fill))
    X = rng.standard_normal((3, nI)).astype("f")
    m.initialize(X=X)
    L = m.layers[0]
    L.set_param("W", rng.standard_normal((nO, nI)).astype("f"))
    L.set_param("b", rng.standard_normal(nO).astype("f"))
    Y = m.predict(X)
    W0, b0 = L.get_param("W").copy(), L.get_param("b").copy()
    ctx.describe(nI=nI, nO=nO, extra=extra, fill=str(fill))
    ctx.sig(nI, nO, extra, str(fill))
    m2 = resize_model(m, nO + extra)
    f = fill or {"W": 0.0, "b": 0.0}
    Y2 = m2.predict(X)
    ctx.check(Y2.shape == (3, nO + extra), "resize-shape", str(Y2.shape))
    ctx.close(Y2[:, :nO], Y, "resize-keeps", "old outputs")
    ctx.close(Y2[:, nO:], np.repeat((X.sum(axis=1) * f["W"] + f["b"])[:, None], extra, axis=1), "resize-fill", "new outputs", rtol=1e-3, atol=1e-4)
    ctx.equal(L.get_param("W"), W0, "resize-old-layer", "W")
    ctx.equal(L.get_param("b"), b0, "resize-old-layer", "b")
    Yt, bp = m2(X, True)
    dY = rng.standard_normal(Yt.shape).astype("f")
    dX = bp(dY)
    ctx.close(dX, dY @ m2.layers[0].get_param("W"), "resize-gradient", "dX", atol=1e-4)
    ctx.close(m2.layers[0].get_grad("W"), dY.T @ X, "resize-gradient", "dW", atol=1e-4)


@group(40, 8000, 30)
def observed(ctx, rng):
    """Any layer under with_debug / range wrappers (stacked, also around layers
    without an initialiser of their own): the callbacks see the very arguments,
    once per phase, and everything else is as without."""
    import thinc.api as t

    fams = {**zoo.LEAVES, **zoo.ENCODERS}
    name = str(rng.choice(sorted(fams)))
    seed = int(rng.randint(2**31))
    built = []
    for _ in range(2):
        t.fix_random_seed(seed)  # wrapped torch modules draw when they are built
        built.append(fams[name](np.random.RandomState(seed)))
    plain, case = built
    m, log = case.model, []
    wraps = []
    for i in range(int(rng.choice([1, 1, 2, 3]))):
        how = str(rng.choice(["debug", "debug", "nvtx"]))
        wraps.append(how)
        label = [None, f"range{i}"][rng.randint(2)]
        if how == "nvtx":
            kw = {} if rng.rand() < 0.5 else dict(forward_color=3, backprop_color=4)
            w = t.with_nvtx_range(m, label, **kw)
        else:
            hooks = dict(
                on_init=lambda mm, X, Y, i=i: log.append((i, "init", mm, X, Y)),
                on_forward=lambda mm, X, tr, i=i: log.append((i, "forward", mm, X, tr)),
                on_backprop=lambda dY, i=i: log.append((i, "backprop", dY)))
            for k in list(hooks):
                if rng.rand() < 0.15:
                    del hooks[k]
            wraps[-1] = hooks
            w = t.with_debug(m, label, **hooks)
        ctx.check(w is m, "wrapper-returns", f"{how} of {name} returns another model")
    ctx.describe(name, [w if isinstance(w, str) else sorted(w) for w in wraps])
    ctx.sig(name, str([w if isinstance(w, str) else sorted(w) for w in wraps]))

    def expect(phase, *args):
        for i, w in enumerate(wraps):
            if isinstance(w, str):
                continue
            got = [e for e in log if e[0] == i and e[1] == phase]
            n = 1 if "on_" + phase in w else 0
            if ctx.check(len(got) == n, f"observer-calls:{phase}", f"{name}: {len(got)} calls, expected {n}") and n:
                ctx.check(all(a is b for a, b in zip(got[0][2:], args)), f"observer-arguments:{phase}", f"{name}: {[type(a) for a in got[0][2:]]}")
        log.clear()

    X = case.x(rng, int(rng.choice([1, 2, 3])))
    Y = case.init_y(X) if case.init_y else None
    give = rng.rand() < 0.8
    t.fix_random_seed(seed)
    case.model.initialize(X=X if give or Y is not None else X, Y=Y)
    expect("init", m, X, Y)
    t.fix_random_seed(seed)
    plain.model.initialize(X=X, Y=Y)
    for (_, a, p), (_, b, _) in zip(zoo.params(plain.model), zoo.params(m)):
        ctx.equal(b.get_param(p), a.get_param(p), "observed-init", f"{name}.{p}")
    for k in range(2):
        for train in (False, True):
            t.fix_random_seed(k)
            a, bpa = plain.model(X, train)
            log.clear()
            t.fix_random_seed(k)
            b, bpb = m(X, train)
            expect("forward", m, X, train)
            ctx.check(cont.digest(a) == cont.digest(b), "observed-output", name)
        dY = cont.rand_like(rng, a)
        dY = case.pre(m, X, a, dY) if case.pre else dY
        da = bpa(cont.copy(dY))
        log.clear()
        db = bpb(dY)
        expect("backprop", dY)
        ctx.check(cont.digest(da) == cont.digest(db), "observed-gradient", name)
        for (_, x, p), (_, y, _) in zip(zoo.params(plain.model), zoo.params(m)):
            if x.has_grad(p) or y.has_grad(p):
                ctx.equal(y.get_grad(p), x.get_grad(p), "observed-parameter-gradient", f"{name}.{p}")
