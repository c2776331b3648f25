"""Wrapped layers in every sequence format.  A random core (row-wise layers, an
LSTM, or attention over each sequence) is put into a random nest of
with_array/with_array2d/with_list/with_padded/with_ragged/map_list wrappers and
run, with the same items, in every format the outer wrapper accepts; the oracle
runs an identically initialised core on each sequence alone and compares the
items of the output, of the input gradient, and the parameter gradients, and
that the container structure is the one given in.  Padding cells of padded
batches are filled with garbage.  Distinct = nest, core, format, lengths."""
import numpy as np

from thinc.api import (
    LSTM,
    ClippedLinear,
    Dish,
    Gelu,
    HardSwish,
    LayerNorm,
    Linear,
    Maxout,
    Mish,
    Model,
    NumpyOps,
    ParametricAttention,
    Relu,
    Sigmoid,
    Softmax,
    Swish,
    chain,
    expand_window,
    map_list,
    noop,
    sigmoid_activation,
    softmax_activation,
    with_array,
    with_array2d,
    with_list,
    with_padded,
    with_ragged,
)
from thinc.types import Padded, Ragged

from vlib import cont
from vlib.core import group
from checks.p16 import foreign_padded

QUICK_X = 12
OPS = NumpyOps()
TOL = dict(rtol=2e-4, atol=2e-5)
ASSUMPTIONS = [
    "output gradients of padded batches are zero in the padding cells",
    "separator padding (pad=n) only matters for layers that look at neighbouring rows; it is documented for list inputs and checked with window layers on lists",
    "with_array hands padded batches to its layer as a 3d array, so it is exercised on padded batches with elementwise layers only",
]


def row_core(rng, nI):
    opts = [
        lambda: Linear(3, nI),
        lambda: Relu(4, nI),
        lambda: Maxout(3, nI, nP=2, normalize=True),
        lambda: Mish(3, nI, normalize=True),
        lambda: LayerNorm(nI),
        lambda: Softmax(3, nI),
        lambda: Sigmoid(2, nI),
        lambda: Gelu(3, nI),
        lambda: Swish(3, nI),
        lambda: HardSwish(3, nI),
        lambda: Dish(3, nI),
        lambda: ClippedLinear(3, nI),
        lambda: chain(Linear(4, nI), Maxout(2, 4), Relu(3, 2)),
        lambda: chain(LayerNorm(nI), Linear(nI, nI)),
        lambda: noop(),
    ]
    i = rng.randint(len(opts))
    return opts[i](), f"row{i}"


def wrap(rng, kind, core, depth):
    """A layer list->list / ragged->ragged / padded->padded around the array core."""
    if depth <= 0 or rng.randint(3) == 0:
        if kind == "list" and rng.randint(2):
            return map_list(core), "map"
        return with_array2d(core), "a2"
    k = ["list", "ragged", "padded"][rng.randint(3)]
    inner, name = wrap(rng, k, core, depth - 1)
    return {"list": with_list, "ragged": with_ragged, "padded": with_padded}[k](inner), k[0] + "(" + name + ")"


def outer(rng, kind, core, depth):
    """Outermost wrapper: one of the with_* layers that accept every format."""
    k = ["list", "ragged", "padded", "a2"][rng.randint(4)]
    if k == "a2":
        return with_array2d(core, pad=int(rng.choice([0, 0, 1, 3]))), "a2", k
    inner, name = wrap(rng, k, core, depth)
    return {"list": with_list, "ragged": with_ragged, "padded": with_padded}[k](inner), k[0] + "(" + name + ")", k


def fmt(rng, name, seqs):
    ls = np.array([len(s) for s in seqs], "i")
    if name == "list":
        return [s.copy() for s in seqs]
    if name == "ragged":
        return Ragged(np.concatenate(seqs), ls)
    if name == "ragged_tuple":
        return (np.concatenate(seqs), ls)
    if name == "array3d":
        return np.ascontiguousarray(np.stack(seqs).transpose((1, 0, 2)))
    if name == "array2d":
        return np.concatenate(seqs)
    p = foreign_padded(rng, seqs) if name.startswith("padded_any") else OPS.list2padded([s.copy() for s in seqs])
    return p


def garbage(rng, p):
    """Fill the padding cells with large finite values."""
    noise = rng.standard_normal(p.data.shape) * 1e3
    p.data = np.where(cont.pad_mask(p) > 0, p.data, noise).astype(p.data.dtype)
    return p


def finish_format(name, x):
    if name.endswith("tuple") and isinstance(x, Padded):
        return (x.data, x.size_at_t, x.lengths, x.indices)
    return x


def seq_items(name, y, ls, like):
    """Per-sequence arrays of y, read off by hand in the format given."""
    if name == "list":
        return [np.asarray(a) for a in y]
    if name in ("ragged", "ragged_tuple", "array2d"):
        d = y.dataXd if name == "ragged" else (y[0] if name == "ragged_tuple" else y)
        cuts = np.cumsum([0] + list(ls))
        return [d[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    if name == "array3d":
        return [y[:, j] for j in range(y.shape[1])]
    if isinstance(y, tuple):
        y = Padded(*y)
    return cont.items(y)


def same_structure(ctx, name, x, y, mech):
    """y has the same kind, order and lengths as x."""
    if name == "list":
        ok = isinstance(y, list) and [len(a) for a in y] == [len(a) for a in x]
    elif name == "ragged":
        ok = isinstance(y, Ragged) and list(y.lengths) == list(x.lengths)
    elif name == "ragged_tuple":
        ok = isinstance(y, tuple) and len(y) == 2 and list(y[1]) == list(x[1]) and len(y[0]) == len(x[0])
    elif name == "array2d":
        ok = isinstance(y, np.ndarray) and y.ndim == 2 and len(y) == len(x)
    elif name == "array3d":
        ok = isinstance(y, np.ndarray) and y.shape[:2] == x.shape[:2]
    else:
        if isinstance(x, tuple):
            ok = isinstance(y, tuple) and len(y) == 4
            if ok:
                x, y = Padded(*x), Padded(*y)
        else:
            ok = isinstance(y, Padded)
        ok = ok and y.data.shape[:2] == x.data.shape[:2] and all(
            np.array_equal(getattr(x, f), getattr(y, f)) for f in ("size_at_t", "lengths", "indices")
        )
    return ctx.check(ok, mech, f"{name}: structure changed", got=cont.structure(y), want=cont.structure(x))


def compare_items(ctx, got, want, mech, msg, tol=TOL):
    if not ctx.check(len(got) == len(want), mech, f"{msg}: {len(got)} items"):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g.size == 0 and w.size == 0:
            ctx.check(len(g) == len(w), mech, msg)
        else:
            ctx.close(g, w, mech, f"{msg}: item {i}", **tol)


def core_grads(core):
    out = []
    for n in core.walk():
        for p in sorted(n.param_names):
            if n.has_param(p):
                out.append((n.name + "." + p, np.array(n.get_grad(p)) if n.has_grad(p) else np.zeros_like(n.get_param(p))))
    return out


def zero(core):
    for n in core.walk():
        for p in n.grad_names:
            n.set_grad(p, np.zeros_like(n.get_param(p)))


def perturb(rng, core):
    for n in core.walk():
        for p in n.param_names:
            if n.has_param(p):
                w = n.get_param(p)
                n.set_param(p, (w + rng.standard_normal(w.shape) * 0.3).astype(w.dtype))


def inputs(rng, nI, min_len=0, equal=False):
    ls = cont.rand_lengths(rng, n=int(rng.randint(1, 6)), min_len=min_len, style="equal" if equal else None)
    if equal and len(ls) == 0:
        ls = np.array([2], "i")
    return [(rng.standard_normal((int(k), nI)) * rng.choice([0.5, 1, 3])).astype("f4") for k in ls]


def run_format(ctx, rng, model, core, name, seqs, want, want_dx, want_grads, gs, mech, nontriv_dx=True):
    x = fmt(rng, name, seqs)
    if isinstance(x, Padded) and rng.randint(2):
        x = garbage(rng, x)
    x = finish_format(name, x)
    ls = [len(s) for s in seqs]
    y = model.predict(cont.copy(x) if rng.randint(2) else x)
    if not same_structure(ctx, name, x, y, mech + ":structure"):
        return
    compare_items(ctx, seq_items(name, y, ls, x), want, mech + ":predict", name)
    zero(core)
    y, bp = model(x, True)
    same_structure(ctx, name, x, y, mech + ":structure")
    compare_items(ctx, seq_items(name, y, ls, x), want, mech + ":train", name)
    # the output gradient, laid out like the output
    if name.startswith("padded"):
        yp = Padded(*y) if isinstance(y, tuple) else y
        d = np.zeros(yp.data.shape, "f4")
        for j, i in enumerate(yp.indices):
            d[: len(gs[int(i)]), j] = gs[int(i)]
        dy = Padded(d, yp.size_at_t.copy(), yp.lengths.copy(), yp.indices.copy())
        if isinstance(y, tuple):
            dy = (dy.data, dy.size_at_t, dy.lengths, dy.indices)
    else:
        dy = fmt(rng, name, gs)
    dx = bp(dy)
    if same_structure(ctx, name, x, dx, mech + ":dX:structure"):
        compare_items(ctx, seq_items(name, dx, ls, x), want_dx, mech + ":dX", name)
    for (k, g), (_, w) in zip(core_grads(core), want_grads):
        ctx.close(g, w, mech + ":grads", f"{name}: {k}", rtol=1e-3, atol=1e-3 * max(1.0, float(np.abs(w).max()) if w.size else 1.0) * 0.1)
    ctx.note("formats_compared")
    ctx.sig(mech, name, tuple(ls))


def formats_for(k, seqs):
    ls = [len(s) for s in seqs]
    out = ["list", "ragged", "padded", "padded_any"]
    if k == "padded":
        out += ["padded_tuple", "padded_any_tuple"]
        if len(set(ls)) == 1 and ls[0]:
            out.append("array3d")
    if k == "ragged":
        out.append("ragged_tuple")
    if k == "a2":
        out.append("array2d")
    return out


def reference(core, seqs, gs_of):
    """Run the core on each sequence alone, sum the parameter gradients."""
    zero(core)
    ys, dxs, gs = [], [], []
    for s in seqs:
        if len(s) == 0:
            ys.append(None)
            dxs.append(s.copy())
            gs.append(None)
            continue
        y, bp = core(s.copy(), True)
        y = np.array(y)
        g = gs_of(y)
        ys.append(y)
        gs.append(g)
        dxs.append(np.array(bp(g.copy())))
    w = next(y.shape[1] for y in ys if y is not None)
    ys = [np.zeros((0, w), "f4") if y is None else y for y in ys]
    gs = [np.zeros((0, w), "f4") if g is None else g for g in gs]
    return ys, dxs, gs, core_grads(core)


@group(120, 3000, min_obs=300)
def nested_row_wise(ctx, rng):
    nI = int(rng.randint(2, 5))
    core, cname = row_core(rng, nI)
    model, nest, k = outer(rng, None, core, int(rng.randint(0, 4)))
    seqs = inputs(rng, nI, equal=bool(rng.randint(3) == 0))
    ctx.describe(nest, core=cname, lengths=[len(s) for s in seqs])
    if not any(len(s) for s in seqs):
        return
    first = [s for s in seqs if len(s)][:1]
    model.initialize(X=[s.copy() for s in (first if rng.randint(2) else sorted(seqs, key=lambda s: -len(s)))] if rng.randint(2) else None)
    perturb(rng, core)
    ys, dxs, gs, grads = reference(core, seqs, lambda y: rng.standard_normal(y.shape).astype("f4"))
    for name in formats_for(k, seqs):
        run_format(ctx, rng, model, core, name, seqs, ys, dxs, grads, gs, "row-wise")
    ctx.sig(nest, cname)


@group(60, 1000, min_obs=150)
def with_array_formats(ctx, rng):
    """with_array: every format, 1d-3d items, elementwise and row-wise cores."""
    elt = bool(rng.randint(2))
    pad = int(rng.choice([0, 0, 1, 2]))
    nI = int(rng.randint(1, 5))
    if elt:
        core = [sigmoid_activation, softmax_activation, noop][rng.randint(3)]()
        cname = core.name
    else:
        core, cname = row_core(rng, nI)
    model = with_array(core, pad=pad)
    seqs = inputs(rng, nI)
    core.initialize()
    perturb(rng, core)
    ctx.describe("with_array", core=cname, pad=pad, lengths=[len(s) for s in seqs])
    ys, dxs, gs, grads = reference(core, seqs, lambda y: rng.standard_normal(y.shape).astype("f4"))
    for name in ["list", "ragged", "array2d"] + (["padded", "padded_any"] if elt else []):
        run_format(ctx, rng, model, core, name, seqs, ys, dxs, grads, gs, "with_array")


@group(40, 800, min_obs=100)
def recurrent(ctx, rng):
    """with_padded(LSTM): every format equals running each sequence alone."""
    nI, nO = int(rng.randint(1, 4)), int(rng.choice([2, 4]))
    core = LSTM(nO=nO, nI=nI, depth=int(rng.randint(1, 3)), bi=bool(rng.randint(2)))
    model = with_padded(core)
    if rng.randint(2):
        k = ["list", "ragged"][rng.randint(2)]
        model = {"list": with_list, "ragged": with_ragged}[k](model)
    else:
        k = "padded"
    model.initialize()
    perturb(rng, core)
    seqs = inputs(rng, nI, min_len=1, equal=bool(rng.randint(3) == 0))
    ctx.describe("LSTM in " + model.name, lengths=[len(s) for s in seqs], nI=nI, nO=nO)
    alone = Model("alone", lambda m, s, is_train: _alone(core, s, is_train))
    ys, dxs, gs, _ = reference(alone, seqs, lambda y: rng.standard_normal(y.shape).astype("f4"))
    zero(core)
    for s, g in zip(seqs, gs):
        alone(s.copy(), True)[1](g.copy())
    grads = core_grads(core)
    for name in formats_for(k, seqs):
        run_format(ctx, rng, model, core, name, seqs, ys, dxs, grads, gs, "lstm")


def _alone(core, s, train):
    n = len(s)
    p = Padded(s[:, None, :], np.ones(n, "i"), np.array([n], "i"), np.array([0], "i"))
    y, bp = core(p, train)

    def back(dy):
        return bp(Padded(dy[:, None, :], y.size_at_t, y.lengths, y.indices)).data[:, 0]

    return y.data[:, 0], back


@group(50, 1000, min_obs=100)
def attention(ctx, rng):
    nI = int(rng.randint(1, 5))
    core = ParametricAttention(nO=nI)
    model = with_ragged(core)
    k = "ragged"
    if rng.randint(2):
        k = ["list", "padded"][rng.randint(2)]
        model = {"list": with_list, "padded": with_padded}[k](model)
    model.initialize()
    perturb(rng, core)
    seqs = inputs(rng, nI, min_len=1, equal=bool(rng.randint(3) == 0))
    ctx.describe("attention in " + model.name, lengths=[len(s) for s in seqs], nI=nI)

    def fwd(m, s, is_train):
        y, bp = core(Ragged(s, np.array([len(s)], "i")), is_train)
        return y.dataXd, lambda dy: bp(Ragged(dy, np.array([len(s)], "i"))).dataXd

    alone = Model("alone", fwd)
    zero(core)
    ys, dxs, gs, _ = reference(alone, seqs, lambda y: rng.standard_normal(y.shape).astype("f4"))
    grads = core_grads(core)
    for name in formats_for(k, seqs):
        run_format(ctx, rng, model, core, name, seqs, ys, dxs, grads, gs, "attention")


@group(60, 1000, min_obs=60)
def window_pad(ctx, rng):
    """pad=n separators of with_array/with_array2d stop windows of size <= n
    from reaching into the neighbouring sequence."""
    w = int(rng.randint(1, 4))
    pad = w + int(rng.randint(0, 3))
    nI = int(rng.randint(1, 4))
    seqs = inputs(rng, nI)
    model = (with_array if rng.randint(2) else with_array2d)(expand_window(w), pad=pad)
    ctx.describe("window", w=w, pad=pad, lengths=[len(s) for s in seqs])
    y, bp = model([s.copy() for s in seqs], True)
    want, gs, dxs = [], [], []
    for s in seqs:
        z = np.zeros((w, nI), "f4")
        e = np.concatenate([z, s, z])
        ref = np.concatenate([e[i : i + len(s)] for i in range(2 * w + 1)], axis=1)
        g = rng.standard_normal(ref.shape).astype("f4")
        d = np.zeros_like(e)
        for i in range(2 * w + 1):
            d[i : i + len(s)] += g[:, i * nI : (i + 1) * nI]
        want.append(ref)
        gs.append(g)
        dxs.append(d[w : w + len(s)])
    compare_items(ctx, y, want, "window:forward", "windows")
    compare_items(ctx, bp(gs), dxs, "window:dX", "windows")
    ctx.sig(w, pad, nI, tuple(len(s) for s in seqs))


@group(60, 1000, min_obs=60)
def ragged_items(ctx, rng):
    """with_ragged and with_array keep the item rank of list batches."""
    ndim = int(rng.randint(1, 5))
    trail = tuple(int(rng.randint(1, 4)) for _ in range(ndim - 1))
    dt = ["f4", "i4", "u8", "f8"][rng.randint(4)]
    ls = cont.rand_lengths(rng)
    seqs = [(rng.standard_normal((int(k),) + trail) * 10).astype(dt) if dt != "u8" else rng.randint(0, 99, (int(k),) + trail).astype(dt) for k in ls]
    which = rng.randint(3)
    model = [lambda: with_ragged(noop()), lambda: with_array(noop()), lambda: with_ragged(with_array(noop()))][which]()
    ctx.describe(model.name, ndim=ndim, lengths=list(ls), dtype=dt)
    y, bp = model([s.copy() for s in seqs], True)
    gs = [rng.standard_normal(s.shape).astype("f4") for s in seqs]
    for got, want, m in [(y, seqs, "items:forward"), (bp([g.copy() for g in gs]), gs, "items:dX")]:
        if ctx.check(len(got) == len(want), m):
            for a, b in zip(got, want):
                ctx.check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b), m, f"{a.dtype}{a.shape} instead of {b.dtype}{b.shape}")
    r = Ragged(np.concatenate(seqs), np.asarray(ls, "i"))
    y, bp = model(r, True)
    ctx.check(isinstance(y, Ragged) and y.dataXd.shape == r.dataXd.shape and np.array_equal(y.dataXd, r.dataXd), "items:ragged", f"{y.dataXd.shape} from {r.dataXd.shape}")
    ctx.sig(which, ndim, dt, tuple(ls))
