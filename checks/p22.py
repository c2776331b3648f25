"""Dropout: for every container, rate and layer with built-in dropout the mask
is read off the output (inputs are never zero), and the oracle checks that every
element is dropped or scaled by 1/keep, that the callback applies the very same
mask, that predictions, disabled layers and zero rates pass values through, that
masks are drawn independently with the configured frequency (binomial bounds,
joint frequencies between calls, neighbours, layers and list members), and that
rate changes reach every layer at the next call and no earlier callback.
Distinct = layer, container, rate class, shapes."""
import contextlib
import inspect
import io

import numpy as np

import thinc.api as T
from thinc.api import Dropout, Embed, HashEmbed, LSTM, Model, chain, list2padded, set_dropout_rate, with_array, with_list
from thinc.types import Padded, Ragged

from checks.p16 import foreign_padded
from vlib import compose, cont
from vlib.core import group

QUICK_X = 5
RATES = [0.05, 0.1, 0.25, 0.3, 0.5, 0.7, 0.9]
ASSUMPTIONS = [
    "the masks of the embedding layers are drawn per column and those of LSTM per weight, as these layers document in their code; frequencies are checked per drawn value",
    "frequencies within 6.5 standard deviations",
    "tuples of arrays are not exercised (lists are the documented sequence input)",
]


def nonzero(rng, shape, dtype="f"):
    a = rng.uniform(0.5, 1.5, shape) * rng.choice([-1, 1], shape)
    return a.astype(dtype)


def batch(rng, kind):
    dtype = str(rng.choice(["f", "f", "d"]))
    if kind == "array":
        nd = int(rng.randint(1, 5))
        return nonzero(rng, tuple(int(x) for x in rng.randint(0 if rng.rand() < 0.1 else 1, 7, nd)), dtype)
    if kind == "list":
        nd = int(rng.randint(1, 4))
        tail = tuple(int(x) for x in rng.randint(1, 5, nd - 1))
        return [nonzero(rng, (int(n),) + tail, dtype) for n in cont.rand_lengths(rng)]
    w = int(rng.randint(1, 6))
    if kind == "ragged":
        ls = np.array(cont.rand_lengths(rng), "i")
        return Ragged(nonzero(rng, (int(ls.sum()), w), dtype), ls)
    return foreign_padded(rng, [nonzero(rng, (int(n), w), dtype) for n in cont.rand_lengths(rng, min_len=1)])


def arrays(x):
    return [np.asarray(a) for a in cont.data(x)] if isinstance(cont.data(x), list) else [np.asarray(cont.data(x))]


def masks_of(ctx, Y, X, rate, mech, msg=""):
    """Check that each element is zeroed or scaled; return the masks."""
    out = []
    keep = 1.0 / (1.0 - rate)
    for y, x in zip(arrays(Y), arrays(X)):
        ctx.check(y.shape == x.shape and y.dtype == x.dtype, f"{mech}:kind", f"{msg}: {x.dtype}{x.shape} became {y.dtype}{y.shape}")
        m = y != 0
        ctx.close(y, np.where(m, x * keep, 0), f"{mech}:scale", f"{msg}: kept values are not scaled by 1/(1-{rate})", rtol=1e-5, atol=1e-12)
        out.append(np.where(x != 0, m, True))
    return out


def frequency(ctx, k, n, p, mech, msg):
    sd = np.sqrt(n * p * (1 - p)) + 0.5
    ctx.check(abs(k - n * p) <= 6.5 * sd + 1, mech, f"{msg}: {k} of {n}, expected {n * p:.1f}")


KINDS = ["array", "list", "ragged", "padded"]


@group(120, 6000, 80)
def containers(ctx, rng):
    kind = KINDS[rng.randint(4)]
    rate = float(rng.choice(RATES)) if rng.rand() < 0.8 else float(rng.uniform(0.01, 0.95))
    X = batch(rng, kind)
    keep = cont.copy(X)
    ctx.describe(kind, rate=rate, structure=str(cont.structure(X))[:200])
    late = rng.rand() < 0.3
    m = Dropout(float(rng.choice([0.0, 0.5])) if late else rate)
    if late:
        m.attrs["dropout_rate"] = rate
    ctx.check(cont.digest(m.predict(X)) == cont.digest(X), f"predict:{kind}", "prediction changes the values")
    Yf, bpf = m(X, is_train=False)
    ctx.check(cont.digest(Yf) == cont.digest(X), f"is_train=False:{kind}", "a forward pass without training changes the values")
    dY = cont.rand_like(rng, X)
    ctx.check(cont.digest(bpf(cont.copy(dY))) == cont.digest(dY), f"is_train=False:callback:{kind}", "its callback changes the gradient")
    Y, bp = m(X, is_train=True)
    ctx.check(cont.digest(X) == cont.digest(keep), f"input:{kind}", "the input was changed")
    ctx.check(type(Y) is type(X) and cont.structure(Y) == cont.structure(X), f"structure:{kind}", f"{cont.structure(X)} became {cont.structure(Y)}")
    masks = masks_of(ctx, Y, X, rate, f"train:{kind}")
    # gradient without zeros: the mask is visible in it too
    ones = cont.map_data(lambda a: np.asarray(nonzero(rng, a.shape, a.dtype)), Y)
    if rng.rand() < 0.5:  # a rate changed meanwhile does not reach the callback
        m.attrs["dropout_rate"] = float(rng.choice([0.0, 0.3, 0.99]))
    if rng.rand() < 0.3:
        m.attrs["is_enabled"] = False
    if rng.rand() < 0.3:
        m(X, is_train=True)
    dX = bp(cont.copy(ones))
    ctx.check(type(dX) is type(X) and cont.structure(dX) == cont.structure(X), f"structure:gradient:{kind}", "structure of the gradient")
    for g, d, k, x in zip(arrays(dX), arrays(ones), masks, arrays(X)):
        k, g = k & (x != 0), np.where(x != 0, g, 0)  # the mask of padding does not show
        ctx.close(g, np.where(k, d / (1 - rate), 0), f"gradient:{kind}", "the callback does not apply the mask of its forward pass", rtol=1e-5, atol=1e-12)
    # off
    for how in ("zero", "disabled"):
        m2 = Dropout(rate)
        if how == "zero":
            m2.attrs["dropout_rate"] = 0.0
        else:
            m2.attrs["is_enabled"] = False
        Y2, bp2 = m2(X, is_train=True)
        ctx.check(cont.digest(Y2) == cont.digest(X), f"off:{how}:{kind}", "values changed")
        ctx.check(cont.digest(bp2(cont.copy(dY))) == cont.digest(dY), f"off:{how}:gradient:{kind}", "gradient changed")
    n = sum(k.size for k in masks)
    ctx.note("elements_drawn", n)
    ctx.sig(kind, round(rate, 2), n)


@group(10, 500, 8)
def independent(ctx, rng):
    """Frequencies, joint frequencies and means over large draws."""
    kind = KINDS[rng.randint(4)]
    rate = float(rng.choice(RATES))
    n, w = int(rng.randint(40, 80)), int(rng.randint(20, 60))
    if kind == "array":
        X = nonzero(rng, (n, w) if rng.rand() < 0.5 else (n, w, 3))
    elif kind == "list":
        X = [nonzero(rng, (n, w)) for _ in range(3)]
    elif kind == "ragged":
        X = Ragged(nonzero(rng, (n, w)), np.array([n // 2, 0, n - n // 2], "i"))
    else:
        X = foreign_padded(rng, [nonzero(rng, (k, w)) for k in (n, n, n - 3)])
    ctx.describe(kind, rate=rate, n=n, w=w)
    m = Dropout(rate)
    seen = []
    flat = lambda ms: np.concatenate([k.ravel() for k in ms])  # noqa: E731
    for _ in range(3):
        Y, _ = m(X, is_train=True)
        seen.append(masks_of(ctx, Y, X, rate, f"train:{kind}"))
    real = [a != 0 for a in arrays(X)]
    R = flat(real)
    for ms in seen:
        k = flat(ms)[R]
        frequency(ctx, int((~k).sum()), k.size, rate, "frequency", f"{kind}: dropped with rate {rate}")
        for a, r in zip(ms, real):  # neighbours along every axis
            for ax in range(a.ndim):
                if a.shape[ax] > 1 and a.ndim < 3 or (a.ndim == 3 and kind == "array" and a.shape[ax] > 1):
                    p, q = np.take(a, range(a.shape[ax] - 1), ax), np.take(a, range(1, a.shape[ax]), ax)
                    frequency(ctx, int((p & ~q).sum()), p.size, rate * (1 - rate), "neighbours", f"{kind}, axis {ax}: kept and next one dropped")
    for i in range(3):
        a, b = flat(seen[i])[R], flat(seen[(i + 1) % 3])[R]
        frequency(ctx, int((~a & ~b).sum()), a.size, rate * rate, "between-calls", f"{kind}: dropped in both of two calls")
    if kind == "list":
        a, b = seen[0][0].ravel(), seen[0][1].ravel()
        frequency(ctx, int((~a & ~b).sum()), a.size, rate * rate, "between-members", "dropped in both of two list members")
    # two layers in one network
    c = chain(Dropout(rate), Dropout(rate))
    Xa = np.ones((n, w), "f")
    Y, bp = c(Xa, is_train=True)
    frequency(ctx, int((Y != 0).sum()), Y.size, (1 - rate) ** 2, "between-layers", "kept by two dropout layers")
    ctx.close(Y, np.where(Y != 0, (1 - rate) ** -2, 0), "between-layers:scale", "two layers", rtol=1e-5)
    ctx.close(bp(np.ones_like(Y)), Y, "between-layers:gradient", "gradient through two layers", rtol=1e-5)
    # mean: unbiased
    sd = np.sqrt(rate / (1 - rate) / R.sum())
    mean = float((flat(seen[0])[R] / (1 - rate)).mean())
    ctx.check(abs(mean - 1) < 7 * sd, "mean", f"{kind}: mean factor {mean}")
    ctx.note("elements_drawn", int(R.sum()) * 3)
    ctx.sig(kind, rate, n, w)


def dropout_layers():
    """Every exported layer that takes a dropout argument."""
    out = {}
    for name in sorted(T.__all__):
        f = getattr(T, name)
        if callable(f) and inspect.isfunction(f):
            ps = inspect.signature(f).parameters
            if "dropout" in ps and "normalize" in ps:
                out[name] = ps
    return out


DENSE = dropout_layers()
if len(DENSE) < 8:
    raise RuntimeError(f"only {sorted(DENSE)} found")


@group(60, 3000, 40)
def built_in(ctx, rng):
    """Layers with a dropout argument = the layer without, then dropout."""
    name = sorted(DENSE)[rng.randint(len(DENSE))]
    f = getattr(T, name)
    rate = float(rng.choice(RATES))
    nO, nI = int(rng.randint(1, 6)), int(rng.randint(1, 6))
    kw = {"nP": int(rng.randint(1, 4))} if "nP" in DENSE[name] else {}
    norm = bool(rng.rand() < 0.3) and nO > 1
    ctx.describe(name, rate=rate, nO=nO, nI=nI, normalize=norm, **kw)
    a = f(nO, nI, normalize=norm, **kw).initialize()
    first = float(rng.choice([0.0, 0.2])) if rng.rand() < 0.3 else rate
    b = f(nO, nI, normalize=norm, dropout=first, **kw).initialize()
    nodes = [n for n in b.walk() if "dropout_rate" in n.attrs]
    ctx.check(len(nodes) >= 1 and all(n.attrs["dropout_rate"] == first for n in nodes), f"attr:{name}", f"rates {[n.attrs['dropout_rate'] for n in nodes]}")
    if first != rate:
        r = set_dropout_rate(b, rate)
        ctx.check(r is b, "set_dropout_rate:returns", "not the model")
    pa = [(n, p) for n in a.walk() for p in n.param_names]
    pb = [(n, p) for n in b.walk() for p in n.param_names]
    if [p for _, p in pa] != [p for _, p in pb]:
        raise RuntimeError(f"{name}: parameters differ")
    for (n, p), (n2, p2) in zip(pa, pb):
        v = (rng.standard_normal(n.get_param(p).shape) * 0.7).astype("f")
        n.set_param(p, v.copy())
        n2.set_param(p2, v.copy())
    X = rng.standard_normal((int(rng.randint(1, 9)), nI)).astype("f")
    Y0, bp0 = a(X, is_train=True)
    ctx.close(b.predict(X), a.predict(X), f"predict:{name}", "prediction with a dropout rate", rtol=1e-6, atol=1e-7)
    Y1, bp1 = b(X, is_train=True)
    keep = Y1 != 0
    ctx.close(Y1, np.where(keep, Y0 / (1 - rate), 0), f"train:{name}", "elements are not dropped or scaled", rtol=1e-5, atol=1e-7)
    dY = nonzero(rng, Y1.shape)
    # elements that were zero before dropout do not show their mask: no gradient there
    live = np.abs(Y0) > 1e-12
    dY = np.where(live, dY, 0).astype("f")
    dX0 = bp0(np.where(keep, dY / np.float32(1 - rate), 0).astype("f"))
    if rng.rand() < 0.5:  # a rate changed meanwhile does not reach the callback
        set_dropout_rate(b, float(rng.choice([0.0, 0.3, 0.99])))
    dX1 = bp1(dY.copy())
    ctx.close(dX1, dX0, f"gradient:{name}", "input gradient through the mask", rtol=1e-4, atol=1e-5)
    for (n, p), (n2, p2) in zip(pa, pb):
        ctx.close(n2.get_grad(p2), n.get_grad(p), f"gradient:{name}", f"gradient of {p}", rtol=1e-4, atol=1e-5 * (1 + np.abs(n.get_grad(p)).max()))
    set_dropout_rate(b, 0.0)
    ctx.close(b(X, is_train=True)[0], Y0, f"off:{name}", "rate set to zero", rtol=1e-6, atol=1e-7)
    # frequency over many rows
    set_dropout_rate(b, rate)
    Xb = np.repeat(X[:1], 400, axis=0)
    Yb, _ = b(Xb, is_train=True)
    cols = np.abs(a.predict(Xb[:1])[0]) > 1e-9
    if cols.any():
        z = Yb[:, cols] == 0
        frequency(ctx, int(z.sum()), z.size, rate, f"frequency:{name}", f"dropped with rate {rate}")
        # independent per row
        if z.shape[0] > 1:
            p, q = ~z[:-1], z[1:]
            frequency(ctx, int((p & q).sum()), p.size, rate * (1 - rate), f"rows:{name}", "kept and dropped in the next row")
    ctx.sig(name, rate, nO, nI, norm)


@group(40, 2000, 25)
def embeddings(ctx, rng):
    name = str(rng.choice(["Embed", "HashEmbed"]))
    rate = float(rng.choice(RATES))
    nO, nV = int(rng.randint(1, 40)), int(rng.randint(2, 30))
    column = int(rng.randint(0, 3)) if rng.rand() < 0.4 else None
    build = Embed if name == "Embed" else HashEmbed
    kw = dict(column=column)
    first = float(rng.choice([0.0, 0.2])) if rng.rand() < 0.4 else rate
    m = build(nO, nV, dropout=first, **kw).initialize()
    node = next(n for n in m.walk() if n.has_param("E"))
    node.set_param("E", nonzero(rng, node.get_param("E").shape))
    if first != rate:
        set_dropout_rate(m, rate)
    n = int(rng.randint(1, 8))
    ids = rng.randint(0, nV, n).astype("uint64" if name == "HashEmbed" else "i")
    X = ids if column is None else np.stack([ids if c == column else rng.randint(0, nV, n).astype(ids.dtype) for c in range(3)], axis=1)
    ctx.describe(name, rate=rate, nO=nO, nV=nV, column=column, n=n)
    Y0 = m.predict(X)
    E = node.get_param("E").copy()
    plain = build(nO, nV, **kw).initialize()
    pn = next(k for k in plain.walk() if k.has_param("E"))
    pn.set_param("E", E.copy())
    if "seed" in node.attrs:
        pn.attrs["seed"] = node.attrs["seed"]
    ctx.equal(Y0, plain.predict(X), f"predict:{name}", "prediction with a dropout rate")
    for _ in range(2):
        Y, bp = m(X, is_train=True)
        keep = Y != 0
        ctx.close(Y, np.where(keep, Y0 / (1 - rate), 0), f"train:{name}", "elements are not dropped or scaled", rtol=1e-5, atol=1e-7)
        dY = np.where(np.abs(Y0) > 1e-12, nonzero(rng, Y.shape), 0).astype("f")
        _, bp0 = plain(X, is_train=True)
        for k in (node, pn):
            k.set_grad("E", np.zeros_like(E))
        if rng.rand() < 0.5:
            set_dropout_rate(m, float(rng.choice([0.0, 0.3, 0.99])))
        bp(dY.copy())
        set_dropout_rate(m, rate)
        bp0(np.where(keep, dY / np.float32(1 - rate), 0).astype("f"))
        ctx.close(node.get_grad("E"), pn.get_grad("E"), f"gradient:{name}", "gradient of the table", rtol=1e-4, atol=1e-5)
        ctx.equal(node.get_param("E"), E, f"table:{name}", "the table itself")
    # frequency of the drawn values over many calls
    drops = np.array([(m(X[:1], is_train=True)[0] == 0)[0] for _ in range(60)])
    frequency(ctx, int(drops.sum()), drops.size, rate, f"frequency:{name}", f"dropped with rate {rate}")
    set_dropout_rate(m, 0.0)
    ctx.equal(m(X, is_train=True)[0], Y0, f"off:{name}", "rate set to zero")
    ctx.sig(name, rate, nO, column, n)


@group(50, 2500, 30)
def rate_histories(ctx, rng):
    """Sequences of rate changes over networks with several dropout layers."""
    log = []
    plain = []
    w = int(rng.randint(2, 6))

    def block(depth):
        k = rng.randint(6)
        if depth == 0 or k == 0:
            return Dropout(0.0)
        if k == 1:
            return T.Linear(w, w)
        if k == 2:
            f = getattr(T, sorted(DENSE)[rng.randint(len(DENSE))])
            return f(w, w, dropout=0.0)
        if k == 3:
            return T.residual(block(depth - 1))
        if k == 4:
            return T.add(block(depth - 1), block(depth - 1))
        return chain(block(depth - 1), block(depth - 1))

    m = chain(block(3), Dropout(0.0))
    wrap = str(rng.choice(["none", "with_array", "with_list"]))
    outer = m if wrap == "none" else with_array(m) if wrap == "with_array" else with_list(with_array(m))
    mk = lambda: nonzero(rng, (int(rng.randint(1, 5)), w))  # noqa: E731
    X = mk() if wrap == "none" else [mk() for _ in range(int(rng.randint(1, 4)))]
    outer.initialize(X=X)
    for n in outer.walk():
        for p in n.param_names:
            if n.has_param(p):
                n.set_param(p, (rng.standard_normal(n.get_param(p).shape) * 0.5).astype("f"))
    holders = [n for n in outer.walk() if "dropout_rate" in n.attrs]
    others = [(n, dict(n.attrs)) for n in outer.walk() if "dropout_rate" not in n.attrs]
    last = m.layers[-1]
    custom = Dropout(0.0)
    Yp = outer.predict(X)
    ctx.describe(wrap, layers=len(holders), nodes=len(list(outer.walk())))
    for step in range(int(rng.randint(2, 7))):
        k = rng.randint(4)
        if k == 0:
            r = 0.0
            set_dropout_rate(outer, 0.0)
        elif k == 1:
            r = float(rng.choice(RATES))
            set_dropout_rate(outer, r)
        elif k == 2:
            r = None
            for n in holders:
                n.attrs["dropout_rate"] = 0.0
            last.attrs["dropout_rate"] = 0.5
        else:
            r = float(rng.choice(RATES))
            set_dropout_rate(outer, r, attrs=["dropout_rate", "other_rate"])
        log.append((int(k), r))
        if r is not None:
            ctx.check(all(n.attrs["dropout_rate"] == r for n in holders), "set_dropout_rate", f"rates {[n.attrs['dropout_rate'] for n in holders]} instead of {r}")
        for n, attrs in others:
            ctx.check(dict(n.attrs) == attrs, "set_dropout_rate:others", f"attributes of {n.name} changed")
        ctx.check(cont.maxdiff(outer.predict(X), Yp) <= 1e-6, "predict:history", f"prediction after {log}")
        Y, bp = outer(X, is_train=True)
        if r == 0.0:
            ctx.check(cont.maxdiff(Y, Yp) <= 1e-5, "train:zero", f"training output without dropout after {log}")
        elif r is None:
            masks_of(ctx, Y, Yp, 0.5, "train:last", f"{log}")
            if wrap == "none":
                dY = np.ones_like(Y)
                d = bp(dY)
                ctx.check(d.shape == X.shape, "train:last:shape", "gradient shape")
        else:
            big = [np.repeat(x, 60, axis=0) for x in X] if isinstance(X, list) else np.repeat(X, 60, axis=0)
            Yb, _ = outer(big, is_train=True)
            z = np.concatenate([a.ravel() for a in (Yb if isinstance(Yb, list) else [Yb])]) == 0
            lo = z.size * r - 6.5 * np.sqrt(z.size * r * (1 - r)) - 1
            ctx.check(z.sum() >= lo, "train:frequency", f"{int(z.sum())} of {z.size} zeros with rate {r} in the last layer")
    set_dropout_rate(outer, 0.3, attrs=["nothing_has_this"])
    ctx.check(all(n.attrs["dropout_rate"] != 0.3 for n in holders) or log[-1][1] == 0.3, "set_dropout_rate:attrs", "other attributes set")
    ctx.check(custom.attrs["dropout_rate"] == 0.0, "set_dropout_rate:elsewhere", "a layer elsewhere changed")
    ctx.sig(wrap, len(holders), tuple(k for k, _ in log))


# -- the mode reaches every layer ------------------------------------------------------
def seqs_in(rng, kind, w, ls):
    seqs = [nonzero(rng, (n, w)) for n in ls]
    if kind == "list":
        return seqs
    if kind in ("ragged", "ragged_tuple"):
        r = (np.concatenate(seqs), np.array(ls, "i"))
        return r if kind == "ragged_tuple" else Ragged(*r)
    if kind == "array2d":
        return np.concatenate(seqs)
    if kind == "array3d":
        return nonzero(rng, (max(ls), len(ls), w))
    p = foreign_padded(rng, seqs)
    return (p.data, p.size_at_t, p.lengths, p.indices) if kind == "padded_tuple" else p


def around(rng, inner, w):
    """An array -> array layer of the same width with `inner` inside of it."""
    k = str(rng.choice(["chain", "residual", "add", "concat", "reshape", "cpu", "debug", "resizable", "clone", "clone1", "getitem", "tuple", "siamese", "uniqued", "plain"]))
    if k == "chain":
        m = chain(T.noop(), inner, T.noop()) if rng.rand() < 0.5 else chain(inner, T.noop())
    elif k == "residual":
        m = T.residual(inner)
    elif k == "add":
        m = T.add(T.noop(), inner, inner) if rng.rand() < 0.5 else T.add(inner, T.noop())
    elif k == "concat":
        m = chain(T.concatenate(T.noop(), inner) if rng.rand() < 0.5 else T.concatenate(inner, T.noop()), T.array_getitem((slice(None), slice(0, w))))
    elif k == "cpu":
        m = T.with_cpu(inner, inner.ops)
    elif k == "debug":
        m = T.with_debug(inner)
    elif k == "resizable":
        m = T.resizable(inner, lambda layer, n: layer)
    elif k == "clone1":
        m = T.clone(inner, 1)
    elif k == "tuple":
        m = chain(T.tuplify(T.noop(), inner), T.with_getitem(1, inner), Model("first", lambda m, X, is_train: (X[0], lambda d: (d, d * 0))))
    elif k == "getitem":
        m = chain(T.tuplify(T.noop(), T.noop()), T.with_getitem(int(rng.randint(2)), inner), Model("second", lambda m, X, is_train: (X[1], lambda d: (d * 0, d))))
    else:
        k, m = "plain", inner
    return m, k


FORMS = ["list", "ragged", "ragged_tuple", "array2d", "array3d", "padded", "padded_tuple"]
ACCEPTS = {
    "with_array": ["list", "ragged", "array2d"], "with_array2d": ["list", "ragged", "padded", "array2d"],
    "with_list": ["list", "ragged", "padded"], "with_ragged": ["list", "ragged", "ragged_tuple", "padded"],
    "with_padded": ["list", "ragged", "padded", "padded_tuple", "array3d"], "map_list": ["list"], "with_flatten": ["list"], "with_flatten_v2": ["list"],
    "bidirectional": ["padded"], "attention": ["ragged"], "attention_v2": ["ragged"], "siamese": ["pair"], "with_reshape": ["array3d"], "array": ["array2d"],
}


@group(120, 6000, 100)
def modes(ctx, rng):
    """Whether a layer is called for training is the same for all layers of a
    network: a layer that only records the mode it is called with is put inside
    every combination of wrappers, containers and formats."""
    seen = []

    def record(model, X, is_train):
        seen.append(is_train)
        return X, lambda d: d

    w = int(rng.randint(1, 4))
    probe = Model("probe", record)
    core, names = probe, []
    if rng.rand() < 0.5:
        core = chain(core, T.Relu(w, w, dropout=0.5))
    for _ in range(int(rng.randint(0, 3))):
        core, k = around(rng, core, w)
        names.append(k)
    how = str(rng.choice(sorted(ACCEPTS)))
    form = str(rng.choice(ACCEPTS[how]))
    ls = [int(n) for n in rng.randint(1, 5, int(rng.randint(1, 4)))]
    X = (seqs_in(rng, "array2d", w, ls),) * 2 if form == "pair" else seqs_in(rng, form, w, ls)
    a = T.with_array2d(core) if how in ("with_list", "with_ragged", "with_padded", "bidirectional") else core
    if how in ("with_array", "with_array2d", "with_list", "with_ragged", "with_padded", "map_list", "bidirectional"):
        m = getattr(T, how)(a)
    elif how == "with_flatten":
        as_array = Model("stack", lambda m, X, is_train: (np.asarray(X), lambda d: list(d)))
        m = T.with_flatten(chain(as_array, core))
    elif how == "with_flatten_v2":
        m = T.with_flatten_v2(T.map_list(chain(Model("row", lambda m, X, is_train: (X.reshape(1, -1), lambda d: d.reshape(-1))), core)))
    elif how == "attention":
        m = chain(T.ParametricAttention(w), with_array(core))
    elif how == "attention_v2":
        # the key transform is where the probe is
        m = T.ParametricAttention_v2(key_transform=chain(core, T.Linear(w, w)), nO=w)
    elif how == "siamese":
        m = T.siamese(core, T.CauchySimilarity(w))
    elif how == "with_reshape":
        m = T.with_reshape(chain(core, T.Linear(w, w)))
    else:
        m = core
    if how == "with_reshape":
        m.layers[0].set_dim("nO", w, force=True)
    names.append(f"{how}({form})")
    for n in m.walk():
        if n.init is not None and n.name in ("relu", "linear", "para-attn", "cauchy_similarity"):
            n.initialize()
        for p in n.param_names:
            if not n.has_param(p):
                n.set_param(p, np.ones([n.get_dim(d) for d in ("nO", "nI") if n.has_dim(d)][: 1 if p in "bQ" else 2], "f"))
    ctx.describe("modes", layers=" in ".join(names))
    for step in range(4):
        train = bool(rng.rand() < 0.5)
        del seen[:]
        with contextlib.redirect_stdout(io.StringIO()):
            if train:
                m.begin_update(X) if rng.rand() < 0.5 else m(X, is_train=True)
            else:
                m.predict(X) if rng.rand() < 0.5 else m(X, is_train=False)
        ctx.note("layer_calls", len(seen))
        ctx.check(bool(seen), "mode:not-called", f"the layer inside {' in '.join(names)} was not called")
        ctx.check(all(bool(v) == train for v in seen), f"mode:{how}", f"{' in '.join(names)} called with is_train={train} calls its layer with {seen}")
    ctx.sig(how, form, tuple(sorted(names)))


@group(20, 1000, 15)
def lstm(ctx, rng):
    rate = float(rng.choice(RATES))
    m = LSTM(8, 5, dropout=0.0)
    m.initialize()
    m.set_param("LSTM", (rng.standard_normal(m.get_param("LSTM").shape) * 0.25).astype("f"))
    m.set_param("HC0", rng.uniform(0.3, 0.9, m.get_param("HC0").shape).astype("f"))
    net = chain(list2padded(), m)
    X = [rng.uniform(0.2, 1, (int(n), 5)).astype("f") for n in cont.rand_lengths(rng, min_len=1)]
    ctx.describe("LSTM", rate=rate, n=len(X))
    Y0 = net.predict(X).data
    ctx.close(net(X, is_train=True)[0].data, Y0, "LSTM:zero", "training output with rate zero", rtol=1e-5, atol=1e-6)
    set_dropout_rate(net, rate)
    ctx.check(m.attrs["dropout_rate"] == rate, "LSTM:attr", "rate not set")
    ctx.equal(net.predict(X).data, Y0, "LSTM:predict", "prediction with a dropout rate")
    gs = []
    for _ in range(2):
        m.set_grad("LSTM", np.zeros_like(m.get_param("LSTM")))
        Y, bp = net(X, is_train=True)
        dY = np.where(Y.data != 0, 1, 0).astype("f") * nonzero(rng, Y.data.shape)
        if rng.rand() < 0.5:  # a rate changed meanwhile does not reach the callback
            set_dropout_rate(net, float(rng.choice([0.0, 0.3, 0.99])))
        dX = bp(Padded(dY.copy(), Y.size_at_t, Y.lengths, Y.indices))
        set_dropout_rate(net, rate)
        G = m.get_grad("LSTM").copy()
        g = G == 0
        frequency(ctx, int(g.sum()), g.size, rate, "LSTM:frequency", f"weights dropped with rate {rate}")
        gs.append(g)
        # the forward pass used exactly the weights the gradient says it used
        W = m.get_param("LSTM")
        m.set_param("LSTM", np.where(g, 0, W / (1 - rate)).astype("f"))
        ctx.close(Y.data, net.predict(X).data, "LSTM:weights", "training output with the dropped weights", rtol=1e-4, atol=1e-5)
        # and the gradients are those of these weights, through the mask
        set_dropout_rate(net, 0.0)
        Y1, bp1 = net(X, is_train=True)
        m.set_grad("LSTM", np.zeros_like(G))
        dX1 = bp1(Padded(dY.copy(), Y1.size_at_t, Y1.lengths, Y1.indices))
        want = np.where(g, 0, m.get_grad("LSTM") / (1 - rate))
        ctx.close(G, want, "LSTM:gradient", "gradient of the weights that were not dropped", rtol=1e-3, atol=1e-4 * (1 + np.abs(want).max()))
        for a, b in zip(dX, dX1):
            ctx.close(a, b, "LSTM:input-gradient", "input gradient with the dropped weights", rtol=1e-3, atol=1e-4 * (1 + np.abs(b).max(initial=0)))
        set_dropout_rate(net, rate)
        m.set_param("LSTM", W)
    frequency(ctx, int((gs[0] & gs[1]).sum()), gs[0].size, rate * rate, "LSTM:between-calls", "dropped in both of two calls")
    ctx.sig(rate, len(X))


@group(15, 800, 10)
def torch_lstm(ctx, rng):
    """PyTorchLSTM: dropout between the layers, as torch's own LSTM applies it."""
    import torch

    rate, depth, bi = float(rng.choice([0.0] + RATES)), int(rng.choice([2, 3])), bool(rng.rand() < 0.5)
    nO, nI = 2 * int(rng.randint(2, 6)), int(rng.randint(1, 5))
    m = T.PyTorchLSTM(nO, nI, bi=bi, depth=depth, dropout=rate)
    m.initialize()
    mod = [n for n in m.walk() if n.shims][0].shims[0]._model
    twin = torch.nn.LSTM(nI, nO // 2 if bi else nO, depth, bidirectional=bi, dropout=rate)
    twin.load_state_dict(mod.state_dict())
    k, n = int(rng.randint(1, 4)), int(rng.randint(2, 7))
    # sequences of one length: bidirectional batches of unequal lengths are a
    # known finding of another property
    X = [nonzero(rng, (n, nI)) for _ in range(k)]
    pad = T.NumpyOps().list2padded(X)
    t = torch.tensor(np.array(pad.data))
    ctx.describe("PyTorchLSTM", rate=rate, depth=depth, bi=bi)

    def back(y):
        return T.NumpyOps().padded2list(Padded(y.detach().numpy(), pad.size_at_t, pad.lengths, pad.indices))

    def same(Y, y, mech, msg):
        for a, b in zip(Y, back(y)):
            ctx.close(a, b, mech, msg, rtol=1e-5, atol=1e-6)

    plain = twin.eval()(t)[0]
    same(m.predict(X), plain, "torch-LSTM:predict", "prediction")
    twin.train()
    for _ in range(2):
        seed = int(rng.randint(2**31))
        torch.manual_seed(seed)
        y = twin(t)[0]
        torch.manual_seed(seed)
        Y, bp = m(X, is_train=True)
        same(Y, y, "torch-LSTM:train", f"training output with dropout {rate}")
        ctx.note("masked" if not torch.allclose(y, plain, atol=1e-6) else "unmasked")
    same(m.predict(X), plain, "torch-LSTM:predict", "prediction after training steps")
    ctx.sig(rate, depth, bi, n, k)


@group(60, 3000, 40)
def masks(ctx, rng):
    """Ops.get_dropout_mask itself."""
    from thinc.api import NumpyOps
    from thinc.backends.ops import Ops

    ops = [NumpyOps(), NumpyOps(use_blis=False), Ops()][rng.randint(3)]
    shape = tuple(int(x) for x in rng.randint(0 if rng.rand() < 0.1 else 1, 14, rng.randint(1, 4)))
    rate = [None, 0.0, -0.5, 1.0, 1.5, *RATES, float(rng.uniform(0, 1))][rng.randint(6 + len(RATES))]
    ctx.describe("get_dropout_mask", shape=shape, rate=rate)
    k = ops.get_dropout_mask(shape, rate)
    ctx.check(k.shape == shape and k.dtype == np.float32, "mask:kind", f"{k.dtype}{k.shape}")
    if rate is None or rate <= 0:
        ctx.check(bool((k == 1).all()), "mask:none", "rate zero drops or scales")
    elif rate >= 1:
        ctx.check(not k.any(), "mask:all", "rate one keeps values")
    else:
        ctx.close(k, np.where(k != 0, 1 / (1 - rate), 0), "mask:values", "mask values", rtol=1e-6)
        big = ops.get_dropout_mask((50, 60), rate)
        frequency(ctx, int((big == 0).sum()), big.size, rate, "mask:frequency", f"rate {rate}")
        for r in (float(rng.uniform(0.002, 0.02)), float(rng.uniform(0.95, 0.999))):
            wide = ops.get_dropout_mask((100, 500), r)
            z = wide == 0
            frequency(ctx, int(z.sum()), z.size, r, "mask:extreme-frequency", f"rate {r}")
            ctx.close(wide[~z], np.full(int((~z).sum()), 1 / (1 - r)), "mask:extreme-values", f"values kept with rate {r}", rtol=1e-5)
        other = ops.get_dropout_mask((50, 60), rate)
        frequency(ctx, int(((big == 0) & (other == 0)).sum()), big.size, rate * rate, "mask:independent", "two draws")
    ctx.sig(shape, rate)
