"""Losses: random batches in every truth format are given to each loss; an
element-by-element float64 oracle computes target, mask, gradient and loss from
the documented definition, with missing, negated and smoothed labels, and
watches that guesses and truths stay as they were.  Distinct = loss, settings,
truth format, shapes."""
import math

import numpy as np

from thinc.api import (
    CategoricalCrossentropy,
    CosineDistance,
    L2Distance,
    SequenceCategoricalCrossentropy,
    registry,
    to_categorical,
)

from vlib import cont
from vlib.core import group

QUICK_X = 20
TOL = dict(rtol=1e-4, atol=1e-6)
ASSUMPTIONS = [
    "the documented loss value of the crossentropy is the sum of the squared gradient; of L2 the sum of squared (normalised) differences",
    "cosine adds 1e-8 to every element, as documented in the code, so similarities of tiny vectors are not exercised",
    "negative integer labels are not exercised except as the missing value",
]
NAMES = ["A", "B", "C", "D", "E", *[f"L{i}" for i in range(5, 330)]]
TRICKY = ["!a", "a!", "not", "_not", "t_one", "on", "~x", "x~~", "a", "x", "not_x"]


def guesses(rng, n, c, dtype="f4"):
    g = rng.uniform(0, 1, (n, c))
    if n and rng.randint(3) == 0:
        g.reshape(-1)[rng.randint(g.size)] = float(rng.randint(2))
    if rng.randint(3) == 0:
        g = g / np.maximum(g.sum(axis=1, keepdims=True), 1e-9)
    return g.astype(dtype)


def digest(x):
    if isinstance(x, np.ndarray):
        return cont.digest(x)
    if isinstance(x, list) and x and isinstance(x[0], (np.ndarray, list)):
        return [digest(y) for y in x]
    return repr(x)


class Spec:
    """Random settings and truths, with target and mask computed by hand."""

    def __init__(self, rng, n, c, fmt, seq=False, force=None):
        self.c = c
        self.kw = kw = {}
        if force is not None:
            kw.update(force)
        else:
            if rng.randint(2):
                kw["normalize"] = bool(rng.randint(2))
            if rng.randint(2) or fmt == "names":
                kw["names"] = NAMES[:c]
                if fmt == "names" and c <= len(TRICKY) and rng.randint(3) == 0:
                    # labels made of the characters of the negation prefixes
                    kw["names"] = [str(x) for x in rng.permutation(TRICKY)[:c]]
            if rng.randint(2):
                kw["missing_value"] = (["", "?", kw.get("names", NAMES)[rng.randint(c)]] if fmt == "names" else [0, c - 1, -1])[rng.randint(3)]
                if fmt in ("onehot", "soft") and kw["missing_value"] == -1:
                    kw["missing_value"] = 0
            if fmt == "names" and rng.randint(2):
                kw["neg_prefix"] = ["!", "not_", "~~"][rng.randint(3)]
            if fmt in ("names", "list", "array", "npints") and c > 1 and rng.randint(3) == 0:
                kw["label_smoothing"] = float(rng.choice([0.01, 0.1, 0.3])) * (c - 1) / c
        self.fmt = fmt

    def truths(self, rng, n):
        """-> truths, target [n,c] float64, mask [n,c]"""
        c, kw, fmt = self.c, self.kw, self.fmt
        eps = kw.get("label_smoothing", 0.0)
        missing = kw.get("missing_value")
        target = np.zeros((n, c))
        mask = np.ones((n, c))
        out = []
        if fmt in ("onehot", "soft"):
            t = np.zeros((n, c), "f4")
            if fmt == "onehot":
                t[np.arange(n), rng.randint(0, c, n)] = 1
            else:
                t[:] = rng.uniform(0, 1, (n, c))
            for i in range(n):
                if missing is not None and int(np.argmax(t[i])) == missing:
                    mask[i] = 0
            return t, t.astype("f8"), mask
        for i in range(n):
            y = int(rng.randint(c))
            neg = False
            if fmt == "names":
                lab = kw["names"][y]
                if rng.randint(4) == 0 and (missing is not None):
                    lab = missing
                elif missing is None and rng.randint(5) == 0:
                    lab = None
                elif kw.get("neg_prefix") and (rng.randint(2) or lab.startswith(kw["neg_prefix"])):
                    neg = True
                    lab = kw["neg_prefix"] + lab
                if lab == missing:
                    mask[i] = 0
                    neg = False
            else:
                lab = y
                if missing is not None and rng.randint(3) == 0:
                    lab = missing
                if missing is not None and lab == missing:
                    mask[i] = 0
            out.append(lab)
            if neg:
                mask[i] = 0
                mask[i, y] = 1
                target[i, y] = 0
            else:
                target[i] = eps / (c - 1) if eps else 0.0
                target[i, y] = 1 - eps
        if fmt == "array":
            out = np.array(out, dtype=["i4", "i8", "i4"][rng.randint(3)])
        return out, target, mask


FORMATS = ["names", "list", "array", "onehot", "soft"]


def pick(rng):
    n = int(rng.choice([0, 1, 2, 3, 7]))
    c = int(rng.randint(1, 6))
    if rng.randint(40) == 0:
        n, c = [(70, c), (300, c), (3, 70), (2, 140), (4, 260), (140, 130)][rng.randint(6)]
    return n, c, FORMATS[rng.randint(len(FORMATS))]


def observe(ctx, loss, g, t, want_grad, want_loss, mech):
    """All three entry points, in random order of observation."""
    dg, dt = digest(g), digest(t)
    grad = loss.get_grad(g, t)
    val = loss.get_loss(g, t)
    both = loss(g, t)
    again = loss.get_grad(g, t)
    ctx.check(digest(g) == dg, mech + ":guesses", "guesses were modified")
    ctx.check(digest(t) == dt, mech + ":truths", f"truths were modified: {t!r}"[:300])
    seq = isinstance(g, list)
    for got in (grad, both[0], again):
        if seq:
            ctx.check(len(got) == len(want_grad), mech + ":grad", "number of items")
            for a, b, w in zip(got, g, want_grad):
                ctx.check(a.shape == b.shape, mech + ":grad", "shape")
                ctx.close(a, w, mech + ":grad", "gradient", **TOL)
        else:
            ctx.check(got.shape == g.shape, mech + ":grad", "shape")
            ctx.close(got, want_grad, mech + ":grad", "gradient", **TOL)
    ctx.close(val, want_loss, mech + ":loss", "loss", **TOL)
    ctx.close(both[1], want_loss, mech + ":loss", "loss of __call__", **TOL)
    ctx.check(np.ndim(val) == 0 and math.isfinite(float(val)), mech + ":loss", "loss is not a finite scalar")


@group(300, 6000, min_obs=600)
def crossentropy(ctx, rng):
    n, c, fmt = pick(rng)
    spec = Spec(rng, n, c, fmt)
    t, target, mask = spec.truths(rng, n)
    g = guesses(rng, n, c, ["f4", "f4", "f8"][rng.randint(3)])
    ctx.describe("CategoricalCrossentropy", n=n, c=c, format=fmt, truths=repr(t), **spec.kw)
    how = rng.randint(2)
    if how:
        kw = dict(spec.kw)
        v = "v3" if "label_smoothing" in kw else ("v2" if "neg_prefix" in kw else ["v1", "v2", "v3"][rng.randint(3)])
        loss = registry.resolve({"l": {"@losses": f"CategoricalCrossentropy.{v}", **kw}})["l"]
    else:
        loss = CategoricalCrossentropy(**spec.kw)
    want = (g.astype("f8") - target) * mask
    if spec.kw.get("normalize", True) and n:
        want = want / n
    observe(ctx, loss, g, t, want, float((want**2).sum()), "cce")
    # items whose mask is zero do not contribute
    for i in range(n):
        if not mask[i].any():
            g2 = g.copy()
            g2[i] = rng.uniform(0, 1, c)
            ctx.close(loss.get_loss(g2, t), float((want**2).sum()), "cce:missing", "a missing item changed the loss", **TOL)
            ctx.check(not loss.get_grad(g2, t)[i].any(), "cce:missing", "a missing item has a gradient")
            break
    ctx.sig(fmt, n, c, tuple(sorted((k, str(v)) for k, v in spec.kw.items())))


@group(200, 4000, min_obs=400)
def sequence_crossentropy(ctx, rng):
    c = int(rng.randint(1, 6)) if rng.randint(40) else int(rng.choice([70, 140, 260]))
    fmt = FORMATS[rng.randint(len(FORMATS))]
    spec = Spec(rng, 0, c, fmt)
    k = int(rng.choice([1, 2, 3, 5]))
    G, T, W = [], [], []
    norm = spec.kw.get("normalize", True)
    for _ in range(k):
        n = int(rng.choice([0, 1, 2, 4]))
        t, target, mask = spec.truths(rng, n)
        g = guesses(rng, n, c)
        G.append(g)
        T.append(t)
        w = (g.astype("f8") - target) * mask
        W.append(w / k if norm else w)
    ctx.describe("SequenceCategoricalCrossentropy", k=k, c=c, format=fmt, truths=repr(T), **spec.kw)
    loss = SequenceCategoricalCrossentropy(**spec.kw)
    if rng.randint(3) == 0:
        loss = registry.resolve({"l": {"@losses": "SequenceCategoricalCrossentropy.v3", **spec.kw}})["l"]
    observe(ctx, loss, G, T, W, sum(float((w**2).sum()) for w in W), "scce")
    # equals the losses of the items
    single = CategoricalCrossentropy(**{**spec.kw, "normalize": False})
    for g, t, d in zip(G, T, loss.get_grad(G, T)):
        ctx.close(d, single.get_grad(g, t) / (k if norm else 1), "scce:items", "item gradient", **TOL)
    ctx.sig(fmt, k, c, tuple(sorted((a, str(v)) for a, v in spec.kw.items())))


@group(150, 3000, min_obs=300)
def distances(ctx, rng):
    n, w = int(rng.choice([1, 2, 3, 6])), int(rng.randint(1, 6))
    dt = ["f4", "f8"][rng.randint(2)]
    s = float(rng.choice([0.1, 1, 10]))
    g = (rng.standard_normal((n, w)) * s).astype(dt)
    t = (rng.standard_normal((n, w)) * s).astype(dt)
    if rng.randint(4) == 0:
        t = g.copy()
    if rng.randint(4) == 0:
        t = -g
    norm = bool(rng.randint(2))
    ctx.describe("L2", n=n, w=w, normalize=norm)
    want = (g.astype("f8") - t) / (n if norm else 1)
    L2 = L2Distance(normalize=norm) if rng.randint(2) else registry.resolve({"l": {"@losses": "L2Distance.v1", "normalize": norm}})["l"]
    observe(ctx, L2, g, t, want, float((want**2).sum()), "l2")
    # cosine
    iz = bool(rng.randint(2))
    zero = np.zeros(n, bool)
    if iz and rng.randint(2):
        zero[rng.randint(n)] = True
        t = t.copy()
        t[zero] = 0
        if rng.randint(3) == 0:
            t[zero] = -0.0
    elif iz and w > 1 and rng.randint(3) == 0:  # entries that cancel are no zero vector
        t = t.copy()
        t[rng.randint(n)] = np.resize(np.array([1, -1], dt), w) if w % 2 == 0 else np.concatenate([np.resize(np.array([1, -1], dt), w - 1), [0]])
    ctx.describe("cosine", n=n, w=w, normalize=norm, ignore_zeros=iz, zero=zero.tolist())
    C = CosineDistance(normalize=norm, ignore_zeros=iz) if rng.randint(2) else registry.resolve({"l": {"@losses": "CosineDistance.v1", "normalize": norm, "ignore_zeros": iz}})["l"]
    G, T = g.astype("f8") + 1e-8, t.astype("f8") + 1e-8
    loss, grad = 0.0, np.zeros((n, w))
    for i in range(n):
        if zero[i]:
            continue
        a, b = G[i], T[i]
        na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
        cos = sum(x * y for x, y in zip(a, b)) / (na * nb)
        loss += abs(1 - cos)
        grad[i] = -(b / (na * nb) - cos * a / na**2)
    if norm:
        loss, grad = loss / n, grad / n
    # the gradient cancels: its rounding error scales with 1 / |guess|
    unit = 1.0 / np.maximum(np.linalg.norm(G, axis=1, keepdims=True), 1e-6)
    if norm:
        unit = unit / n
    dg, dtt = digest(g), digest(t)
    for got in (C.get_grad(g, t), C(g, t)[0]):
        ctx.close(got / unit, grad / unit, "cosine:grad", "gradient times norm", rtol=1e-3, atol=1e-5)
    for got in (C.get_loss(g, t), C(g, t)[1]):
        ctx.close(got, loss, "cosine:loss", "loss", rtol=1e-4, atol=1e-5)
    ctx.check(digest(g) == dg and digest(t) == dtt, "cosine:mutates", "inputs were modified")
    # the gradient is the derivative of the loss (float64, finite difference)
    if dt == "f8" and w > 1 and not np.allclose(np.abs(g), np.abs(t)):
        i, j = int(rng.randint(n)), int(rng.randint(w))
        e = 1e-6 * s
        p, m = g.copy(), g.copy()
        p[i, j] += e
        m[i, j] -= e
        num = (C.get_loss(p, t) - C.get_loss(m, t)) / (2 * e)
        ctx.close(C.get_grad(g, t)[i, j], num, "cosine:derivative", "gradient is not the derivative of the loss", rtol=1e-3, atol=1e-5 / s)
    ctx.sig(n, w, dt, norm, iz, tuple(zero))


@group(100, 2000, min_obs=200)
def categorical(ctx, rng):
    """to_categorical: rows of the (smoothed) identity, for any index shape."""
    c = int(rng.randint(1, 7)) if rng.randint(20) else int(rng.choice([127, 128, 129, 200, 255, 256, 257, 300]))
    shape = tuple(int(rng.randint(0, 4)) for _ in range(int(rng.randint(1, 4))))
    Y = rng.randint(0, c, shape).astype(["i4", "i8", "u8"][rng.randint(3)])
    eps = 0.0
    if c > 1 and rng.randint(2):
        eps = float(rng.rand() * 0.98) * (c - 1) / c
    infer = Y.size > 0 and bool(rng.randint(2))
    k = int(Y.max()) + 1 if infer else c
    if infer and (k == 1 or eps >= (k - 1) / k):
        eps = 0.0
    ctx.describe("to_categorical", shape=shape, n=k, smoothing=eps, infer=infer)
    out = to_categorical(Y, label_smoothing=eps) if infer else to_categorical(Y, c, label_smoothing=eps)
    ctx.check(out.shape == shape + (k,), "categorical", f"shape {out.shape}")
    want = np.full(shape + (k,), eps / (k - 1) if eps else 0.0)
    for idx in np.ndindex(*shape):
        want[idx + (int(Y[idx]),)] = 1 - eps
    ctx.close(out, want, "categorical", "rows", rtol=1e-6, atol=1e-7)
    # fresh result: writing into it does not affect the next
    if out.size:
        out += 5
        ctx.close(to_categorical(Y, k, label_smoothing=eps), want, "categorical:alias", "rows", rtol=1e-6, atol=1e-7)
    ctx.raises(lambda: to_categorical(Y, c, label_smoothing=-0.1), "categorical:refuse", "negative smoothing", ValueError)
    ctx.raises(lambda: to_categorical(Y, c + 1, label_smoothing=c / (c + 1) + 1e-6), "categorical:refuse", "smoothing too large", ValueError)
    ctx.raises(lambda: to_categorical(Y, 1, label_smoothing=0.1), "categorical:refuse", "smoothing with one class", ValueError)
    ctx.sig(shape, c, round(eps, 3))


@group(60, 600, min_obs=200)
def refusals(ctx, rng):
    n, c = int(rng.randint(1, 5)), int(rng.randint(2, 6))
    g = guesses(rng, n, c)
    t = rng.randint(0, c, n).astype("i")
    cce = CategoricalCrossentropy()
    ctx.describe("refused", n=n, c=c)
    calls = lambda loss, a, b: (lambda: loss.get_grad(a, b), lambda: loss.get_loss(a, b), lambda: loss(a, b))
    bad_g = g.copy()
    bad_g[rng.randint(n), rng.randint(c)] = [1.5, -0.1][rng.randint(2)]
    oh = np.eye(c, dtype="f")[t]
    bad_t = oh.copy()
    bad_t[rng.randint(n), rng.randint(c)] = [1.5, -0.5][rng.randint(2)]
    too_big = t.copy()
    too_big[rng.randint(n)] = c + rng.randint(3)
    named = CategoricalCrossentropy(names=NAMES[:c])
    cases = [
        (cce, bad_g, t, "guesses outside [0, 1]"),
        (cce, g, bad_t, "truths outside [0, 1]"),
        (cce, g, np.concatenate([oh, oh]), "more truths than guesses"),
        (cce, g, np.concatenate([t, t]), "more labels than guesses"),
        (cce, g, oh[:, :-1], "fewer classes"),
        (cce, g, too_big, "label out of range"),
        (cce, g, [int(x) for x in too_big], "label out of range"),
        (cce, g, ["A"] * n, "names without a list of names"),
        (named, g, ["Z"] * n, "unknown name"),
        (CategoricalCrossentropy(label_smoothing=0.1), g, oh, "smoothing of arrays"),
        (CategoricalCrossentropy(label_smoothing=0.99), g, t, "smoothing too large"),
        (L2Distance(), g, np.concatenate([g, g]), "shapes differ"),
        (L2Distance(), g, g[:, :-1], "shapes differ"),
        (CosineDistance(), g, g[:, :-1], "shapes differ"),
        (CosineDistance(), g, np.concatenate([g, g]), "shapes differ"),
        (SequenceCategoricalCrossentropy(), [g], [t, t], "number of sequences"),
        (SequenceCategoricalCrossentropy(), [g, g], [t], "number of sequences"),
    ]
    for loss, a, b, why in cases:
        for f in calls(loss, a, b):
            ctx.raises(f, "refuse:" + type(loss).__name__, why, (ValueError, KeyError, IndexError))
    ctx.raises(lambda: CosineDistance().get_similarity(g, g[:, :-1]), "refuse:similarity", "shapes differ", ValueError)
    ctx.sig(n, c)
