"""Activation kernels: every activation and derivative of the CPU back ends is
called on arrays of random shape, rank, dtype, memory layout and magnitude
(including zeros, clipping points, saturated and huge values); each element is
compared with an independent float64 definition, and identity/digest monitors
watch which array was written.  Distinct = function, implementation, dtype,
layout, rank, in-place form and magnitude class."""
import math

import numpy as np

from thinc.api import NumpyOps
from thinc.backends.ops import Ops

from vlib.core import group
from vlib.layout import pick

QUICK_X = 8
ASSUMPTIONS = [
    "sigmoid saturates at +-20 by design, so functions built on it may deviate by 2.1e-9*|x|",
    "gelu uses the documented erf approximation (1.5e-7); the gelu_approx derivative uses 6-digit constants",
    "at a kink either one-sided derivative is accepted",
    "magnitudes up to 1e15 in single and double precision (cubes do not overflow the reference)",
]

OPS = [("numpy", NumpyOps()), ("numpy-noblis", NumpyOps(use_blis=False)), ("base", Ops())]
E_ = np.vectorize(math.erf, otypes=["f8"])


def erf(x):
    return E_(x) if x.size else x.astype("f8")


def sig(x):
    with np.errstate(all="ignore"):
        return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softplus(x):
    return np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0)


def clin(x, s, o, lo, hi):
    return np.minimum(np.maximum(x * s + o, lo), hi)


def mish(x, thr):
    return np.where(x >= thr, x, x * np.tanh(softplus(x)))


def dmish(x, thr):
    t = np.tanh(softplus(x))
    return np.where(x >= thr, 1.0, t + x * sig(x) * (1 - t * t))


C = math.sqrt(2 / math.pi)


def gapx(x):
    return 0.5 * x * (1 + np.tanh(C * (x + 0.044715 * x**3)))


def dgapx(x):
    x = np.clip(x, -50, 50)
    t = np.tanh(C * (x + 0.044715 * x**3))
    return 0.5 * (1 + t) + 0.5 * x * (1 - t * t) * C * (1 + 3 * 0.044715 * x**2)


def gelu(x):
    return x * 0.5 * np.where(x < -8, 0, 1 + erf(x / math.sqrt(2)))


def dgelu(x):
    xc = np.clip(x, -60, 60)
    return 0.5 * (1 + erf(x / math.sqrt(2))) + xc * np.exp(-0.5 * xc * xc) / math.sqrt(2 * math.pi)


def hsm(x):
    return x * np.clip(x + 3, 0, 6) / 6


def dishr(x):
    h = np.hypot(x, 1.0)
    return np.where(x < 0, -0.5 * np.abs(x) / (h * (h + np.abs(x))), 0.5 * x * (1 + x / h))


def ddish(x):
    r = x / np.hypot(x, 1.0)
    return r - 0.5 * r**3 + 0.5


def lin_d(s, o, lo, hi):
    def f(x):
        y = x * s + o
        return np.where((y > lo) & (y < hi), s, 0.0)

    return f


# name -> (forward(ops, X, **kw), ref(x), backward(ops, dY, X, Y, **kw) or None,
#          dref(x), slack(x) extra absolute tolerance, kinks)
def table(rng):
    T = {}
    sat = lambda x: 2.1e-9 * (1 + np.abs(x))
    z = lambda x: 0 * x
    T["sigmoid"] = (lambda o, X, **k: o.sigmoid(X, **k), sig, lambda o, d, X, Y, **k: o.backprop_sigmoid(d, Y, **k),
                    lambda x: sig(x) * (1 - sig(x)), lambda x: 2.1e-9 + z(x), [])
    T["relu"] = (lambda o, X, **k: o.relu(X, **k), lambda x: np.maximum(x, 0), lambda o, d, X, Y, **k: o.backprop_relu(d, Y, **k),
                 lambda x: (x > 0) * 1.0, z, [0.0])
    n = float(rng.choice([6.0, 1.0, 2.5]))
    kw = {} if n == 6.0 else {"n": n}
    T["relu_k"] = (lambda o, X, **k: o.relu_k(X, **kw, **k), lambda x: np.clip(x, 0, n),
                   lambda o, d, X, Y, **k: o.backprop_relu_k(d, X, **kw, **k), lambda x: ((x > 0) & (x < n)) * 1.0, z, [0.0, n])
    T["hard_sigmoid"] = (lambda o, X, **k: o.hard_sigmoid(X, **k), lambda x: clin(x, 0.2, 0.5, 0, 1),
                         lambda o, d, X, Y, **k: o.backprop_hard_sigmoid(d, X, **k), lin_d(0.2, 0.5, 0, 1), z, [-2.5, 2.5])
    T["hard_tanh"] = (lambda o, X, **k: o.hard_tanh(X, **k), lambda x: clin(x, 1, 0, -1, 1),
                      lambda o, d, X, Y, **k: o.backprop_hard_tanh(d, X, **k), lin_d(1, 0, -1, 1), z, [-1, 1])
    s = float(rng.choice([1.0, 0.5, -0.7, 2.0, 0.0, -1.5]))
    b = float(rng.choice([0.0, 0.3, -1.0]))
    lo = float(rng.choice([0.0, -1.0, 0.25]))
    hi = lo + float(rng.choice([1.0, 0.5, 4.0]))
    ck = dict(slope=s, offset=b, min_val=lo, max_val=hi)
    if rng.randint(3) == 0:
        ck, s, b, lo, hi = {}, 1.0, 0.0, 0.0, 1.0
    kinks = [] if s == 0 else [(lo - b) / s, (hi - b) / s]
    T["clipped_linear"] = (lambda o, X, **k: o.clipped_linear(X, **ck, **k), lambda x: clin(x, s, b, lo, hi),
                           lambda o, d, X, Y, **k: o.backprop_clipped_linear(d, X, **ck, **k), lin_d(s, b, lo, hi), z, kinks)
    T["swish"] = (lambda o, X, **k: o.swish(X, **k), lambda x: x * sig(x), lambda o, d, X, Y, **k: o.backprop_swish(d, X, Y, **k),
                  lambda x: sig(x) + np.clip(x, -700, 700) * sig(x) * (1 - sig(x)), sat, [])
    T["hard_swish"] = (lambda o, X, **k: o.hard_swish(X, **k), lambda x: x * clin(x, 0.2, 0.5, 0, 1),
                       lambda o, d, X, Y, **k: o.backprop_hard_swish(d, X, **k),
                       lambda x: np.where(x > 2.5, 1, np.where(x < -2.5, 0, 0.4 * x + 0.5)), z, [-2.5, 2.5])
    T["hard_swish_mobilenet"] = (lambda o, X, **k: o.hard_swish_mobilenet(X, **k), hsm,
                                 lambda o, d, X, Y, **k: o.backprop_hard_swish_mobilenet(d, X, **k),
                                 lambda x: np.where(x > 3, 1, np.where(x < -3, 0, (2 * x + 3) / 6)), z, [-3, 3])
    T["dish"] = (lambda o, X, **k: o.dish(X, **k), dishr, lambda o, d, X, Y, **k: o.backprop_dish(d, X, **k), ddish, z, [])
    T["gelu"] = (lambda o, X, **k: o.gelu(X, **k), gelu, lambda o, d, X, Y, **k: o.backprop_gelu(d, X, **k), dgelu,
                 lambda x: 2e-7 * (1 + np.abs(x)), [])
    T["gelu_approx"] = (lambda o, X, **k: o.gelu_approx(X, **k), gapx, lambda o, d, X, Y, **k: o.backprop_gelu_approx(d, X, **k), dgapx,
                        lambda x: 2e-6 + z(x), [])
    thr = float(rng.choice([20.0, 20.0, 5.0, 12.0]))
    mk = {} if thr == 20.0 else {"threshold": thr}
    T["mish"] = (lambda o, X, **k: o.mish(X, **mk, **k), lambda x: mish(x, thr), lambda o, d, X, Y, **k: o.backprop_mish(d, X, **mk, **k),
                 lambda x: dmish(x, thr), z, [thr])
    T["dtanh"] = (lambda o, Y, **k: o.dtanh(Y, **k), lambda y: 1 - y * y, None, None, lambda x: 1e-6 * x * x, [])
    T["dsigmoid"] = (lambda o, Y, **k: o.dsigmoid(Y, **k), lambda y: y * (1 - y), None, None, lambda x: 1e-6 * x * x, [])
    T["erf"] = (lambda o, X: o.erf(X), erf, None, None, lambda x: 2e-7 + z(x), [])
    T["sechsq"] = (lambda o, X: o.sechsq(X), lambda x: 1 / np.cosh(np.clip(x, -300, 300)) ** 2, None, None, z, [])
    return T


SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 3.0, -3.0, 6.0, 20.0, -20.0, 19.99, 20.01, 5.0, 12.0, -20.01, 88.0, -88.0, 90.0, 104.0, -104.0, 710.0, -750.0,
           1e4, -1e4, 1e6, -1e6, 1e-30, -1e-30, 1e9, -1e9, 1e12, -1e12]


def values(rng, shape, dtype, name):
    mag = int(rng.randint(7))
    scale = [0.1, 1.0, 4.0, 12.0, 100.0, 1e4, 1.0][mag]
    x = rng.standard_normal(shape) * scale
    if name in ("dtanh", "dsigmoid"):
        x = np.clip(x, -3, 3)
    elif x.size:
        k = max(1, x.size // 3) if mag == 6 else (1 if rng.randint(2) else 0)
        for _ in range(k):
            x.reshape(-1)[rng.randint(x.size)] = SPECIAL[rng.randint(len(SPECIAL))]
    return x.astype(dtype), mag


def shape_of(rng):
    nd = int(rng.choice([1, 2, 2, 3, 4]))
    sh = tuple(int(v) for v in rng.randint(1, 6, size=nd))
    if rng.randint(15) == 0:
        sh = sh[:-1] + (0,)
    if rng.randint(10) == 0:
        sh = (int(rng.randint(30, 200)),) + sh[1:]
    return sh


def tolerance(ref, x, slack, dtype):
    eps = 1.2e-7 if dtype == np.float32 else 2.3e-16
    return 40 * eps * np.abs(ref) + 8 * eps * (1 + np.abs(x)) + slack(x)


NAMES = ["sigmoid", "relu", "relu_k", "hard_sigmoid", "hard_tanh", "clipped_linear", "swish", "hard_swish", "hard_swish_mobilenet",
         "dish", "gelu", "gelu_approx", "mish", "dtanh", "dsigmoid", "erf", "sechsq"]


def cmp(ctx, got, ref, tol, mech, msg, x):
    g = np.asarray(got, dtype="f8")
    if g.shape != ref.shape:
        return ctx.check(False, mech + ":shape", f"{msg} {g.shape} {ref.shape}")
    with np.errstate(all="ignore"):
        ok = np.abs(g - ref) <= tol
    if ok.all():
        return ctx.check(True, mech)
    i = tuple(int(v) for v in np.argwhere(~ok)[0])
    return ctx.check(False, mech, f"{msg}: at x={x[i]!r} got {g[i]!r} want {ref[i]!r} (tolerance {tol[i] if np.ndim(tol) else tol:.3g})")


@group(1200, 60000, min_obs=5000)
def forward(ctx, rng):
    name = NAMES[rng.randint(len(NAMES))]
    f, ref, _, _, slack, _ = table(rng)[name]
    iname, ops = OPS[rng.randint(len(OPS))]
    dtype = np.float32 if rng.randint(3) else np.float64
    x, mag = values(rng, shape_of(rng), dtype, name)
    X, how = pick(rng, x)
    ctx.describe(name, impl=iname, dtype=dtype.__name__, layout=how, shape=x.shape)
    x8 = x.astype("f8")
    with np.errstate(all="ignore"):
        want = ref(x8)
        tol = tolerance(want, x8, slack, dtype)
        Y = f(ops, X)
    tag = f"{iname}.{name}({dtype.__name__},{how})"
    cmp(ctx, Y, want, tol, f"value:{name}", tag, x)
    ctx.check(Y.dtype == x.dtype, f"dtype:{name}", f"{tag} -> {Y.dtype}")
    ctx.check(np.array_equal(X, x), f"argument-modified:{name}", tag)
    ctx.check(Y is not X and (X.size == 0 or not np.shares_memory(X, Y)), f"result-aliases-argument:{name}", tag)
    inpl = name not in ("erf", "sechsq")
    if inpl:
        X2, how2 = pick(rng, x)
        with np.errstate(all="ignore"):
            Z = f(ops, X2, inplace=True)
        tag = f"{iname}.{name}({dtype.__name__},{how2},inplace)"
        cmp(ctx, Z, want, tol, f"inplace-value:{name}", tag, x)
        cmp(ctx, X2, want, tol, f"inplace-not-in-argument:{name}", tag, x)
        ctx.check(Z.dtype == x.dtype, f"dtype:{name}", f"{tag} -> {Z.dtype}")
    ctx.note("elements_compared", x.size)
    ctx.sig(name, iname, dtype.__name__, how, x.ndim, mag)


@group(1200, 60000, min_obs=5000)
def backward(ctx, rng):
    names = NAMES[:13]
    name = names[rng.randint(len(names))]
    f, ref, b, dref, slack, kinks = table(rng)[name]
    iname, ops = OPS[rng.randint(len(OPS))]
    dtype = np.float32 if rng.randint(3) else np.float64
    x, mag = values(rng, shape_of(rng), dtype, name)
    dy = (rng.standard_normal(x.shape) * float(rng.choice([1, 1, 0.01, 100]))).astype(dtype)
    X, hx = pick(rng, x)
    dY, hd = pick(rng, dy)
    x8 = x.astype("f8")
    with np.errstate(all="ignore"):
        y = f(ops, x.copy())
        Y, hy = pick(rng, y)
        y0 = np.array(Y)
        d = dref(x8)
        g = b(ops, dY, X, Y)
    ctx.describe(name, impl=iname, dtype=dtype.__name__, layouts=(hx, hd, hy), shape=x.shape)
    d8 = dy.astype("f8")
    # derivatives from a rounded forward value: error eps * |second derivative scale|
    base = tolerance(np.abs(d) + 1, x8 if name in ("swish",) else np.clip(x8, -50, 50), slack, dtype)
    tol = base * np.abs(d8) + 1e-38
    want = d * d8
    with np.errstate(all="ignore"):
        bad_kink = np.zeros(x.shape, bool)
        for k in kinks:
            near = np.abs(x8 - k) <= 1e-5 * (1 + abs(k))
            e = 1e-3 * (1 + abs(k))
            l, r = dref(np.float64(k - e)) * d8, dref(np.float64(k + e)) * d8
            okl = np.abs(np.asarray(g, "f8") - l) <= 4e-3 * np.abs(d8) + 1e-30
            okr = np.abs(np.asarray(g, "f8") - r) <= 4e-3 * np.abs(d8) + 1e-30
            bad_kink |= near & ~(okl | okr)
            want = np.where(near, np.asarray(g, "f8"), want)
    tag = f"{iname}.backprop_{name}({dtype.__name__},{hx}/{hd}/{hy})"
    ctx.check(not bad_kink.any(), f"kink:{name}", f"{tag} at {x[bad_kink][:3]}")
    cmp(ctx, g, want, tol, f"derivative:{name}", tag, x)
    ctx.check(g.dtype == dy.dtype, f"derivative-dtype:{name}", f"{tag} -> {g.dtype}")
    ctx.check(np.array_equal(X, x) and np.array_equal(dY, dy) and np.array_equal(Y, y0, equal_nan=True), f"backprop-modifies-argument:{name}", tag)
    ctx.check(g.size == 0 or not (np.shares_memory(g, dY) or np.shares_memory(g, X) or np.shares_memory(g, Y)), f"backprop-aliases:{name}", tag)
    dY2, hd2 = pick(rng, dy)
    with np.errstate(all="ignore"):
        h = b(ops, dY2, X, Y, inplace=True)
    tag = f"{iname}.backprop_{name}({dtype.__name__},{hx}/{hd2}/{hy},inplace)"
    keep = np.asarray(g, "f8")
    # vectorised and scalar loops may round differently where terms cancel
    slack = 1e-5 * np.abs(keep) + 1e-5 * np.abs(d8) + 1e-30
    for arr, mech in ((h, "inplace-derivative"), (dY2, "inplace-not-in-dY")):
        arr = np.asarray(arr, "f8")
        with np.errstate(all="ignore"):
            ok = (np.abs(arr - keep) <= slack) | (arr == keep) | (np.isnan(arr) & np.isnan(keep))
        ctx.check(arr.shape == keep.shape and ok.all(), f"{mech}:{name}", tag)
    ctx.check(np.array_equal(X, x) and np.array_equal(Y, y0, equal_nan=True), f"inplace-backprop-modifies-X-or-Y:{name}", tag)
    ctx.note("derivatives_compared", x.size)
    ctx.sig(name, iname, dtype.__name__, hx, hd, hy, x.ndim, mag)


@group(200, 8000, min_obs=800)
def implementations_agree(ctx, rng):
    """Same values whatever implementation, layout and rank."""
    name = NAMES[rng.randint(len(NAMES))]
    f = table(rng)[name][0]
    dtype = np.float32 if rng.randint(3) else np.float64
    x, mag = values(rng, shape_of(rng), dtype, name)
    ctx.describe(name, dtype=dtype.__name__, shape=x.shape)
    eps = 1.2e-7 if dtype == np.float32 else 2.3e-16
    with np.errstate(all="ignore"):
        base = f(OPS[0][1], x.copy())
        for iname, ops in OPS:
            X, how = pick(rng, x, 0.2)
            if rng.randint(2):
                y = f(ops, X)
            else:
                y = f(ops, X.reshape(-1)).reshape(x.shape)
            ok = np.abs(y.astype("f8") - base) <= 40 * eps * np.abs(base) + 8 * eps * (1 + np.abs(x))
            ctx.check(ok.all(), f"implementations-differ:{name}", f"{iname} {how} {x[~ok][:3]} {y[~ok][:3]} {base[~ok][:3]}")
    ctx.sig(name, mag, x.shape)


@group(60, 600, min_obs=100)
def refusals(ctx, rng):
    o = OPS[0][1]
    a, b = rng.standard_normal((3, 4)).astype("f"), rng.standard_normal((4, 4)).astype("f")
    ctx.raises(lambda: o.backprop_relu(a, b), "mismatched-accepted:relu", "", ValueError)
    ctx.raises(lambda: o.backprop_mish(a, b), "mismatched-accepted:mish", "", ValueError)
    ctx.describe("mismatch")
    ctx.sig(0)
