"""Structured array operations: each call of the CPU back ends is observed by
an element-by-element float64 reference (loops over rows, sequences and
windows), for random shapes including empty ones, ties, extreme values, memory
layouts, dtypes and caller-supplied outputs; backward forms are also checked
with the adjoint identity.  Distinct = operation, implementation, dtype,
layout, shape signature."""
import math

import numpy as np

from thinc.api import NumpyOps
from thinc.backends.ops import Ops

from vlib import cont
from vlib.core import group
from vlib.hashref import murmur3_128_u64, murmur64a
from vlib.layout import pick, relayout

QUICK_X = 4
ASSUMPTIONS = [
    "kernels with C-contiguous signatures may refuse other layouts/dtypes with ValueError or TypeError, but may not return another result",
    "scatter_add with negative indices is not exercised (the float32 kernel skips them)",
    "sigmoid clips at +-20 as documented",
    "the generic Ops implementation of window extraction is documented as a test implementation (window 1 only)",
]
OPS = [("numpy", NumpyOps()), ("numpy-noblis", NumpyOps(use_blis=False)), ("base", Ops())]
REFUSE = (ValueError, TypeError)


def imp(rng):
    return OPS[rng.randint(len(OPS))]


def dt(rng):
    return np.float32 if rng.randint(3) else np.float64


def tol(dtype):
    return dict(rtol=3e-5, atol=1e-5) if dtype == np.float32 else dict(rtol=1e-9, atol=1e-10)


def arr(rng, shape, dtype, scale=None):
    s = scale or float(rng.choice([0.1, 1, 1, 5]))
    a = rng.standard_normal(shape) * s
    if a.size and rng.randint(4) == 0:
        a.reshape(-1)[rng.randint(a.size)] = 0
    if rng.randint(4) == 0:
        a = np.round(a)  # ties
    return a.astype(dtype)


def attempt(ctx, fn, contiguous, mech):
    """Run; a refusal is fine for arguments the kernels do not take."""
    try:
        return fn()
    except REFUSE:
        if contiguous:
            raise
        ctx.check(True, mech + ":refused")
        ctx.note("refused_layouts")
        return None


def dim(rng, lo=0, hi=6):
    return int(rng.randint(lo, hi + 1))


@group(500, 20000, min_obs=1000)
def gemm(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    big = rng.randint(12) == 0
    M, K, N = [dim(rng, 0 if rng.randint(5) == 0 else 1, 70 if big else 6) for _ in range(3)]
    t1, t2 = bool(rng.randint(2)), bool(rng.randint(2))
    a, b = arr(rng, (M, K), d), arr(rng, (K, N), d)
    A, la = pick(rng, a.T if t1 else a)
    B, lb = pick(rng, b.T if t2 else b)
    A0, B0 = A.copy(), B.copy()
    want = (a.astype("f8")[:, :, None] * b.astype("f8")[None]).sum(1) if K else np.zeros((M, N))
    kw = {}
    if t1 or rng.randint(2):
        kw["trans1"] = t1
    if t2 or rng.randint(2):
        kw["trans2"] = t2
    t = dict(rtol=1e-4, atol=2e-4 if d == np.float32 else 1e-9)
    ctx.describe(name, dims=(M, K, N), t=(t1, t2), layouts=(la, lb), dtype=d.__name__)
    Y = ops.gemm(A, B, **kw)
    ctx.close(Y, want, "gemm", f"{name} {M}x{K}x{N} {t1}{t2} {la}{lb}", **t)
    ctx.check(Y.dtype == d, "gemm-dtype", Y.dtype)
    ctx.check(np.array_equal(A, A0) and np.array_equal(B, B0), "gemm-modifies-arguments")
    out, lo = pick(rng, np.full((M, N), 3, dtype=d))
    try:
        R = ops.gemm(A, B, out=out, **kw)
    except REFUSE:
        ctx.check(lo != "c", "gemm-out-refused", f"{name} {lo} {M}x{K}x{N}")
    else:
        ctx.check(R is out or (out.size == 0), "gemm-out-not-returned", name)
        ctx.close(out, want, "gemm-out", f"{name} {M}x{K}x{N} out {lo}", **t)
    ctx.raises(lambda: ops.gemm(arr(rng, (2, 3), d), arr(rng, (4, 5), d)), "gemm-mismatch-accepted", name, ValueError)
    bad = np.zeros((M + 1, N), dtype=d)
    ctx.raises(lambda: ops.gemm(A, B, out=bad, **kw), "gemm-bad-out-accepted", name, ValueError)
    # affine
    X, W, bias = arr(rng, (M, K), d), arr(rng, (N, K), d), arr(rng, (N,), d)
    Xl, lx = pick(rng, X)
    Wl, lw = pick(rng, W)
    Y = ops.affine(Xl, Wl, bias)
    want = np.zeros((M, N))
    for i in range(M):
        for j in range(N):
            want[i, j] = float(np.dot(X[i].astype("f8"), W[j].astype("f8"))) + float(bias[j])
    ctx.close(Y, want, "affine", f"{name} {lx}{lw}", **t)
    ctx.check(np.array_equal(X, Xl) and np.array_equal(W, Wl), "affine-modifies-arguments")
    ctx.sig(name, d.__name__, t1, t2, la, lb, lo, M == 0, K == 0, N == 0, big)


def softmax_ref(x, axis, T):
    x = x.astype("f8") / T
    x = x - x.max(axis=axis, keepdims=True)
    e = np.exp(x)
    return e / e.sum(axis=axis, keepdims=True)


@group(400, 15000, min_obs=1500)
def softmax(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    nd = dim(rng, 1, 3)
    sh = tuple(dim(rng, 1, 6) for _ in range(nd))
    if rng.randint(10) == 0 and nd > 1:
        sh = (0,) + sh[1:]
    x = arr(rng, sh, d, float(rng.choice([0.1, 1, 5, 100, 1e4, 1e30])))
    if d == np.float32:
        x = np.clip(x, -1e30, 1e30)
    axis = int(rng.randint(-nd, nd))
    T = float(rng.choice([1.0, 1.0, 2.0, 0.5, 0.1, 10, 0.03]))
    kw = {}
    if axis != -1 or rng.randint(2):
        kw["axis"] = axis
    if T != 1.0 or rng.randint(2):
        kw["temperature"] = T
    if sh[0] == 0:
        axis, kw = -1, {k: v for k, v in kw.items() if k != "axis"}
    X, l = pick(rng, x)
    ctx.describe(name, shape=sh, axis=axis, T=T, layout=l)
    want = softmax_ref(x, axis, T)
    ext = float(np.abs(x).max()) if x.size else 0
    t = dict(rtol=3e-5 * max(1, min(ext / T, 1e3)), atol=1e-6) if d == np.float32 else dict(rtol=1e-8, atol=1e-9)
    if d == np.float32 and ext / T > 1e3:
        t["atol"] = 1e-4 if len(np.unique(np.sort(x, axis=axis))) else 1e-4
    Y = ops.softmax(X, **kw)
    ctx.close(Y, want, "softmax", f"{name} {sh} axis {axis} T {T} {l}", **t)
    ctx.check(Y.dtype == d, "softmax-dtype", f"{Y.dtype}")
    ctx.check(np.array_equal(X, x), "softmax-modifies-argument")
    X2, l2 = pick(rng, x)
    Z = ops.softmax(X2, inplace=True, **kw)
    ctx.close(Z, want, "softmax-inplace", f"{name} {l2}", **t)
    ctx.close(X2, want, "softmax-not-in-argument", f"{name} {l2}", **t)
    if x.size:
        s = np.asarray(Y, "f8").sum(axis=axis)
        ctx.close(s, np.ones_like(s), "softmax-sum", name, rtol=1e-5, atol=1e-5)
    y = want.astype(d)
    dy = arr(rng, sh, d)
    Yl, ly = pick(rng, y)
    dYl, ldy = pick(rng, dy)
    g = ops.backprop_softmax(Yl, dYl, **kw)
    y8, d8 = y.astype("f8"), dy.astype("f8")
    wantg = (y8 * d8 - y8 * (y8 * d8).sum(axis=axis, keepdims=True)) / T
    ctx.close(g, wantg, "backprop_softmax", f"{name} {sh} axis {axis} T {T}", rtol=1e-4, atol=1e-5 * max(1, 1 / T) * (np.abs(dy).max() if dy.size else 1))
    ctx.check(np.array_equal(Yl, y) and np.array_equal(dYl, dy), "backprop_softmax-modifies", name)
    ctx.sig(name, d.__name__, nd, axis, T, l, l2)


@group(300, 12000, min_obs=900)
def softmax_sequences(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    ls = cont.rand_lengths(rng)
    O = dim(rng, 1, 4)
    x = arr(rng, (int(ls.sum()), O), d, float(rng.choice([0.5, 3, 15, 60, 1e4])))
    ctx.describe(name, lengths=ls, O=O, dtype=d.__name__)
    X = x.copy()
    lens = ls.copy()
    Y = ops.softmax_sequences(X, lens)
    want = np.zeros(x.shape)
    i = 0
    xc = x.astype("f8")
    for n in ls:
        if n:
            want[i : i + n] = softmax_ref(xc[i : i + n], 0, 1.0)
        i += n
    t = dict(rtol=1e-4, atol=1e-6) if d == np.float32 else dict(rtol=1e-8, atol=1e-10)
    ctx.close(Y, want, "softmax_sequences", f"{name} {ls}", **t)
    ctx.check(np.array_equal(X, x) and np.array_equal(lens, ls), "softmax_sequences-modifies")
    X2 = x.copy()
    Z = ops.softmax_sequences(X2, ls, inplace=True)
    ctx.close(Z, want, "softmax_sequences-inplace", **t)
    ctx.close(X2, want, "softmax_sequences-not-in-argument", **t)
    dy = arr(rng, x.shape, d)
    y = want.astype(d)
    dY, Yc = dy.copy(), y.copy()
    g = ops.backprop_softmax_sequences(dY, Yc, ls)
    wg = np.zeros(x.shape)
    i = 0
    for n in ls:
        a, b = y[i : i + n].astype("f8"), dy[i : i + n].astype("f8")
        wg[i : i + n] = a * b - a * (a * b).sum(0, keepdims=True)
        i += n
    ctx.close(g, wg, "backprop_softmax_sequences", f"{name} {ls}", rtol=1e-4, atol=2e-5)
    ctx.check(np.array_equal(dY, dy) and np.array_equal(Yc, y), "backprop_softmax_sequences-modifies")
    ctx.sig(name, d.__name__, tuple(ls), O)


@group(300, 12000, min_obs=900)
def maxout(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    B, O, P = dim(rng, 0 if rng.randint(6) == 0 else 1), dim(rng, 0 if rng.randint(9) == 0 else 1), dim(rng, 1, 5)
    x = arr(rng, (B, O, P), d)
    if rng.randint(3) == 0:
        x = np.round(x)
    if rng.randint(5) == 0:
        x = -np.abs(x) - 1
    X, l = pick(rng, x, 0.7)
    ctx.describe(name, shape=x.shape, layout=l)
    r = attempt(ctx, lambda: ops.maxout(X), l in ("c", "offset"), "maxout")
    if r is None:
        return
    Y, which = r
    wy, ww = np.zeros((B, O), d), np.zeros((B, O), int)
    for b in range(B):
        for o in range(O):
            row = list(x[b, o])
            wy[b, o] = max(row)
            ww[b, o] = row.index(max(row))
    ctx.check(Y.dtype == wy.dtype and np.array_equal(Y, wy), "maxout-value", f"{name} {l} {Y} {wy}")
    ctx.check(np.array_equal(which, ww), "maxout-which", f"{name} {which} {ww} {x}")
    ctx.check(np.array_equal(X, x), "maxout-modifies")
    dy = arr(rng, (B, O), d)
    w32 = np.ascontiguousarray(which, dtype="int32")
    dY = dy.copy()
    g = ops.backprop_maxout(dY, w32, P)
    wg = np.zeros((B, O, P), d)
    for b in range(B):
        for o in range(O):
            wg[b, o, ww[b, o]] = dy[b, o]
    ctx.check(g.dtype == wg.dtype and np.array_equal(g, wg), "backprop_maxout", name)
    ctx.check(np.array_equal(dY, dy), "backprop_maxout-modifies")
    if name != "base" and B and O:
        bad = w32.copy()
        bad[rng.randint(B), rng.randint(O)] = P + rng.randint(3)
        ctx.raises(lambda: ops.backprop_maxout(dy, bad, P), "maxout-bad-index-accepted", name, (ValueError, IndexError))
    ctx.sig(name, d.__name__, B, O, P, l)


@group(400, 16000, min_obs=1200)
def windows(ctx, rng):
    name, ops = OPS[rng.randint(2)]
    d = dt(rng)
    nW = dim(rng, 0, 4)
    I = dim(rng, 0 if rng.randint(8) == 0 else 1, 4)
    if rng.randint(3):
        ls = cont.rand_lengths(rng)
        lens = ls.copy()
    else:
        ls = np.array([dim(rng, 0, 9)], dtype="i")
        lens = None if rng.randint(2) else ls.copy()
    B = int(ls.sum())
    x = arr(rng, (B, I), d)
    X, l = pick(rng, x, 0.8)
    kw = {} if lens is None and rng.randint(2) else {"lengths": lens}
    ctx.describe(name, nW=nW, lengths=ls, I=I, layout=l)
    Y = attempt(ctx, lambda: ops.seq2col(X, nW, **kw), l in ("c", "offset"), "seq2col")
    F = 2 * nW + 1
    want = np.zeros((B, F, I), d)
    i = 0
    for n in ls:
        for t in range(n):
            for k in range(-nW, nW + 1):
                if 0 <= t + k < n:
                    want[i + t, k + nW] = x[i + t + k]
        i += n
    if Y is not None:
        ctx.check(Y.dtype == d and np.array_equal(Y, want.reshape(B, F * I)), "seq2col", f"{name} nW={nW} {ls}")
        ctx.check(np.array_equal(X, x) and (lens is None or np.array_equal(lens, ls)), "seq2col-modifies")
    dy = arr(rng, (B, F * I), d)
    dYl, ld = pick(rng, dy, 0.8)
    g = attempt(ctx, lambda: ops.backprop_seq2col(dYl, nW, **kw), ld in ("c", "offset"), "backprop_seq2col")
    if g is not None:
        wg = np.zeros((B, I))
        d3 = dy.reshape(B, F, I).astype("f8")
        i = 0
        for n in ls:
            for t in range(n):
                for k in range(-nW, nW + 1):
                    if 0 <= t + k < n:
                        wg[i + t + k] += d3[i + t, k + nW]
            i += n
        ctx.close(g, wg, "backprop_seq2col", f"{name} nW={nW} {ls}", **tol(d))
        ctx.check(np.array_equal(dYl, dy), "backprop_seq2col-modifies")
    if nW == 1 and lens is None and B > 1 and I and d is np.float32:
        base = Ops()  # the generic implementation only has windows of one, without lengths
        ctx.check(np.array_equal(base.seq2col(x, 1), want.reshape(B, F * I)), "seq2col", f"base {ls}")
        ctx.close(base.backprop_seq2col(dy, 1), wg if g is not None else base.backprop_seq2col(dy, 1), "backprop_seq2col", f"base {ls}", **tol(d))
    bad = np.array([B + 1], dtype="i")
    ctx.raises(lambda: ops.seq2col(x, nW, lengths=bad), "seq2col-bad-lengths-accepted", name)
    ctx.raises(lambda: ops.seq2col(x, nW, lengths=np.array([B + 2, -2], dtype="i")), "seq2col-negative-length-accepted", name)
    ctx.raises(lambda: ops.backprop_seq2col(dy, nW, lengths=bad), "backprop_seq2col-bad-lengths-accepted", name)
    ctx.sig(name, d.__name__, nW, tuple(ls), I, l, lens is None)


@group(700, 25000, min_obs=3000)
def reductions(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    op = ["sum", "mean", "max", "first", "last"][rng.randint(5)]
    strict = op in ("max", "first", "last")
    ls = cont.rand_lengths(rng, min_len=1 if strict else 0)
    if rng.randint(15) == 0:
        ls = np.zeros((0,), "i")
    O = dim(rng, 0 if rng.randint(10) == 0 else 1, 5)
    T = int(ls.sum())
    x = arr(rng, (T, O), d)
    if rng.randint(6) == 0:
        x = -np.abs(x) - 1
    X, l = pick(rng, x, 0.8)
    lens = ls.copy()
    ctx.describe(name, op, lengths=ls, O=O, layout=l, dtype=d.__name__)
    f = getattr(ops, "reduce_" + op)
    r = attempt(ctx, lambda: f(X, lens), l in ("c", "offset"), "reduce_" + op)
    segs, i = [], 0
    for n in ls:
        segs.append((i, i + int(n)))
        i += int(n)
    want = np.zeros((len(ls), O))
    for j, (a, b) in enumerate(segs):
        if b > a:
            s = x[a:b].astype("f8")
            want[j] = {"sum": s.sum(0), "mean": s.sum(0) / (b - a), "max": s.max(0), "first": s[0], "last": s[-1]}[op]
    dy = arr(rng, (len(ls), O), d)
    dY, ld = pick(rng, dy, 0.8)
    wg = np.zeros((T, O))
    for j, (a, b) in enumerate(segs):
        if b == a:
            continue
        g = dy[j].astype("f8")
        if op == "sum":
            wg[a:b] = g
        elif op == "mean":
            wg[a:b] = g / (b - a)
        elif op == "first":
            wg[a] = g
        elif op == "last":
            wg[b - 1] = g
        else:
            for o in range(O):
                wg[a + int(np.argmax(x[a:b, o])), o] = g[o]
    tag = f"{name}.reduce_{op} {ls}"
    if r is not None:
        Y, extra = r if isinstance(r, tuple) else (r, None)
        if op in ("sum", "mean"):
            ctx.close(Y, want, f"reduce_{op}", tag, **tol(d))
        else:
            ctx.check(np.array_equal(Y, want), f"reduce_{op}", f"{tag} {Y} {want}")
        ctx.check(Y.dtype == d, f"reduce_{op}-dtype", f"{tag} {Y.dtype}")
        ctx.check(np.array_equal(X, x) and np.array_equal(lens, ls), f"reduce_{op}-modifies", tag)
        ctx.check(Y.size == 0 or not np.shares_memory(Y, X), f"reduce_{op}-aliases", tag)
        if op == "max":
            ww = np.array([[int(np.argmax(x[a:b, o])) for o in range(O)] for a, b in segs]).reshape(len(ls), O)
            ctx.check(np.array_equal(np.asarray(extra), ww), "reduce_max-which", f"{tag} {extra} {ww}")
            extra = np.ascontiguousarray(ww, dtype="int32")
        b = getattr(ops, "backprop_reduce_" + op)
        args = {"sum": (lens,), "mean": (lens,), "max": (extra, lens), "first": (extra,), "last": (extra,)}[op]
        g = attempt(ctx, lambda: b(dY, *args), ld in ("c", "offset"), "backprop_reduce_" + op)
        if g is not None:
            ctx.close(g, wg, f"backprop_reduce_{op}", tag, **tol(d))
            ctx.check(g.dtype == d, f"backprop_reduce_{op}-dtype", f"{tag} {g.dtype}")
            ctx.check(np.array_equal(dY, dy), f"backprop_reduce_{op}-modifies", tag)
    # refusals
    if len(ls) and O:
        j = rng.randint(len(ls))
        bad = ls.copy()
        bad[j] = -1 - rng.randint(2)
        ctx.raises(lambda: f(x.copy(), bad), f"reduce_{op}-negative-length-accepted", tag, (ValueError, IndexError))
        long = ls.copy()
        long[j] += 1 + rng.randint(3)
        if O:
            ctx.raises(lambda: f(x.copy(), long), f"reduce_{op}-too-long-accepted", tag, (ValueError, IndexError))
        if strict:
            z = ls.copy()
            z[j] = 0
            if O:
                ctx.raises(lambda: f(x.copy(), z), f"reduce_{op}-zero-length-accepted", tag, (ValueError, IndexError))
        if op == "max" and O and strict and r is not None:
            w2 = extra.copy()
            w2[j, rng.randint(O)] = int(rng.choice([ls[j], ls[j] if name == "base" else -1, ls[j] + 1, 2**31 - 1]))
            ctx.raises(lambda: b(dy.copy(), w2, ls), "backprop_reduce_max-bad-index-accepted", f"{tag} {w2.tolist()}", (ValueError, IndexError))
        if op in ("sum", "mean") and O:
            ctx.raises(lambda: b_neg(ops, op, dy, bad), f"backprop_reduce_{op}-negative-accepted", tag, (ValueError, IndexError))
    ctx.sig(name, op, d.__name__, tuple(ls), O, l)


def b_neg(ops, op, dy, bad):
    return getattr(ops, "backprop_reduce_" + op)(dy.copy(), bad)


@group(300, 12000, min_obs=900)
def gather_scatter(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    V, O = dim(rng, 1, 8), dim(rng, 1, 5)
    R, C = dim(rng, 0 if rng.randint(6) == 0 else 1), dim(rng, 1, 4)
    table = arr(rng, (V, O), d)
    idt = [np.int32, np.uint32][rng.randint(2)] if name != "base" else np.int32
    idx = rng.randint(0, V, size=(R, C)).astype(idt)
    ctx.describe(name, table=(V, O), idx=(R, C), idtype=idt.__name__)
    t, i = table.copy(), idx.copy()
    Y = ops.gather_add(t, i)
    want = np.zeros((R, O))
    for r in range(R):
        for c in range(C):
            want[r] += table[int(idx[r, c])].astype("f8")
    ctx.close(Y, want, "gather_add", name, **tol(d))
    ctx.check(Y.dtype == d, "gather_add-dtype", Y.dtype)
    ctx.check(np.array_equal(t, table) and np.array_equal(i, idx), "gather_add-modifies")
    if R:
        bad = idx.copy()
        bad[rng.randint(R), rng.randint(C)] = V + rng.randint(4)
        ctx.raises(lambda: ops.gather_add(table, bad), "gather_add-bad-index-accepted", name, (IndexError, ValueError))
    # scatter_add
    nd = dim(rng, 1, 2)
    n = dim(rng, 0 if rng.randint(6) == 0 else 1, 9)
    sid = rng.randint(0, V, size=n).astype([np.int32, np.int64, np.uint32][rng.randint(3)])
    vals = arr(rng, (n, O), d)
    vl, lv = pick(rng, vals)
    dest, lt = pick(rng, table)
    want = table.astype("f8").copy()
    for k in range(n):
        want[int(sid[k])] += vals[k].astype("f8")
    s0 = sid.copy()
    ops.scatter_add(dest, sid, vl)
    ctx.close(dest, want, "scatter_add", f"{name} {lt} {lv} {sid.dtype}", **tol(d))
    ctx.check(np.array_equal(vl, vals) and np.array_equal(sid, s0), "scatter_add-modifies")
    if n:
        b2 = sid.astype("i").copy()
        b2[rng.randint(n)] = V + rng.randint(5)
        ctx.raises(lambda: ops.scatter_add(table.copy(), b2, vals), "scatter_add-bad-index-accepted", name, (IndexError, ValueError))
    ctx.sig(name, d.__name__, V, O, R, C, lt, lv, str(sid.dtype))


U64 = [0, 1, 2, 3, 255, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]


@group(200, 8000, min_obs=400)
def hashing(ctx, rng):
    name, ops = imp(rng)
    n = dim(rng, 0, 9)
    ids = np.array([U64[rng.randint(len(U64))] if rng.randint(2) else int(rng.randint(0, 2**31)) * int(rng.randint(1, 2**31)) for _ in range(n)], dtype="uint64")
    seed = int(rng.choice([0, 1, 8, 2**31 - 1, 12345]))
    i0 = ids.copy()
    h = ops.hash(ids, seed)
    ctx.describe(name, n=n, seed=seed)
    want = np.array([murmur3_128_u64(int(v), seed) for v in ids], dtype="uint32").reshape(n, 4)
    ctx.equal(np.asarray(h), want, "hash", f"{name} seed {seed} {ids}")
    ctx.check(np.array_equal(i0, ids), "hash-modifies")
    k = dim(rng, 0 if rng.randint(6) == 0 else 1, 5)
    g = ops.ngrams(k, ids)
    b = ids.astype("<u8").tobytes()
    want = [murmur64a(b[8 * j : 8 * (j + k)]) for j in range(max(0, n - k + 1))] if k else []
    ctx.equal(np.asarray(g), np.array(want, dtype="uint64"), "ngrams", f"{name} n={k} {ids}")
    ctx.note("hashes", n)
    ctx.sig(name, n, k, seed)


@group(200, 8000, min_obs=400)
def clipping(ctx, rng):
    name, ops = imp(rng)
    d = dt(rng)
    sh = tuple(dim(rng, 1, 5) for _ in range(dim(rng, 1, 3)))
    g = arr(rng, sh, d, float(rng.choice([1e-3, 1, 100, 1e5])))
    thr = float(rng.choice([0.1, 1.0, 5.0, 1e3]))
    G, l = pick(rng, g)
    R = ops.clip_gradient(G, thr)
    nrm = math.sqrt(float((g.astype("f8") ** 2).sum()))
    want = g.astype("f8") * (thr / nrm if nrm > thr else 1.0)
    ctx.describe(name, shape=sh, thr=thr, layout=l)
    ctx.close(R, want, "clip_gradient", f"{name} {sh} {l} thr {thr} norm {nrm}", rtol=1e-5, atol=1e-7)
    ctx.check(R.dtype == d, "clip_gradient-dtype")
    # averages
    ema, w = arr(rng, sh, np.float32), arr(rng, sh, np.float32)
    t = int(rng.choice([0, 1, 2, 10, 89990, 10**6]))
    E, _ = pick(rng, ema)
    w0 = w.copy()
    ops.update_averages(E, w, t)
    dec = min((1 + t) / (10 + t), 0.9999)
    ctx.close(E, dec * ema.astype("f8") + (1 - dec) * w0.astype("f8"), "update_averages", f"{name} t={t}", rtol=1e-4, atol=1e-5)
    ctx.check(np.array_equal(w, w0), "update_averages-modifies-weights")
    # adam kernel
    n = dim(rng, 1, 40) if rng.randint(3) else int(rng.choice([63, 64, 65, 127, 128, 129, 193]))
    W, g1, m1 = (arr(rng, (n,), np.float32) for _ in range(3))
    m2 = np.abs(arr(rng, (n,), np.float32))
    b1, b2, eps, lr = 0.9, 0.99, float(rng.choice([1e-8, 1e-3])), 0.05
    rw, rg, r1, r2 = ops.adam(W.copy(), g1.copy(), m1.copy(), m2.copy(), b1, b2, eps, lr)
    e1 = b1 * m1.astype("f8") + (1 - b1) * g1.astype("f8")
    e2 = b2 * m2.astype("f8") + (1 - b2) * g1.astype("f8") ** 2
    ctx.close(r1, e1, "adam-mom1", name, rtol=1e-4, atol=1e-6)
    ctx.close(r2, e2, "adam-mom2", name, rtol=1e-4, atol=1e-6)
    ok = np.sqrt(e2) > 1e-4
    ctx.close(rw[ok], (W - lr * e1 / (np.sqrt(e2) + eps))[ok], "adam-weights", name, rtol=1e-3, atol=1e-4)
    ctx.sig(name, sh, thr, t, l)


@group(300, 10000, min_obs=1500)
def alloc_convert(ctx, rng):
    name, ops = imp(rng)
    nd = dim(rng, 1, 4)
    sh = tuple(dim(rng, 0, 4) for _ in range(nd))
    kind = ["f", "i"][rng.randint(2)]
    kw = {}
    want = np.dtype("float32" if kind == "f" else "int32")
    if rng.randint(2):
        want = np.dtype(["float32", "float64"][rng.randint(2)] if kind == "f" else ["int32", "int64", "uint32", "uint64"][rng.randint(4)])
        kw["dtype"] = want.name
    zeros = bool(rng.randint(4))
    if not zeros:
        kw["zeros"] = False
    way = rng.randint(3)
    if way == 0:
        a = getattr(ops, f"alloc{nd}{kind}")(*sh, **kw)
    elif way == 1:
        a = getattr(ops, f"alloc_{kind}")(sh, **kw)
    else:
        kw.setdefault("dtype", want.name)
        a = ops.alloc(sh, **kw)
    ctx.describe(name, nd, kind, kw=kw)
    ctx.check(isinstance(a, np.ndarray) and a.shape == sh and a.dtype == want, "alloc", f"{name} {sh} {kw} -> {a.shape} {a.dtype}")
    if zeros:
        ctx.check(not a.any(), "alloc-not-zero", name)
    ctx.check(a.flags.c_contiguous and a.flags.writeable, "alloc-layout")
    # asarray
    src = np.abs(np.round(rng.standard_normal(sh) * 3)) if want.kind == "u" else np.round(rng.standard_normal(sh) * 3)
    src = src.astype(["float32", "float64", "int32", "int64"][rng.randint(4)])
    form = ["array", "list", "torch"][rng.randint(3)]
    v = src
    if form == "list":
        v = src.tolist()
    elif form == "torch":
        import torch

        v = torch.from_numpy(src.copy())
    s2 = (0,) if form == "list" and 0 in sh else sh
    if form == "list" and 0 in sh:
        s2 = np.array(v).shape
    if rng.randint(2):
        meth = getattr(ops, f"asarray{nd}{kind}" if rng.randint(2) else f"asarray_{kind}")
        exp = np.dtype("float32" if kind == "f" else "int32")
        k2 = {}
        if rng.randint(2):
            exp = np.dtype("float64" if kind == "f" else "int64")
            k2["dtype"] = exp.name
        b = meth(v, **k2)
    else:
        k2 = {"dtype": want.name} if rng.randint(2) else {}
        b = ops.asarray(v, **k2)
        exp = np.dtype(k2["dtype"]) if k2 else (src.dtype if form != "list" else None)
    if name == "base" and form == "torch":
        exp = None  # generic Ops keeps a tensor's dtype
    ctx.check(isinstance(b, np.ndarray) and b.shape == s2 and np.array_equal(b.astype("f8"), src.astype("f8").reshape(s2)), "asarray-values", f"{name} {form} {k2}")
    if exp is not None:
        ctx.check(b.dtype == exp, "asarray-dtype", f"{name} {form} {src.dtype} {k2} -> {b.dtype}")
    # as_contig / reshape / tile / to_numpy
    X, l = pick(rng, src, 0.2)
    c = ops.as_contig(X)
    ctx.check(c.flags.c_contiguous and c.dtype == src.dtype and np.array_equal(c, src), "as_contig", l)
    c = ops.as_contig(X, dtype="float64")
    ctx.check(c.flags.c_contiguous and c.dtype == np.float64 and np.array_equal(c, src), "as_contig-dtype", l)
    r = ops.reshape(X, (src.size,))
    ctx.check(np.array_equal(r, src.reshape(-1)), "reshape", l)
    q = ops.reshape2(X, src.size, 1)
    ctx.check(q.shape == (src.size, 1) and np.array_equal(q[:, 0], src.reshape(-1)), "reshape2", l)
    n = ops.to_numpy(X)
    ctx.check(np.array_equal(n, src), "to_numpy")
    for bo in ("<", ">"):
        n = ops.to_numpy(X, byte_order=bo)
        ctx.check(np.array_equal(n, src) and (n.dtype.newbyteorder(bo) == n.dtype), "to_numpy-byte-order", f"{bo} {n.dtype}")
    if nd == 2:
        reps = dim(rng, 1, 3)
        ctx.check(np.array_equal(ops.tile(X, reps), np.concatenate([src] * reps, axis=1)), "tile")
    ctx.sig(name, nd, kind, form, l, str(src.dtype), way)


@group(60, 1500, min_obs=200)
def positions(ctx, rng):
    name, ops = OPS[rng.randint(2)]
    N, D = dim(rng, 0, 9), dim(rng, 0, 7)
    a = ops.position_encode(N, D)
    out = np.full((N, D), 9, dtype="f")
    b = ops.position_encode(N, D, out=out)
    ctx.describe(N=N, D=D)
    ctx.check(a.shape == (N, D) and np.all(np.abs(a) <= 1 + 1e-6), "position-range")
    ctx.check(b is out or N * D == 0, "position-out")
    ctx.check(np.array_equal(a, b), "position-out-differs")
    if N and D:
        ctx.close(a[0, 0::2], np.zeros(len(a[0, 0::2])), "position-row0")
        ctx.close(a[0, 1::2], np.ones(len(a[0, 1::2])), "position-row0")
        ctx.close(a[:, 0], np.sin(np.arange(N)), "position-col0", atol=1e-5)
    ctx.sig(N, D)
