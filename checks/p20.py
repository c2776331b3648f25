"""Embeddings and id mapping: random tables and ids (extreme, negative, repeated,
empty, all integer dtypes and layouts) run through the layers; oracles index
the table row by row, recompute the documented hashes in pure Python, use plain
dicts for mappings and a dense matrix for sparse linear layers; gradients are
accumulated item by item.  Distinct = layer, ids signature, settings."""
import numpy as np

from thinc.api import (
    Embed,
    HashEmbed,
    Model,
    NumpyOps,
    SparseLinear,
    SparseLinear_v2,
    chain,
    premap_ids,
    registry,
    remap_ids,
    remap_ids_v2,
    uniqued,
)
from thinc.layers.array_getitem import array_getitem, floats_getitem, ints_getitem

from vlib import cont
from vlib.core import group
from vlib.hashref import murmur3_128_u64

QUICK_X = 20
M64 = (1 << 64) - 1
TOL = dict(rtol=1e-4, atol=1e-5)
ASSUMPTIONS = [
    "SparseLinear.v1 is documented as using a subset of the weights; its reference follows that documented indexing",
    "premap_ids and remap_ids tables hold values that fit 32 bits",
]


def layout(rng, a):
    k = rng.randint(4)
    if k == 0:
        b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if k == 1 and a.ndim == 2:
        return np.asfortranarray(a)
    return a


def set_table(rng, node, name="E"):
    E = node.get_param(name)
    v = rng.standard_normal(E.shape).astype("f4")
    node.set_param(name, v)
    return v.astype("f8")


def node_of(model, name="E"):
    return next(n for n in model.walk() if n.has_param(name))


def row_sum(E, rows, g):
    d = np.zeros_like(E)
    for r, x in zip(rows, g):
        d[r] += x
    return d


@group(150, 3000, min_obs=300)
def embed(ctx, rng):
    nV, nO = int(rng.choice([1, 2, 5, 20])), int(rng.randint(1, 6))
    n = int(rng.choice([0, 1, 2, 5, 20]))
    dt = ["i4", "i8", "u8", "i2", "u4"][rng.randint(5)]
    lo = -nV if dt[0] == "i" and rng.randint(2) else 0
    ids = rng.randint(lo, nV, n)
    col = None if rng.randint(2) else int(rng.randint(-2, 3))
    if col is None:
        X = ids.astype(dt)
    else:
        X = rng.randint(0, nV, (n, 3)).astype(dt)
        X[:, col] = ids.astype(dt)
    X = layout(rng, X)
    m = Embed(nO, nV, column=col) if rng.randint(2) else registry.resolve({"l": {"@layers": "Embed.v1", "nO": nO, "nV": nV, "column": col}})["l"]
    m.initialize()
    e = node_of(m)
    E = set_table(rng, e)
    ctx.describe("Embed", ids=X.tolist(), dtype=dt, column=col, nV=nV)
    want = np.stack([E[i] for i in ids]) if n else np.zeros((0, nO))
    x0 = X.copy()
    ctx.close(m.predict(X), want, "embed:rows", "predict", rtol=0, atol=1e-7)
    Y, bp = m(X, True)
    ctx.close(Y, want, "embed:rows", "train", rtol=0, atol=1e-7)
    g = rng.standard_normal((n, nO)).astype("f4")
    dX = bp(g)
    ctx.close(e.get_grad("E"), row_sum(E, ids, g), "embed:grad", "table gradient", **TOL)
    ctx.check(dX.shape == X.shape and not np.any(dX), "embed:dX", "id gradient is not zero")
    ctx.check(np.array_equal(x0, X), "embed:mutates", "ids changed")
    bp2 = m(X, True)[1]
    bp2(g)
    ctx.close(e.get_grad("E"), 2 * row_sum(E, ids, g), "embed:grad", "accumulated", **TOL)
    Y[...] = 7
    ctx.close(m.predict(X), want, "embed:alias", "rows are not copies of the table", rtol=0, atol=1e-7)
    if n:
        bad = X.copy()
        bad[(0,) if col is None else (0, col)] = nV
        ctx.raises(lambda: m.predict(bad), "embed:bounds", "id out of range", IndexError)
    ctx.sig(nV, nO, dt, col, tuple(ids))


def big_ids(rng, n):
    pool = [0, 1, 2, M64, M64 - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 123456789]
    return [pool[rng.randint(len(pool))] if rng.randint(3) == 0 else (int(rng.randint(0, 1 << 31)) << 33) ^ int(rng.randint(0, 1 << 31)) for _ in range(n)]


@group(150, 3000, min_obs=300)
def hashembed(ctx, rng):
    nV, nO = int(rng.choice([1, 2, 7, 100, 1000])), int(rng.randint(1, 6))
    n = int(rng.choice([0, 1, 2, 5, 12]))
    seed = [None, 0, 1, 7, 2**32 - 1, 12345][rng.randint(6)]
    col = None if rng.randint(2) else int(rng.randint(-2, 3))
    ids = [i & M64 for i in big_ids(rng, n)]
    if n and rng.randint(3) == 0:
        ids[-1] = ids[0]
    dt = ["u8", "u8", "i8", "i4", "u4"][rng.randint(5)]
    arr = np.array(ids, dtype="u8").astype(dt)
    ids = [int(i) & M64 for i in arr]
    if col is None:
        X = arr
    else:
        X = rng.randint(0, 1000, (n, 3)).astype(dt)
        X[:, col] = arr
    X = layout(rng, X)
    m = HashEmbed(nO, nV, seed=seed, column=col) if rng.randint(2) else registry.resolve({"l": {"@layers": "HashEmbed.v1", "nO": nO, "nV": nV, "seed": seed, "column": col}})["l"]
    m.initialize()
    e = node_of(m)
    E = set_table(rng, e)
    ctx.describe("HashEmbed", ids=ids, dtype=dt, seed=seed, column=col, nV=nV)
    s = e.attrs["seed"]
    if seed is not None:
        ctx.equal(s, seed, "hashembed:seed", "seed attribute")
    rows = [[h % nV for h in murmur3_128_u64(i, s)] for i in ids]
    want = np.stack([sum(E[r] for r in rr) for rr in rows]) if n else np.zeros((0, nO))
    x0 = X.copy()
    ctx.close(m.predict(X), want, "hashembed:rows", "predict", **TOL)
    Y, bp = m(X, True)
    ctx.close(Y, want, "hashembed:rows", "train", **TOL)
    g = rng.standard_normal((n, nO)).astype("f4")
    dX = bp(g)
    dE = np.zeros_like(E)
    for rr, x in zip(rows, g):
        for r in rr:
            dE[r] += x
    ctx.close(e.get_grad("E"), dE, "hashembed:grad", "table gradient", **TOL)
    ctx.check(dX.shape == X.shape and not np.any(dX), "hashembed:dX", "id gradient is not zero")
    ctx.check(np.array_equal(x0, X), "hashembed:mutates", "ids changed")
    # only ids, seed and table matter
    if n:
        perm = rng.permutation(n)
        ctx.close(m.predict(X[perm]), want[perm], "hashembed:context", "results depend on the batch", **TOL)
        m2 = HashEmbed(nO, nV, seed=s, column=col)
        m2.initialize()
        node_of(m2).set_param("E", e.get_param("E").copy())
        ctx.close(m2.predict(X), want, "hashembed:context", "another layer with the same table", **TOL)
    ctx.sig(nV, nO, seed, dt, col, tuple(ids))


@group(200, 4000, min_obs=300)
def mapping(ctx, rng):
    kind = ["v1", "v2", "premap"][rng.randint(3)]
    n = int(rng.choice([0, 1, 2, 5, 20]))
    nk = int(rng.choice([0, 1, 3, 10, 60]))
    strings = kind != "premap" and bool(rng.randint(2))
    if strings:
        keys = [f"k{i}" if i % 3 else "ü" * (i + 1) for i in range(nk)]
        pool = keys + ["other", "", "K0"]
    else:
        keys = list({[0, 1, 2, 3, M64, M64 - 1, 1 << 40, 77, 5, 6][rng.randint(10)] if kind == "premap" and rng.randint(3) == 0 else int(rng.randint(0, 3 * nk + 1)) for _ in range(nk)})
        pool = keys + [10**6, 10**6 + 1]
        if kind == "premap":
            pool = pool + [M64 - 5]
    table = {k: int(rng.randint(0 if kind == "premap" else -5, 2**31 - 1)) if rng.randint(4) else [0, 2**31 - 1][rng.randint(2)] for k in keys}
    default = int(rng.choice([0, 0, 7, -1, 2**31 - 1]))
    seq = [pool[rng.randint(len(pool))] for _ in range(n)]
    want = np.array([table.get(s, default) for s in seq], dtype="i8").reshape(-1, 1)
    col = None
    t0 = dict(table)
    if kind == "v1":
        m = remap_ids(table, default) if rng.randint(2) or not strings else registry.resolve({"l": {"@layers": "remap_ids.v1", "mapping_table": table, "default": default}})["l"]
        if strings or rng.randint(2):
            X = list(seq) if rng.randint(2) else tuple(seq)
        else:
            X = np.array(seq, dtype="i8")
    else:
        if strings:
            X = list(seq) if rng.randint(2) else tuple(seq)
        else:
            dt = "u8" if kind == "premap" and (max(seq, default=0) > 2**62) else ["i4", "i8", "u8"][rng.randint(3)]
            if dt == "i4" and max(seq, default=0) > 2**31 - 1:
                dt = "i8"
            X = np.array(seq, dtype=dt)
            if dt[0] == "i" and kind == "premap" and n and rng.randint(3) == 0:
                X[0] = -5
                want[0] = default
            if rng.randint(2):
                col = int(rng.randint(-3, 3))
                A = rng.randint(0, 50, (n, 3)).astype(X.dtype)
                A[:, col] = X
                X = A
            X = layout(rng, X)
        if kind == "v2":
            m = remap_ids_v2(table, default, column=col)
        else:
            m = premap_ids(table, default, column=col)
    ctx.describe("mapping " + kind, table=list(table.items())[:20], default=default, ids=seq, column=col)
    x0 = X.copy() if isinstance(X, np.ndarray) else list(X)
    for train in (False, True):
        Y, bp = m(X, train)
        ctx.check(Y.shape == (n, 1) and Y.dtype.kind == "i", "mapping:shape", f"{Y.dtype}{Y.shape}")
        ctx.check(np.array_equal(Y, want), "mapping:values", "ids", got=Y, want=want)
    dX = bp(np.zeros((n, 1), "f"))
    if isinstance(X, np.ndarray) and kind != "v1":
        ctx.check(dX.shape == X.shape and not np.any(dX), "mapping:dX", "id gradient")
    elif not isinstance(X, np.ndarray):
        ctx.check(isinstance(dX, list) and dX == [], "mapping:dX", f"gradient {type(dX)} for a list of ids")
    ctx.check(np.array_equal(x0, X) if isinstance(X, np.ndarray) else x0 == list(X), "mapping:mutates", "ids changed")
    ctx.check(table == t0, "mapping:table", "the caller's table changed")
    if n:
        ctx.check(int(m.predict(X[:1])[0, 0]) == int(want[0, 0]), "mapping:context", "depends on the batch")
    # table set after creation
    if kind == "v2" and not strings:
        m2 = remap_ids_v2(None, default, column=col)
        ctx.raises(lambda: m2.predict(X), "mapping:unset", "no table", ValueError)
        m2.attrs["mapping_table"] = dict(table)
        ctx.check(np.array_equal(m2.predict(X), want), "mapping:late", "table set later")
    ctx.sig(kind, default, tuple(map(str, seq)), nk, col)


@group(150, 3000, min_obs=300)
def unique(ctx, rng):
    """uniqued(layer) = layer, outputs and parameter gradients."""
    nO = int(rng.randint(1, 5))
    n = int(rng.choice([0, 1, 2, 5, 15]))
    ncol = int(rng.randint(1, 4))
    col = int(rng.randint(-ncol, ncol))
    nV = int(rng.choice([1, 3, 10]))
    X = rng.randint(0, [2, nV, 50][rng.randint(3)], (n, ncol)).astype(["i4", "i8", "u8"][rng.randint(3)])
    which = rng.randint(3)
    if which == 0:
        X %= nV
        mk = lambda: Embed(nO, nV, column=col)
    elif which == 1:
        mk = lambda: HashEmbed(nO, nV, column=col, seed=3)
    else:
        mk = lambda: chain(remap_ids_v2({0: 1, 1: 2}, 0, column=col), Embed(nO, 3, column=0))
    a, b = mk(), mk()
    u = uniqued(b, column=col) if rng.randint(2) else registry.resolve({"l": {"@layers": "uniqued.v1", "layer": b, "column": col}})["l"]
    a.initialize()
    u.initialize()
    E = rng.standard_normal(node_of(a).get_param("E").shape).astype("f4")
    node_of(a).set_param("E", E)
    node_of(b).set_param("E", E.copy())
    X = layout(rng, X)
    ctx.describe("uniqued", ids=X.tolist(), column=col, layer=a.name)
    x0 = X.copy()
    want = a.predict(X)
    got = u.predict(X)
    ctx.check(got.shape == want.shape, "uniqued:shape", f"{got.shape} want {want.shape}")
    ctx.close(got, want, "uniqued:rows", "outputs", rtol=0, atol=1e-6)
    Ya, ba = a(X, True)
    Yu, bu = u(X, True)
    ctx.close(Yu, Ya, "uniqued:rows", "outputs in training", rtol=0, atol=1e-6)
    g = rng.standard_normal(Ya.shape).astype("f4")
    ba(g)
    g0 = g.copy()
    dX = bu(g)
    ctx.close(node_of(b).get_grad("E"), node_of(a).get_grad("E"), "uniqued:grad", "table gradient", **TOL)
    ctx.check(np.array_equal(g, g0) and np.array_equal(x0, X), "uniqued:mutates", "ids or gradient changed")
    ctx.check(np.shape(dX) == X.shape, "uniqued:dX", f"{np.shape(dX)} for {X.shape}")
    ctx.note("duplicates", n - len(np.unique(X[:, col])) if n else 0)
    ctx.sig(which, col, tuple(X.reshape(-1).tolist()))


@group(100, 2000, min_obs=150)
def unique_float(ctx, rng):
    """De-duplicating rows with a differentiable layer: every copy of a row
    gets an equal share of the gradient of its group."""
    nI, nO = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    n, k = int(rng.choice([2, 4, 9])), int(rng.randint(1, 4))
    rows = rng.standard_normal((k, nI)).astype("f4")
    rows[:, 0] = np.arange(k)
    pick = rng.randint(0, k, n)
    X = rows[pick]
    W = rng.standard_normal((nI, nO)).astype("f4")

    def fwd(m, X, is_train):
        ctx.check(len(np.unique(X[:, 0])) == len(X), "uniqued:once", "layer saw a row twice")
        return X @ W, lambda dY: dY @ W.T

    if X.size < 2:
        return
    u = uniqued(Model("lin", fwd), column=0)
    Y, bp = u(X, True)
    ctx.describe("uniqued float", rows=pick.tolist(), nI=nI)
    ctx.close(Y, X @ W, "uniqued:float", "outputs", **TOL)
    g = rng.standard_normal(Y.shape).astype("f4")
    dX = bp(g)
    want = np.zeros_like(X)
    for j in range(k):
        sel = pick == j
        if sel.any():
            want[sel] = (g[sel].sum(axis=0) @ W.T) / sel.sum()
    ctx.check(np.asarray(dX).dtype == np.float32, "uniqued:float", f"gradient dtype {np.asarray(dX).dtype}")
    ctx.close(dX, want, "uniqued:float", "gradient", rtol=1e-3, atol=1e-4)
    ctx.sig(tuple(pick), nI, nO)


def mm3_32(key, seed):
    """MurmurHash3_x86_32 of a little-endian 64-bit key."""
    m = 0xFFFFFFFF
    rotl = lambda x, r: ((x << r) | (x >> (32 - r))) & m
    h = seed
    for k in (key & m, key >> 32):
        k = (k * 0xCC9E2D51) & m
        k = rotl(k, 15)
        k = (k * 0x1B873593) & m
        h ^= k
        h = rotl(h, 13)
        h = (h * 5 + 0xE6546B64) & m
    h ^= 8
    h ^= h >> 16
    h = (h * 0x85EBCA6B) & m
    h ^= h >> 13
    h = (h * 0xC2B2AE35) & m
    h ^= h >> 16
    return h


@group(150, 3000, min_obs=300)
def sparse_linear(ctx, rng):
    v1 = bool(rng.randint(3) == 0)
    nO = int(rng.randint(1, 5))
    L = int(rng.choice([1, 2, 8, 64])) if v1 else int(rng.choice([1, 2, 3, 10, 64, 100]))
    m = (SparseLinear if v1 else SparseLinear_v2)(nO=nO, length=L)
    m.initialize()
    nb = int(rng.choice([0, 1, 2, 4]))
    lens = rng.randint(0, 5, nb)
    k = int(lens.sum())
    keys = [i & M64 for i in big_ids(rng, k)]
    if k > 1 and rng.randint(2):
        keys[-1] = keys[0]
    ka = np.array(keys, dtype="u8")
    if rng.randint(4) == 0:
        ka = ka.astype("i8")
    va = rng.standard_normal(k).astype(["f4", "f4", "f8"][rng.randint(3)])
    la = lens.astype(["i4", "i4", "i8"][rng.randint(3)])
    ka, va, la = layout(rng, ka), layout(rng, va), layout(rng, la)
    W = rng.standard_normal(nO * L).astype("f4")
    b = rng.standard_normal(nO).astype("f4")
    m.set_param("W", W.copy())
    m.set_param("b", b.copy())
    ctx.describe("SparseLinear", v1=v1, nO=nO, length=L, keys=keys, lengths=lens.tolist())
    # dense definition: one row of feature counts per item
    feats = np.zeros((nb, nO, nO * L))
    pos = 0
    for i, n in enumerate(lens):
        for key, v in zip(keys[pos : pos + n], va[pos : pos + n]):
            for s in (0, 1):
                h = mm3_32(key, s)
                for c in range(nO):
                    j = (h & (L - 1)) + c if v1 else c * L + h % L
                    feats[i, c, j] += float(v)
        pos += int(n)
    want = (feats * W.astype("f8")).sum(axis=2) + b
    orig = [a.copy() for a in (ka, va, la)]
    for train in (False, True):
        Y, bp = m((ka, va, la), train)
        ctx.close(Y, want, "sparse:forward", "scores", rtol=1e-3, atol=1e-4)
    g = rng.standard_normal((nb, nO)).astype("f4")
    g0 = g.copy()
    dX = bp(g)
    ctx.close(m.get_grad("b"), g.sum(axis=0), "sparse:grad", "bias", rtol=1e-3, atol=1e-4)
    ctx.close(m.get_grad("W"), np.einsum("icj,ic->j", feats, g.astype("f8")), "sparse:grad", "weights", rtol=1e-3, atol=1e-4)
    ctx.check(all(np.array_equal(a, o) for a, o in zip((ka, va, la), orig)) and np.array_equal(g, g0), "sparse:mutates", "inputs changed")
    ctx.check(len(dX) == 3, "sparse:dX", "three gradients")
    ctx.sig(v1, nO, L, tuple(keys), tuple(lens))


@group(150, 3000, min_obs=300)
def getitem(ctx, rng):
    """array_getitem: numpy indexing; repeated positions add up."""
    shape = tuple(int(rng.randint(1, 5)) for _ in range(int(rng.randint(1, 4))))
    ints = bool(rng.randint(2))
    X = rng.randint(0, 50, shape).astype("i4") if ints else rng.standard_normal(shape).astype(["f4", "f8"][rng.randint(2)])

    def ax(n, depth):
        k = rng.randint(4)
        if k == 0:
            return int(rng.randint(-n, n))
        if k == 1:
            return slice(None)
        if k == 2:
            return slice(int(rng.randint(0, n)), None, int(rng.choice([1, 2])))
        return [int(i) for i in rng.randint(-n, n, int(rng.randint(1, 4)))] if depth == 0 else slice(None, None, -1)

    used = [0]

    def axis(n):
        a = ax(n, used[0])
        if isinstance(a, list):
            used[0] = 1
        return a

    idx = tuple(axis(n) for n in shape[: int(rng.randint(1, len(shape) + 1))]) if rng.randint(2) else axis(shape[0])
    mk = [array_getitem, ints_getitem if ints else floats_getitem][rng.randint(2)]
    m = mk(idx)
    ctx.describe("getitem", shape=shape, index=repr(idx))
    want = X[idx]
    Y, bp = m(X, bool(rng.randint(2)))
    ctx.check(np.shape(Y) == np.shape(want) and np.array_equal(Y, want), "getitem:forward", "selection")
    g = (rng.standard_normal(np.shape(want)) * 5).astype(X.dtype)
    g = np.asarray(g)
    dX = bp(g)
    ref = np.zeros(X.shape)
    pos = np.arange(X.size).reshape(X.shape)[idx]
    for p, v in zip(np.asarray(pos).reshape(-1), g.reshape(-1)):
        ref.reshape(-1)[p] += v
    ctx.check(dX.shape == X.shape and dX.dtype == X.dtype, "getitem:dX", f"{dX.dtype}{dX.shape}")
    ctx.close(dX, ref, "getitem:dX", "gradient", rtol=1e-5, atol=1e-5)
    ctx.sig(shape, repr(idx), ints)
