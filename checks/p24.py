"""Batch containers: random ragged/padded batches, pairs and argument containers
are indexed, sliced, copied and iterated; the oracle is the plain Python list of
sequences, indexed the same way.  Results are re-indexed (chains of
operations), and the source is digested before and after.  Distinct =
container, index kind, lengths, item shape."""
import copy as pycopy

import numpy as np

from thinc.api import NumpyOps
from thinc.types import ArgsKwargs, Padded, Pairs, Ragged

from vlib import cont
from vlib.core import group
from checks.p16 import foreign_padded

QUICK_X = 12
OPS = NumpyOps()
ASSUMPTIONS = [
    "indexing a padded batch selects columns, which stay sorted by length and keep their original-position labels",
    "boolean masks are not exercised as indices",
]
DT = ["f4", "f8", "i4", "u8", "i8"]


def rand_index(rng, n, allow_list=True):
    """-> (kind, index)"""
    k = rng.randint(6 if allow_list else 3)
    if k == 0 and n:
        i = int(rng.randint(-n, n))
        return "int", [i, np.int64(i), np.int32(i), np.array(i)][rng.randint(4)]
    if k in (0, 1):
        a, b = [None if rng.randint(4) == 0 else int(rng.randint(-n - 2, n + 3)) for _ in range(2)]
        return "slice", slice(a, b)
    if k == 2:
        a, b = [None if rng.randint(3) == 0 else int(rng.randint(-n - 2, n + 3)) for _ in range(2)]
        return "step", slice(a, b, int(rng.choice([1, 2, 3, -1, -2])))
    m = int(rng.randint(0, n + 2)) if n else 0
    ix = rng.randint(-n, n, m) if n else np.zeros(0, int)
    if k == 3:
        return "list", [int(i) for i in ix]
    if k == 4:
        return "array", ix.astype(["i4", "i8"][rng.randint(2)])
    ix = rng.permutation(n)[:m]
    return "perm", ix.astype("i4")


def select(seqs, kind, index):
    """The same selection from the list."""
    if kind == "int":
        return [seqs[int(index)]]
    if kind in ("slice", "step"):
        return seqs[index]
    return [seqs[int(i)] for i in index]


def rand_seqs(rng, trail=None, n=None):
    if n is None and rng.rand() < 0.04:
        n = int(rng.choice([65, 100, 128, 129, 140, 200, 260, 300]))
    ls = cont.rand_lengths(rng, n=n)
    dt = DT[rng.randint(len(DT))]
    trail = trail if trail is not None else [(2,), (1,), (3,), (2, 3), (), (2, 1, 2)][rng.randint(6)]
    out, c = [], 1
    for k in ls:
        size = int(k) * int(np.prod(trail, dtype=int))
        out.append(np.arange(c, c + size).reshape((int(k),) + tuple(trail)).astype(dt))
        c += size
    return out


def ragged(rng, seqs):
    r = Ragged(np.concatenate(seqs), np.asarray([len(s) for s in seqs], dtype=["i4", "i4", "i4", "i8", "i8", "i8", "i2", "i1"][rng.randint(8)]))
    return r


def check_ragged(ctx, r, want, like, mech):
    if not ctx.check(isinstance(r, Ragged), mech, type(r).__name__):
        return False
    ls = [int(x) for x in r.lengths]
    if not ctx.check(ls == [len(s) for s in want] and len(r) == len(want), mech + ":lengths", f"{ls} want {[len(s) for s in want]}"):
        return False
    tot = sum(ls)
    ctx.check(r.data.ndim == 2, mech + ":data", "data is not 2d")
    if tot:
        w = np.concatenate(want)
        d = r.dataXd
        ctx.check(d.shape == w.shape and d.dtype == w.dtype and np.array_equal(d, w), mech + ":data", f"{d.dtype}{d.shape} want {w.dtype}{w.shape}", got=d, want=w)
        ctx.check(r.data.shape[0] == tot, mech + ":data", f"{r.data.shape[0]} rows for {tot} items")
    else:
        ctx.check(r.data.size == 0 and r.dataXd.size == 0, mech + ":data", "rows in an empty batch")
        ctx.check(r.data.dtype == like.dtype, mech + ":dtype", f"{r.data.dtype} want {like.dtype}")
    ctx.check(tuple(r.data_shape[1:]) == tuple(like.shape[1:]), mech + ":shape", f"{r.data_shape} want {like.shape[1:]}")
    return True


@group(250, 5000, min_obs=500)
def ragged_index(ctx, rng):
    seqs = rand_seqs(rng)
    r = ragged(rng, seqs)
    d0 = cont.digest(r)
    cur, lst = r, seqs
    trace = []
    for depth in range(int(rng.randint(1, 4))):
        kind, ix = rand_index(rng, len(lst))
        want = select(lst, kind, ix)
        trace.append((kind, repr(ix)))
        ctx.describe("ragged", lengths=[len(s) for s in seqs], trail=seqs[0].shape[1:], trace=trace)
        new = cur[ix]
        if not check_ragged(ctx, new, want, seqs[0], "ragged:" + kind):
            return
        # asking the same batch again gives the same (cached starts/ends)
        if rng.randint(3) == 0:
            check_ragged(ctx, cur[ix], want, seqs[0], "ragged:again")
        cur, lst = new, want
        ctx.note("selections")
    ctx.check(cont.digest(r) == d0, "ragged:mutates", "the source changed")
    n = len(seqs)
    for bad in (n, -n - 1, [0, n]):
        ctx.raises(lambda: r[bad], "ragged:bounds", f"index {bad} of {n}", IndexError)
    ctx.sig(tuple(len(s) for s in seqs), seqs[0].shape[1:], tuple(trace))


@group(80, 1500, min_obs=150)
def ragged_items(ctx, rng):
    """Every single item, in any order, and item-by-item reassembly."""
    seqs = rand_seqs(rng)
    r = ragged(rng, seqs)
    n = len(seqs)
    ctx.describe("ragged items", lengths=[len(s) for s in seqs])
    for i in rng.permutation(np.arange(-n, n)):
        check_ragged(ctx, r[int(i)], [seqs[int(i)]], seqs[0], "ragged:item")
    a = int(rng.randint(0, n + 1))
    left, right = r[:a], r[a:]
    check_ragged(ctx, left, seqs[:a], seqs[0], "ragged:split")
    check_ragged(ctx, right, seqs[a:], seqs[0], "ragged:split")
    # caller changes lengths of another batch sharing nothing
    c = Ragged(r.dataXd.copy(), r.lengths.copy())
    if c.data.size:
        c.data[:] = 0
    check_ragged(ctx, r, seqs, seqs[0], "ragged:alias")
    ctx.sig(tuple(len(s) for s in seqs), a)


def check_cols(ctx, p, cols, src, mech):
    """p holds exactly columns `cols` of src, consistently."""
    if not ctx.check(isinstance(p, Padded), mech, type(p).__name__):
        return False
    ls = [int(x) for x in p.lengths]
    ok = ctx.check(len(p) == len(cols) and ls == [int(src.lengths[j]) for j in cols], mech + ":lengths", f"{ls} want {[int(src.lengths[j]) for j in cols]}")
    ok = ctx.check([int(x) for x in p.indices] == [int(src.indices[j]) for j in cols], mech + ":indices", f"{p.indices} want {[int(src.indices[j]) for j in cols]}") and ok
    ok = ctx.check(ls == sorted(ls, reverse=True), mech + ":sorted", f"{ls}") and ok
    ok = ctx.check(p.data.shape == (src.data.shape[0], len(cols), src.data.shape[2]) and p.data.dtype == src.data.dtype, mech + ":data", f"{p.data.dtype}{p.data.shape}") and ok
    if ok:
        ctx.check(np.array_equal(p.data, np.stack([src.data[:, j] for j in cols], axis=1) if cols else src.data[:, :0]), mech + ":data", "columns")
        want = [sum(k > t for k in ls) for t in range(src.data.shape[0])]
        ok = ctx.check([int(x) for x in p.size_at_t] == want, mech + ":size_at_t", f"{list(p.size_at_t)} want {want}")
    return ok


@group(200, 4000, min_obs=400)
def padded_index(ctx, rng):
    seqs = rand_seqs(rng, trail=(int(rng.randint(1, 4)),))
    p = foreign_padded(rng, seqs) if rng.randint(2) else OPS.list2padded(seqs)
    d0 = cont.digest(p)
    trace = []
    cur = p
    for depth in range(int(rng.randint(1, 3))):
        n = len(cur)
        kind, ix = rand_index(rng, n)
        cols = select(list(range(n)), kind, ix)
        if not (kind == "slice" or kind == "int" or (kind == "step" and ix.step > 0)):
            cols = sorted(cols)
        trace.append((kind, repr(ix)))
        ctx.describe("padded", lengths=[len(s) for s in seqs], indices=p.indices.tolist(), trace=trace)
        new = cur[ix]
        if not check_cols(ctx, new, cols, cur, "padded:" + kind):
            return
        # content: each column carries the sequence its label names
        for j, i in enumerate(new.indices):
            s = seqs[int(i)]
            ctx.check(np.array_equal(new.data[: len(s), j], s), "padded:content", f"column {j} labelled {int(i)}")
        cur = new
        ctx.note("selections")
        if len(cur) == 0:
            break
    ctx.check(cont.digest(p) == d0, "padded:mutates", "the source changed")
    n = len(seqs)
    for bad in (n, -n - 1, [0, n]):
        ctx.raises(lambda: p[bad], "padded:bounds", f"index {bad} of {n}", IndexError)
    ctx.sig(tuple(len(s) for s in seqs), tuple(trace))


@group(60, 800, min_obs=100)
def copies(ctx, rng):
    seqs = rand_seqs(rng, trail=(2,))
    p = foreign_padded(rng, seqs)
    c = p.copy()
    ctx.describe("copy", lengths=[len(s) for s in seqs])
    d0 = cont.digest(p)
    ctx.check(cont.digest(c) == d0, "copy", "copy differs")
    for a, b in zip(cont.leaves(p), cont.leaves(c)):
        ctx.check(not np.shares_memory(a, b), "copy:alias", "copy shares memory")
    for f in ("data", "size_at_t", "lengths", "indices"):
        a = getattr(c, f)
        a[...] = 0
    ctx.check(cont.digest(p) == d0, "copy:alias", "changing the copy changed the original")
    c = p.copy()
    p.data[...] = 1
    p.lengths[...] = 0
    ctx.check(cont.digest(c) == d0, "copy:alias", "changing the original changed the copy")
    ctx.sig(tuple(len(s) for s in seqs))


@group(100, 2000, min_obs=200)
def pairs_index(ctx, rng):
    n = int(rng.choice([1, 2, 3, 5, 8]))
    k = rng.randint(4)
    lst = list(range(n))
    if k == 0:
        pr, get = Pairs(list(lst), [str(i) for i in lst]), lambda x: ([x.one] if not isinstance(x.one, list) else x.one, [x.two] if isinstance(x.two, str) else x.two)
    elif k == 1:
        pr, get = Pairs(np.arange(n), np.arange(n) * 1.5), lambda x: (np.atleast_1d(x.one).tolist(), (np.atleast_1d(x.two) / 1.5).astype(int).astype(str).tolist())
    elif k == 2:
        sq = [np.full((int(rng.randint(1, 4)), 2), i, "f") for i in lst]
        r = ragged(rng, sq)
        ids = lambda x: [int(a) for a in np.split(x.data[:, 0], np.cumsum(x.lengths)[:-1]) for a in a[:1]] if len(x) else []
        pr, get = Pairs(r, Ragged(r.data.copy(), r.lengths.copy())), lambda x: (ids(x.one), [str(i) for i in ids(x.two)])
    else:
        pr, get = Pairs(np.arange(n), Pairs(np.arange(n) + 10, np.arange(n) + 20)), lambda x: (np.atleast_1d(x.one).tolist(), [str(i - 10) if i - 10 == j - 20 else "?" for i, j in zip(np.atleast_1d(x.two.one).tolist(), np.atleast_1d(x.two.two).tolist())])
    kind, ix = rand_index(rng, n, allow_list=k != 0)
    if k == 0 and kind == "int":
        ix = int(ix)
    ctx.describe("pairs", n=n, container=k, index=repr(ix))
    ctx.check(len(pr) == n, "pairs:len", f"{len(pr)}")
    got = pr[ix]
    want = select(lst, kind, ix)
    ctx.check(isinstance(got, Pairs), "pairs:type", type(got).__name__)
    a, b = get(got)
    ctx.check(list(a) == want and list(b) == [str(i) for i in want], "pairs:items", f"{a} {b} want {want}")
    ctx.sig(k, n, kind, repr(ix))


@group(150, 3000, min_obs=300)
def args_kwargs(ctx, rng):
    na, nk = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    args = tuple([object(), np.arange(3), None, "x", [1]][rng.randint(5)] for _ in range(na))
    names = [["a", "b", "Key", "0", "ü"][i] for i in rng.permutation(5)[:nk]]
    kwargs = {k: [object(), np.zeros(2), 7, "s"][rng.randint(4)] for k in names}
    ak = ArgsKwargs(args=args, kwargs=dict(kwargs))
    ctx.describe("ArgsKwargs", args=na, kwargs=names)
    items = list(ak.items())
    ctx.check([k for k, _ in items] == list(range(na)) + names, "ak:items", f"{[k for k, _ in items]}")
    ctx.check(all(v is w for (_, v), w in zip(items, list(args) + list(kwargs.values()))), "ak:items", "values")
    ctx.check(list(ak.keys()) == list(range(na)) + names, "ak:keys", f"{list(ak.keys())}")
    vals = list(ak.values())
    ctx.check(len(vals) == na + nk and all(v is w for v, w in zip(vals, list(args) + list(kwargs.values()))), "ak:values")
    back = ArgsKwargs.from_items(items)
    ctx.check(len(back.args) == na and all(a is b for a, b in zip(back.args, args)), "ak:roundtrip", "args")
    ctx.check(list(back.kwargs) == names and all(back.kwargs[k] is kwargs[k] for k in names), "ak:roundtrip", "kwargs")
    # items in any interleaving: args in the order given, whatever their keys
    mixed = [(int(rng.randint(100)), a) for a in args] + list(kwargs.items())
    order = rng.permutation(len(mixed))
    mixed = [mixed[i] for i in order]
    got = ArgsKwargs.from_items(mixed)
    wa = [v for k, v in mixed if isinstance(k, int)]
    ctx.check(len(got.args) == len(wa) and all(a is b for a, b in zip(got.args, wa)), "ak:order", "args")
    ctx.check({k: id(v) for k, v in got.kwargs.items()} == {k: id(v) for k, v in mixed if isinstance(k, str)}, "ak:order", "kwargs")
    ctx.check(isinstance(got.args, tuple) and isinstance(got.kwargs, dict), "ak:types")
    ctx.sig(na, tuple(names), tuple(order))
