"""Minibatching: every item of the source carries its own index, an event log
records each batch as it is produced, and an offline checker verifies
exactly-once delivery, alignment of the parallel sequences inside each batch,
the requested sizes in order, order preservation without shuffling, the length
reported, independence of interleaved iterations, and that the source is
unchanged.  Distinct = container kinds, number of items, sizes, shuffle,
buffer."""
import itertools

import numpy as np

from thinc.api import NumpyOps, Schedule, compounding, constant, decaying
from thinc.backends.ops import Ops
from thinc.types import Padded, Pairs, Ragged, SizedGenerator

from vlib import cont
from vlib.core import group

QUICK_X = 15
OPS = [NumpyOps(), NumpyOps(use_blis=False), Ops()]
KINDS = ["list", "tuple", "array1", "array2", "array3", "ints", "ragged", "ragged3", "pairs_list", "pairs_array", "pairs_ragged", "strings", "objects", "arrays", "fortran"]
ASSUMPTIONS = [
    "padded batches are delivered with their columns sorted by length (documented container format), so alignment is checked through their original-position labels",
    "a list of sizes shorter than the data may be refused with any exception",
]


class Obj:
    def __init__(self, i):
        self.i = i


def make(rng, kind, n):
    """A sequence of n items; item i is identifiable."""
    if kind == "list":
        return list(range(n))
    if kind == "tuple":
        return tuple(range(n))
    if kind == "strings":
        return [f"s{i}" for i in range(n)]
    if kind == "objects":
        return [Obj(i) for i in range(n)]
    if kind == "arrays":
        return [np.full((int(rng.randint(0, 3)) + 1, 2), i, "f") for i in range(n)]
    if kind == "ints":
        return np.arange(n, dtype=["i4", "u8", "i8"][rng.randint(3)])
    if kind == "array1":
        return np.arange(n, dtype="f4")
    if kind == "array2":
        a = np.tile(np.arange(n, dtype="f4")[:, None], (1, 3))
        return a[:, ::2] if rng.randint(3) == 0 else a
    if kind == "fortran":
        return np.asfortranarray(np.tile(np.arange(n, dtype="f8")[:, None], (1, 3)))
    if kind == "array3":
        return np.tile(np.arange(n, dtype="f8")[:, None, None], (1, 2, 2))
    if kind in ("ragged", "ragged3"):
        ls = rng.randint(0, 4, n).astype("i")
        trail = (2,) if kind == "ragged" else (2, 3)
        rows = np.repeat(np.arange(n), ls).astype("f")
        data = np.tile(rows.reshape((-1,) + (1,) * len(trail)), (1,) + trail)
        return Ragged(np.ascontiguousarray(data), ls)
    if kind == "pairs_list":
        return Pairs(list(range(n)), [f"s{i}" for i in range(n)])
    if kind == "pairs_array":
        return Pairs(make(rng, "array2", n), make(rng, "ints", n))
    if kind == "pairs_ragged":
        return Pairs(make(rng, "ragged", n), make(rng, "list", n))
    if kind == "padded":
        seqs = [np.full((int(rng.randint(1, 4)), 2), i, "f") for i in range(n)]
        return OPS[0].list2padded(seqs)
    raise ValueError(kind)


def ids(kind, src, batch, ctx, mech):
    """The source positions a batch holds, read from its content."""
    if kind in ("list", "tuple"):
        ctx.check(type(batch) is type(src), mech + ":type", f"{type(batch).__name__} from {kind}")
        return [int(x) for x in batch]
    if kind == "strings":
        return [int(s[1:]) for s in batch]
    if kind == "objects":
        ctx.check(all(o is src[o.i] for o in batch), mech + ":type", "items are not the items of the source")
        return [o.i for o in batch]
    if kind == "arrays":
        ctx.check(all(len(a) and a.shape == src[int(a[0, 0])].shape for a in batch), mech + ":content", "item changed")
        return [int(a[0, 0]) for a in batch]
    if kind in ("ints", "array1", "array2", "array3", "fortran"):
        ctx.check(isinstance(batch, np.ndarray) and batch.dtype == src.dtype and batch.shape[1:] == src.shape[1:], mech + ":type", "dtype or shape")
        ctx.check(batch.flags.c_contiguous, mech + ":contiguous", "batch is not contiguous")
        rows = batch.reshape(len(batch), -1)
        ctx.check(bool((rows == rows[:, :1]).all()), mech + ":content", "row mixes items")
        return [int(r[0]) for r in rows]
    if kind in ("ragged", "ragged3"):
        ctx.check(isinstance(batch, Ragged), mech + ":type", type(batch).__name__)
        out, c = [], 0
        ctx.check(len(batch.data) == int(np.sum(batch.lengths)) or batch.data.size == 0, mech + ":content", "rows do not match lengths")
        if batch.data.size:
            ctx.check(batch.dataXd.shape[1:] == src.dataXd.shape[1:], mech + ":content", "trailing shape")
        for k in batch.lengths:
            rows = batch.data[c : c + int(k)]
            c += int(k)
            if len(rows) == 0:
                out.append(None)  # an empty item has no content to identify it
            else:
                ctx.check(bool((rows == rows[0, 0]).all()), mech + ":content", "sequence mixes items")
                i = int(rows[0, 0])
                ctx.check(int(src.lengths[i]) == int(k), mech + ":content", f"sequence {i} has {k} rows instead of {int(src.lengths[i])}")
                out.append(i)
        return out
    if kind.startswith("pairs"):
        ctx.check(isinstance(batch, Pairs), mech + ":type", type(batch).__name__)
        k1, k2 = {"pairs_list": ("list", "strings"), "pairs_array": ("array2", "ints"), "pairs_ragged": ("ragged", "list")}[kind]
        a = ids(k1, src.one, batch.one, ctx, mech)
        b = ids(k2, src.two, batch.two, ctx, mech)
        ctx.check(len(a) == len(b) and all(x is None or x == y for x, y in zip(a, b)), mech + ":pairs", f"pairs are not aligned: {a} {b}")
        return b
    raise ValueError(kind)


def sizes(ctx, rng, n):
    """(argument, function giving the size of batch k)."""
    k = rng.randint(7)
    if k == 0:
        s = int(rng.randint(1, n + 3))
        return s, lambda: itertools.repeat(s), "fixed"
    if k == 1:
        ls = [int(x) for x in rng.randint(1, 6, n + 1)]
        return ls, lambda: iter(ls), "list"
    if k == 2:
        ls = [int(x) for x in rng.randint(1, 6, n + 1)]
        return (x for x in ls), lambda: iter(ls), "generator"
    if k == 3:
        a, b, c = float(rng.randint(1, 4)), float(rng.randint(4, 9)), 1 + rng.rand()
        sch = compounding(a, b, c)
        return sch.to_generator(), lambda: (int(min(b, a * c**i)) for i in itertools.count()), "compounding"
    if k == 4:
        ls = [int(x) for x in rng.randint(1, 6, n + 1)]
        return tuple(ls), lambda: iter(ls), "tuple"
    if k == 5:
        ls = rng.randint(1, 6, n + 1).astype("i4")
        return ls, lambda: iter([int(x) for x in ls]), "int array"
    v = float(rng.randint(1, 5)) + 0.5
    return constant(v).to_generator(), lambda: itertools.repeat(int(v)), "fractional schedule"


def expected_sizes(it, n):
    out = []
    while sum(out) < n:
        out.append(next(it))
    if out:
        out[-1] -= sum(out) - n
    return out


def verify(ctx, log, kinds, srcs, want, n, shuffle, mech):
    """log: list of batches, each a list with one batch per sequence."""
    ctx.note("batches", len(log))
    got_sizes = []
    seen = []
    for b in log:
        if not ctx.check(len(b) == len(kinds), mech + ":sequences", f"{len(b)} of {len(kinds)} sequences in a batch"):
            return
        rows = [ids(k, s, x, ctx, mech) for k, s, x in zip(kinds, srcs, b)]
        ls = {len(r) for r in rows}
        if not ctx.check(len(ls) == 1, mech + ":aligned", f"parts have lengths {ls}"):
            return
        merged = []
        for pos in zip(*rows):
            vals = {p for p in pos if p is not None}
            ctx.check(len(vals) <= 1, mech + ":aligned", f"one row holds items {sorted(vals)}")
            merged.append(vals.pop() if vals else None)
        got_sizes.append(len(merged))
        seen += merged
        ctx.note("items", len(merged))
    ctx.check(got_sizes == want, mech + ":sizes", f"sizes {got_sizes} want {want}")
    known = [i for i in seen if i is not None]
    ctx.check(len(seen) == n, mech + ":once", f"{len(seen)} of {n} items")
    ctx.check(len(set(known)) == len(known), mech + ":once", f"items repeated: {sorted(seen, key=str)}")
    if not any(i is None for i in seen):
        ctx.check(sorted(known) == list(range(n)), mech + ":once", f"items missing: {known}")
    if not shuffle:
        ctx.check(all(a is None or a == b for a, b in zip(seen, range(n))), mech + ":order", f"order changed: {seen}")
    return seen


@group(250, 5000, min_obs=400)
def batches(ctx, rng):
    ops = OPS[rng.randint(3)]
    n = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 30]))
    nseq = int(rng.choice([1, 1, 2, 3, 4]))
    multi = nseq > 1 or bool(rng.randint(2))
    kinds = [KINDS[rng.randint(len(KINDS))] for _ in range(nseq)]
    srcs = [make(rng, k, n) for k in kinds]
    shuffle = bool(rng.randint(2))
    kw = {}
    if shuffle or rng.randint(2):
        kw["shuffle"] = shuffle
    if rng.randint(2):
        kw["buffer"] = int(rng.choice([1, 2, 3, 100]))
    size, it, sname = sizes(ctx, rng, n)
    ctx.describe("multibatch" if multi else "minibatch", n=n, kinds=kinds, sizes=sname, **kw)
    want = expected_sizes(it(), n)
    before = [cont.digest(s) if not isinstance(s, Pairs) else cont.digest([s.one, s.two]) for s in srcs]
    b = ops.multibatch(size, *srcs, **kw) if multi else ops.minibatch(size, srcs[0], **kw)
    ctx.check(isinstance(b, SizedGenerator), "type", type(b).__name__)
    ctx.check(len(b) == len(want), "length", f"len() is {len(b)}, {len(want)} batches expected")
    seqs = []
    for rep in range(int(rng.randint(1, 4))):
        log = list(b)
        if not multi:
            log = [[x] for x in log]
        ctx.check(len(log) == len(b), "length", f"{len(log)} batches, len() is {len(b)}")
        seqs.append(verify(ctx, log, kinds, srcs, want, n, shuffle, "batches"))
    if shuffle and n >= 30 and len(seqs) > 1 and seqs[0] is not None and None not in seqs[0]:
        ctx.check(seqs[0] != list(range(n)), "shuffle", "shuffled batches are in the original order")
        ctx.check(seqs[0] != seqs[1], "shuffle", "two epochs have the same order")
    after = [cont.digest(s) if not isinstance(s, Pairs) else cont.digest([s.one, s.two]) for s in srcs]
    ctx.check(before == after, "source", "the source changed")
    ctx.sig(tuple(kinds), n, sname, shuffle, kw.get("buffer"), multi)


@group(120, 2000, min_obs=200)
def interleaved(ctx, rng):
    """Several iterations of one generator in progress at the same time, and
    iterations that are abandoned half-way."""
    ops = OPS[rng.randint(2)]
    n = int(rng.choice([2, 5, 8, 13, 20]))
    kinds = [["list", "array2", "ragged", "pairs_list"][rng.randint(4)], "list"]
    srcs = [make(rng, k, n) for k in kinds]
    size, it, sname = sizes(ctx, rng, n)
    shuffle = bool(rng.randint(4))
    buf = int(rng.choice([1, 1, 2, 5]))
    single = rng.randint(3) == 0
    if single:
        kinds, srcs = kinds[:1], srcs[:1]
        b = ops.minibatch(size, srcs[0], shuffle=shuffle, buffer=buf)
    else:
        b = ops.multibatch(size, *srcs, shuffle=shuffle, buffer=buf)
    want = expected_sizes(it(), n)
    k = int(rng.randint(2, 4))
    its = [iter(b) for _ in range(k)]
    logs = [[] for _ in range(k)]
    live = set(range(k))
    order = []
    while live:
        j = sorted(live)[rng.randint(len(live))]
        order.append(j)
        try:
            x = next(its[j])
            logs[j].append([x] if single else x)
        except StopIteration:
            live.discard(j)
        if rng.randint(40) == 0:
            for _ in zip(b, range(2)):  # an abandoned iteration
                pass
    ctx.describe("interleaved", n=n, kinds=kinds, sizes=sname, shuffle=shuffle, buffer=buf, order=order)
    for log in logs:
        verify(ctx, log, kinds, srcs, want, n, shuffle, "interleaved")
    ctx.sig(tuple(order), sname, shuffle)


@group(3, 60, min_obs=4)
def large(ctx, rng):
    """Many items, in few large batches or in very many small ones."""
    ops = OPS[rng.randint(2)]
    n = int(rng.choice([70, 200, 300, 1100, 5000, 9000]))
    kinds = [["list", "array1", "ints", "tuple", "pairs_list", "strings"][rng.randint(6)] for _ in range(2)]
    srcs = [make(rng, k, n) for k in kinds]
    size = int(rng.choice([1, 64, 65, 128, 1000, 4500, n - 1, n, n + 1, 2 * n]))
    size = max(size, n // 2500)
    shuffle = bool(rng.randint(3))
    ctx.describe("large", n=n, kinds=kinds, size=size, shuffle=shuffle)
    want = expected_sizes(itertools.repeat(size), n)
    b = ops.multibatch(size, *srcs, shuffle=shuffle, buffer=int(rng.choice([1, 2000])))
    ctx.check(len(b) == len(want), "large:length", f"len() is {len(b)}, {len(want)} batches expected")
    verify(ctx, list(b), kinds, srcs, want, n, shuffle, "large")
    verify(ctx, [[x] for x in ops.minibatch(size, srcs[0], shuffle=shuffle)], kinds[:1], srcs[:1], want, n, shuffle, "large")
    ctx.sig(tuple(kinds), n, size, shuffle)


@group(60, 600, min_obs=60)
def padded_batches(ctx, rng):
    ops = OPS[0]
    n = int(rng.randint(1, 9))
    src = make(rng, "padded", n)
    size, it, sname = sizes(ctx, rng, n)
    shuffle = bool(rng.randint(2))
    ctx.describe("padded", n=n, sizes=sname, shuffle=shuffle)
    want = expected_sizes(it(), n)
    seen, got = [], []
    for p in ops.minibatch(size, src, shuffle=shuffle):
        ctx.check(isinstance(p, Padded), "padded:type", type(p).__name__)
        got.append(len(p))
        ls = [int(x) for x in p.lengths]
        ctx.check(ls == sorted(ls, reverse=True), "padded:format", f"lengths {ls}")
        ctx.check([int(x) for x in p.size_at_t] == [sum(k > t for k in ls) for t in range(p.data.shape[0])], "padded:format", "size_at_t")
        for j, i in enumerate(p.indices):
            rows = p.data[: ls[j], j]
            ctx.check(bool((rows == int(i)).all()), "padded:content", f"column labelled {int(i)} holds {rows}")
            seen.append(int(i))
    ctx.check(got == want, "padded:sizes", f"{got} want {want}")
    ctx.check(sorted(seen) == list(range(n)), "padded:once", f"{seen}")
    ctx.sig(n, sname, shuffle)


@group(40, 300, min_obs=80)
def refusals(ctx, rng):
    ops = OPS[rng.randint(2)]
    data = make(rng, KINDS[rng.randint(len(KINDS))], int(rng.randint(1, 6)))
    bad = [0, -1, [2, 0], [0.5] * 9, iter([-3])][rng.randint(5)]
    if isinstance(bad, list) and bad[0] == 2 and len(data) <= 2:
        bad = 0
    ctx.describe("refused", size=repr(bad))
    gen = (x for x in [1, 2])
    ctx.raises(lambda: list(ops.minibatch(bad, data)), "refuse:size", "batch size below one", ValueError)
    ctx.raises(lambda: list(ops.minibatch(2, gen)), "refuse:generator", "unsized data", ValueError)
    ctx.raises(lambda: list(ops.multibatch(2, data, gen)), "refuse:generator", "unsized data", ValueError)
    if len(data) > 1:
        ctx.raises(lambda: list(ops.minibatch([1], data)), "refuse:short", "too few sizes", BaseException)
    ctx.sig(repr(bad), type(data).__name__)
