"""Sequence-format conversions: random batches (all length patterns incl. zero
lengths, ties and the empty batch; 1d-4d items; float and integer dtypes) are
converted along random paths list -> ragged/padded/array/flat -> list; an
oracle that places every item by hand checks each intermediate container and
the final batch, and the conversion layers' callbacks are fed position-coded
gradients.  Distinct = path, dtype, item rank, lengths, padding."""
import numpy as np

from thinc.api import (
    NumpyOps,
    chain,
    list2array,
    list2padded,
    list2ragged,
    padded2list,
    ragged2list,
    strings2arrays,
)
from thinc.backends.ops import Ops
from thinc.types import Padded, Ragged

from vlib import cont
from vlib.core import group

QUICK_X = 15
OPS = [NumpyOps(), NumpyOps(use_blis=False), Ops()]
DTYPES = ["f4", "f8", "i4", "i8", "u8"]
ASSUMPTIONS = [
    "padding separators (flatten pad=n) are placed around non-empty items; empty items take no room (the documented inverse restores them)",
    "items with a zero-sized trailing dimension are not exercised (they carry no data)",
]


def make(rng, ndim=2, dtype=None, n=None, min_len=0):
    dtype = dtype or DTYPES[rng.randint(len(DTYPES))]
    if n is None and rng.randint(15) == 0:
        return [], dtype
    ls = cont.rand_lengths(rng, n=n, min_len=min_len)
    trail = tuple(int(rng.randint(1, 4)) for _ in range(ndim - 1))
    out, c = [], 1
    for k in ls:
        size = int(np.prod((int(k),) + trail))
        a = (np.arange(c, c + size).reshape((int(k),) + trail) * (1 if dtype[0] == "u" or rng.randint(2) else -1)).astype(dtype)
        c += size
        if rng.randint(5) == 0 and a.ndim > 1:
            a = np.asfortranarray(a)
        elif rng.randint(6) == 0:
            b = np.zeros((2 * len(a),) + trail, dtype)
            b[::2] = a
            a = b[::2]
        out.append(a)
    return out, dtype


def same_list(ctx, got, want, mech, msg=""):
    ok = ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), mech, f"{msg}: {len(got)} items instead of {len(want)}")
    if not ok:
        return
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g), np.asarray(w)
        if not ctx.check(g.shape == w.shape and g.dtype == w.dtype and np.array_equal(g, w), mech,
                         f"{msg}: item {i}: {g.dtype}{g.shape} instead of {w.dtype}{w.shape}", got=g, want=w):
            return


def lens(seqs):
    return [len(s) for s in seqs]


def flat_ref(seqs, pad):
    """Hand-placed flat form."""
    rows = []
    real = [s for s in seqs if s.size]
    zero = np.zeros(real[0].shape[1:], real[0].dtype) if real else None
    for s in real:
        rows += [zero] * pad + list(s)
    if real:
        rows += [zero] * pad
    return rows


@group(200, 4000, min_obs=200)
def flatten_unflatten(ctx, rng):
    ops = OPS[rng.randint(3)]
    ndim = int(rng.randint(1, 5))
    seqs, dt = make(rng, ndim)
    pad = int(rng.choice([0, 0, 1, 2, 5]))
    want_dt = [None, None, "float32", "float64", "int64"][rng.randint(5)]
    ctx.describe("flatten", lengths=lens(seqs), dtype=dt, ndim=ndim, pad=pad, to=want_dt)
    before = [s.copy() for s in seqs]
    X = tuple(seqs) if rng.randint(3) == 0 else seqs
    if not seqs:
        nd = int(rng.randint(1, 4))
        flat = ops.flatten(X, dtype=want_dt, pad=pad, ndim_if_empty=nd)
        ctx.check(flat.shape == (0,) * nd, "flatten:empty", f"shape {flat.shape}")
        ctx.check(flat.dtype == np.dtype(want_dt or "f"), "flatten:empty", f"dtype {flat.dtype}")
        same_list(ctx, ops.unflatten(flat, np.zeros(0, "i"), pad=pad), [], "unflatten:empty")
        return
    flat = ops.flatten(X, dtype=want_dt, pad=pad)
    rows = flat_ref(seqs, pad)
    ctx.check(flat.shape == (len(rows),) + seqs[0].shape[1:], "flatten:shape", f"{flat.shape}, {len(rows)} rows expected")
    ctx.check(flat.dtype == np.dtype(want_dt or dt), "flatten:dtype", f"{flat.dtype}")
    if rows:
        ctx.check(np.array_equal(flat, np.stack(rows).astype(flat.dtype)), "flatten:place", "items or separators misplaced", got=flat, want=np.stack(rows))
    for a, b in zip(seqs, before):
        ctx.check(np.array_equal(a, b), "flatten:mutates")
    ls = np.asarray(lens(seqs), dtype=["i4", "i8"][rng.randint(2)])
    back = ops.unflatten(flat, ls, pad=pad)
    same_list(ctx, back, [s.astype(flat.dtype) for s in seqs], "flatten:roundtrip", f"pad={pad}")
    ctx.sig(type(ops).__name__, dt, ndim, pad, tuple(lens(seqs)))


@group(150, 3000, min_obs=150)
def pad_unpad(ctx, rng):
    ops = OPS[rng.randint(3)]
    ndim = int(rng.randint(1, 5))
    seqs, dt = make(rng, ndim)
    rt = int(rng.choice([1, 1, 2, 3, 4, 8, 16]))
    ctx.describe("pad", lengths=lens(seqs), dtype=dt, round_to=rt)
    if not seqs:
        ctx.raises(lambda: ops.pad(seqs, round_to=rt), "pad:refuse", "empty list of sequences", ValueError)
        return
    arr = ops.pad(seqs, round_to=rt)
    m = max(lens(seqs))
    want = -(-m // rt) * rt
    ctx.check(arr.shape == (len(seqs), want) + seqs[0].shape[1:], "pad:shape", f"{arr.shape}, want length {want}")
    ctx.check(arr.dtype == np.dtype(dt), "pad:dtype", f"{arr.dtype}")
    for i, s in enumerate(seqs):
        ctx.check(np.array_equal(arr[i, : len(s)], s), "pad:place", f"item {i}")
        ctx.check(not arr[i, len(s) :].any(), "pad:zeros", f"padding of item {i} is not zero")
    same_list(ctx, ops.unpad(arr, lens(seqs)), seqs, "pad:roundtrip")
    ctx.raises(lambda: ops.pad(seqs, round_to=int(rng.randint(-3, 1))), "pad:refuse", "round_to < 1", ValueError)
    if len(seqs) > 1:
        bad = list(seqs)
        k = rng.randint(3)
        if k == 0:
            bad[-1] = bad[-1][..., None]
        elif k == 1:
            bad[-1] = bad[-1].astype("f8" if dt == "f4" else "f4")
        elif ndim > 1:
            bad[-1] = np.concatenate([bad[-1], bad[-1]], axis=-1)
        else:
            return
        ctx.raises(lambda: ops.pad(bad), "pad:refuse", "inconsistent items", ValueError)
    ctx.sig(dt, ndim, rt, tuple(lens(seqs)))


def check_padded(ctx, p, seqs, mech):
    """The documented invariants of the padded format."""
    if not ctx.check(isinstance(p, Padded), mech, f"is a {type(p).__name__}"):
        return
    n = len(seqs)
    ls = [int(x) for x in p.lengths]
    ix = [int(x) for x in p.indices]
    ctx.check(p.data.ndim == 3 and p.data.shape[1] == n, mech + ":shape", f"{p.data.shape} for {n} sequences")
    ctx.check(ls == sorted(ls, reverse=True), mech + ":sorted", f"lengths {ls} are not decreasing")
    ctx.check(sorted(ix) == list(range(n)), mech + ":indices", f"{ix} is not a permutation")
    if not ctx.check(len(ls) == n and len(ix) == n and [len(seqs[i]) for i in ix] == ls, mech + ":lengths", f"lengths {ls} indices {ix} of {lens(seqs)}"):
        return
    m = max(lens(seqs)) if n else 0
    ctx.check(p.data.shape[0] == m, mech + ":steps", f"{p.data.shape[0]} steps, longest has {m}")
    want = [sum(1 for k in ls if k > t) for t in range(m)]
    ctx.check([int(x) for x in p.size_at_t] == want, mech + ":size_at_t", f"{list(p.size_at_t)} want {want}")
    if n:
        ctx.check(p.data.dtype == seqs[0].dtype, mech + ":dtype", f"{p.data.dtype} from {seqs[0].dtype}")
    for j, i in enumerate(ix):
        ctx.check(np.array_equal(p.data[: ls[j], j], seqs[i]), mech + ":place", f"sequence {i} in column {j}")
        ctx.check(not p.data[ls[j] :, j].any(), mech + ":zeros", f"padding of column {j}")


@group(250, 5000, min_obs=250)
def padded_format(ctx, rng):
    ops = OPS[rng.randint(3)]
    seqs, dt = make(rng, 2)
    ctx.describe("list2padded", lengths=lens(seqs), dtype=dt)
    before = [s.copy() for s in seqs]
    p = ops.list2padded(seqs)
    check_padded(ctx, p, seqs, "list2padded")
    same_list(ctx, ops.padded2list(p), before, "padded2list:roundtrip")
    check_padded(ctx, p, before, "padded2list:mutates")
    ctx.sig(type(ops).__name__, dt, tuple(lens(seqs)))


@group(3, 40, min_obs=12)
def large(ctx, rng):
    """Batches of many sequences, and sequences of many rows."""
    ops = OPS[rng.randint(3)]
    if rng.randint(2):
        n = int(rng.choice([130, 260, 300, 700]))
        ls = rng.randint(0, 4, n)
    else:
        ls = np.array([int(rng.choice([200, 300, 5000, 33000, 66000])), int(rng.randint(1, 300)), 0, 2][: 1 + rng.randint(1, 4)])
        ls = ls[rng.permutation(len(ls))]
    w = int(rng.randint(1, 3))
    seqs = [rng.randint(-1000, 1000, (int(k), w)).astype("f") for k in ls]
    ctx.describe("large", n=len(ls), longest=int(ls.max()), rows=int(ls.sum()))
    p = ops.list2padded(seqs)
    check_padded(ctx, p, seqs, "large:list2padded")
    same_list(ctx, ops.padded2list(p), seqs, "large:padded2list")
    pad = int(rng.choice([0, 1, 3]))
    flat = ops.flatten(seqs, pad=pad)
    ctx.check(flat.shape[0] == int(ls.sum()) + (pad * (int((ls > 0).sum()) + 1)), "large:flatten", f"{flat.shape[0]} rows")
    same_list(ctx, ops.unflatten(flat, np.array(ls, "i"), pad=pad), seqs, "large:unflatten")
    rt = int(rng.choice([1, 8, 100]))
    arr = ops.pad(seqs, round_to=rt)
    ctx.check(arr.shape == (len(ls), -(-int(ls.max()) // rt) * rt, w), "large:pad", f"{arr.shape}")
    same_list(ctx, ops.unpad(arr, [int(k) for k in ls]), seqs, "large:unpad")
    for a, b in (("list", "ragged"), ("list", "padded")):
        m = LAYERS[(a, b)]()
        Y, bp = m(seqs, True)
        same_list(ctx, bp(Y), seqs, f"large:{a}2{b}")
    ctx.sig(len(ls), int(ls.max()), w, pad, rt)


def foreign_padded(rng, seqs):
    """A valid padded batch whose equally long sequences are in another order."""
    order = sorted(range(len(seqs)), key=lambda i: (-len(seqs[i]), rng.rand()))
    m = max(lens(seqs))
    data = np.zeros((m, len(seqs), seqs[0].shape[1]), seqs[0].dtype)
    for j, i in enumerate(order):
        data[: len(seqs[i]), j] = seqs[i]
    ls = np.array([len(seqs[i]) for i in order], "i")
    size = np.array([int((ls > t).sum()) for t in range(m)], "i")
    return Padded(data, size, ls, np.array(order, "i"))


@group(150, 3000, min_obs=100)
def padded_other_order(ctx, rng):
    """Padded batches built elsewhere (any order of ties) convert exactly, and
    the callback keeps the columns of the input batch."""
    ops = OPS[rng.randint(2)]
    seqs, dt = make(rng, 2, dtype=["f4", "f8"][rng.randint(2)], n=int(rng.randint(1, 7)))
    if not seqs:
        return
    p = foreign_padded(rng, seqs)
    ctx.describe("padded2list", lengths=lens(seqs), indices=p.indices.tolist())
    same_list(ctx, ops.padded2list(p), seqs, "padded2list:foreign")
    m = padded2list()
    Y, bp = m(p, True)
    same_list(ctx, Y, seqs, "layer:padded2list")
    dY = [(np.arange(y.size).reshape(y.shape) + 100 * i).astype(y.dtype) for i, y in enumerate(Y)]
    dX = bp([d.copy() for d in dY])
    check_padded(ctx, dX, dY, "layer:padded2list:backprop")
    ctx.check(np.array_equal(dX.indices, p.indices), "layer:padded2list:columns", f"gradient columns {dX.indices.tolist()} for input columns {p.indices.tolist()}")
    ctx.sig(tuple(p.indices.tolist()), tuple(lens(seqs)))


LAYERS = {
    ("list", "ragged"): list2ragged,
    ("ragged", "list"): ragged2list,
    ("list", "padded"): list2padded,
    ("padded", "list"): padded2list,
    ("list", "array"): list2array,
}


def as_kind(kind, seqs, ops):
    if kind == "list":
        return [s.copy() for s in seqs]
    if kind == "ragged":
        n = sum(lens(seqs))
        data = np.concatenate(seqs) if seqs else np.zeros((0, 0), "f")
        return Ragged(data, np.asarray(lens(seqs), "i"))
    if kind == "padded":
        return ops.list2padded([s.copy() for s in seqs])
    return np.concatenate(seqs)


def check_kind(ctx, kind, y, seqs, mech, ndim):
    if kind == "list":
        same_list(ctx, y, seqs, mech)
    elif kind == "ragged":
        if not ctx.check(isinstance(y, Ragged), mech, f"is a {type(y).__name__}"):
            return
        ctx.check([int(k) for k in y.lengths] == lens(seqs), mech, f"lengths {list(y.lengths)} want {lens(seqs)}")
        if sum(lens(seqs)):
            want = np.concatenate([s for s in seqs])
            ctx.check(y.dataXd.shape == want.shape and np.array_equal(y.dataXd, want) and y.dataXd.dtype == want.dtype, mech, "data", got=y.dataXd, want=want)
            ctx.check(y.data.ndim == 2 and y.data.shape[0] == want.shape[0], mech, "2d view")
    elif kind == "padded":
        check_padded(ctx, y, seqs, mech)
    else:
        if sum(lens(seqs)):
            want = np.concatenate(seqs)
            ctx.check(y.shape == want.shape and np.array_equal(y, want) and y.dtype == want.dtype, mech, "rows", got=y, want=want)


@group(300, 6000, min_obs=300)
def conversion_layers(ctx, rng):
    ops = NumpyOps()
    (a, b), make_layer = list(LAYERS.items())[rng.randint(len(LAYERS))]
    ndim = 2 if "padded" in (a, b) else int(rng.randint(1, 5))
    seqs, dt = make(rng, ndim)
    train = bool(rng.randint(2))
    ctx.describe(f"{a}2{b}", lengths=lens(seqs), dtype=dt, ndim=ndim, train=train)
    model = make_layer()
    if rng.randint(2):
        model.initialize()
    x = as_kind(a, seqs, ops)
    y, bp = model(x, train)
    check_kind(ctx, b, y, seqs, f"layer:{a}2{b}", ndim)
    # position-coded gradient in the output format, hand-made
    gs = [(np.arange(s.size).reshape(s.shape) + 1000 * (i + 1)).astype("f4") for i, s in enumerate(seqs)]
    if not seqs or not sum(lens(seqs)) and b in ("array", "ragged"):
        dy = y
        dx = bp(dy)
        ctx.check(cont.structure(dx)[0] == cont.structure(x)[0], f"layer:{a}2{b}:backprop", "container kind of an empty gradient")
        ctx.check(len(dx) == len(x), f"layer:{a}2{b}:backprop", "number of items")
        return
    dy = as_kind(b, gs, ops)
    if b == "padded" and rng.randint(2):
        pass
    dx = bp(dy)
    check_kind(ctx, a, dx, gs, f"layer:{a}2{b}:backprop", ndim)
    check_kind(ctx, a, x, seqs, f"layer:{a}2{b}:mutates", ndim)
    ctx.sig(a, b, dt, ndim, tuple(lens(seqs)))


@group(200, 4000, min_obs=200)
def paths(ctx, rng):
    """Random walk through the formats, and the callbacks all the way back."""
    ops = NumpyOps()
    ndim = int(rng.choice([2, 2, 2, 1, 3]))
    seqs, dt = make(rng, ndim, dtype=DTYPES[rng.randint(4)], n=int(rng.randint(1, 7)))
    kinds = ["list"]
    steps = []
    for _ in range(int(rng.randint(1, 8))):
        opts = [k for k in LAYERS if k[0] == kinds[-1] and k[1] != "array" and (ndim == 2 or "padded" not in k)]
        k = opts[rng.randint(len(opts))]
        kinds.append(k[1])
        steps.append(LAYERS[k]())
    ctx.describe("path", kinds="->".join(kinds), lengths=lens(seqs), dtype=dt, ndim=ndim)
    x = as_kind("list", seqs, ops)
    cur, cbs = x, []
    for s, kind in zip(steps, kinds[1:]):
        cur, bp = s(cur, True)
        cbs.append(bp)
        check_kind(ctx, kind, cur, seqs, "path:" + kind, ndim)
    if len(steps) > 1 and rng.randint(2):
        y2 = chain(*steps).predict(as_kind("list", seqs, ops))
        check_kind(ctx, kinds[-1], y2, seqs, "path:chain", ndim)
    gs = [(np.arange(s.size).reshape(s.shape) + 1000 * (i + 1)).astype("f4") for i, s in enumerate(seqs)]
    g = as_kind(kinds[-1], gs, ops)
    for bp, kind in zip(reversed(cbs), reversed(kinds[:-1])):
        g = bp(g)
        check_kind(ctx, kind, g, gs, "path:backprop:" + kind, ndim)
    ctx.sig(tuple(kinds), dt, ndim, tuple(lens(seqs)))


@group(60, 600, min_obs=60)
def strings(ctx, rng):
    """strings2arrays hashes every string of every document into an (n, 1)
    array; equal strings get equal ids."""
    model = strings2arrays()
    vocab = ["a", "b", "hello", "", "ü", "x" * 50, "日本"]
    docs = [[vocab[rng.randint(len(vocab))] for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(0, 5))]
    ctx.describe("strings2arrays", docs=docs)
    out, bp = model(docs, bool(rng.randint(2)))
    ctx.check(len(out) == len(docs), "strings2arrays", "number of documents")
    table = {}
    for d, o in zip(docs, out):
        ctx.check(tuple(o.shape) == (len(d), 1), "strings2arrays", f"shape {o.shape} for {len(d)} strings")
        for s, v in zip(d, np.asarray(o).reshape(-1)):
            ctx.check(table.setdefault(s, int(v)) == int(v), "strings2arrays", "ids differ for the same string")
    ctx.check(len(set(table.values())) == len(table), "strings2arrays", "two strings share an id")
    ctx.sig(repr(docs))
