"""Recurrent layers: every output of the LSTM layers is compared with two
independent float64 recurrences (a step-by-step numpy one, and torch's packed
LSTM, whose autograd also decides the gradients of inputs, weights and
biases), for random lengths patterns, depths, directions, widths, initial
states and column orders of the padded batch; padding is filled with garbage
to show that it is ignored.  bidirectional() is compared with running its two
layers by hand on each sequence.  Distinct = kind, lengths, depth, directions,
widths."""
import numpy as np
import torch

from thinc.api import LSTM, Model, NumpyOps, PyTorchLSTM, bidirectional, chain, list2padded, padded2list, with_padded
from thinc.backends.ops import Ops
from thinc.types import Padded, Ragged

from checks.p16 import foreign_padded
from vlib import cont, zoo
from vlib.core import group

QUICK_X = 6
ORDER = [1, 0, 3, 2]  # torch's i,f,g,o from thinc's f,i,o,c
ASSUMPTIONS = [
    "the initial state HC0 is part of the parameters but is not trained (it is zero unless set); only W and b get gradients",
    "float32 kernels: tolerance 1e-4 relative to the largest value",
    "bidirectional torch RNNs on unequal lengths are a known finding",
]


def lengths(rng, min_len=1):
    ls = cont.rand_lengths(rng, min_len=min_len)
    if rng.rand() < 0.1:
        ls = [int(rng.randint(20, 60))] + list(ls)
    return [int(x) for x in ls]


def seqs_of(rng, ls, nI, scale):
    return [(rng.standard_normal((n, nI)) * scale).astype("f") for n in ls]


def padded(rng, seqs, garbage=True):
    """A padded batch, columns in any valid order, garbage in the padding."""
    p = foreign_padded(rng, seqs)
    if garbage:
        for j, n in enumerate(p.lengths):
            p.data[int(n):, j] = rng.choice([7.0, -1e3, 1e10])
    return p


def unpad(p):
    out = [None] * len(p.indices)
    for j, i in enumerate(p.indices):
        out[int(i)] = np.asarray(p.data[: int(p.lengths[j]), j])
    return out


class Oracle:
    """torch's float64 LSTM over packed sequences with thinc's parameters."""

    def __init__(self, flat, HC0, nI, nH, depth, dirs):
        self.cfg = (nI, nH, depth, dirs)
        m = torch.nn.LSTM(nI, nH, depth, bidirectional=dirs == 2).double()
        flat = np.asarray(flat, "f8")
        pos, w, sd = 0, nI, {}
        for i in range(depth):
            for d in range(dirs):
                s = f"_l{i}" + ("_reverse" if d else "")
                for name, cols in (("weight_ih", w), ("bias_ih", 0), ("weight_hh", nH), ("bias_hh", 0)):
                    n = 4 * nH * (cols or 1)
                    v = flat[pos : pos + n].reshape(4, -1)[ORDER].reshape((4 * nH, cols) if cols else (4 * nH,))
                    pos += n
                    sd[name + s] = torch.tensor(v)
            w = nH * dirs
        assert pos == flat.size
        m.load_state_dict(sd)
        self.m, self.HC0 = m, np.asarray(HC0, "f8")

    def __call__(self, seqs, dYs=None):
        nI, nH, depth, dirs = self.cfg
        n = len(seqs)
        xs = [torch.tensor(np.asarray(s, "f8"), requires_grad=True) for s in seqs]
        pk = torch.nn.utils.rnn.pack_sequence(xs, enforce_sorted=False)
        st = [torch.tensor(a.reshape(depth * dirs, 1, nH)).expand(-1, n, -1).contiguous() for a in self.HC0]
        out, _ = self.m(pk, tuple(st))
        out, ls = torch.nn.utils.rnn.pad_packed_sequence(out)
        ys = [out[: int(ls[i]), i] for i in range(n)]
        Y = [y.detach().numpy() for y in ys]
        if dYs is None:
            return Y
        self.m.zero_grad()
        sum((y * torch.tensor(np.asarray(d, "f8"))).sum() for y, d in zip(ys, dYs)).backward()
        inv = np.argsort(ORDER)
        g = []
        for i in range(depth):
            for d in range(dirs):
                s = f"_l{i}" + ("_reverse" if d else "")
                for name in ("weight_ih", "bias_ih", "weight_hh", "bias_hh"):
                    v = getattr(self.m, name + s).grad.numpy()
                    g.append(v.reshape(4, nH, -1)[inv].ravel())
        return Y, [x.grad.numpy() for x in xs], np.concatenate(g)


def setup(rng, ops=None, **kw):
    bi = bool(rng.rand() < 0.5)
    depth = int(rng.choice([1, 1, 2, 3]))
    nI = int(rng.randint(1, 6))
    nH = int(rng.randint(1, 5))
    dirs = 1 + bi
    m = LSTM(nH * dirs, nI, bi=bi, depth=depth, **kw)
    if ops is not None:
        m.ops = ops
    return m, nI, nH, depth, dirs


def randomise(rng, m):
    s = float(rng.choice([0.3, 0.7, 0.7, 3.0]))
    m.set_param("LSTM", (rng.standard_normal(m.get_param("LSTM").shape) * s).astype("f"))
    if rng.rand() < 0.6:
        m.set_param("HC0", rng.standard_normal(m.get_param("HC0").shape).astype("f"))
    return s


def spread(rng, flat, HC0, cfg, xs, dYs):
    """How far outputs and gradients move when every weight and input moves by
    float32 rounding: long, strongly weighted recurrences amplify it."""
    base = Oracle(flat, HC0, *cfg)(xs, dYs)
    dev = [0.0, 0.0, 0.0]
    for _ in range(2):
        j = lambda a: np.asarray(a, "f8") * (1 + 1.2e-7 * rng.standard_normal(np.shape(a)))  # noqa: E731
        o = Oracle(j(flat), j(HC0), *cfg)([j(x) for x in xs], dYs)
        for k in (0, 1):
            dev[k] = max([dev[k]] + [float(np.abs(a - b).max()) for a, b in zip(o[k], base[k]) if a.size])
        dev[2] = max(dev[2], float(np.abs(o[2] - base[2]).max()))
    return [60 * d for d in dev]


def same(ctx, got, want, mech, msg, tol=2e-4, extra=0.0):
    if not ctx.check(len(got) == len(want), mech, f"{msg}: {len(got)} sequences for {len(want)}"):
        return False
    top = max([1.0] + [float(np.abs(w).max()) for w in want if w.size])
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
        ok &= bool(ctx.check(g.shape == w.shape, mech, f"{msg}: sequence {i} has shape {g.shape}, not {w.shape}"))
        if ok:
            ctx.close(g, w, mech, f"{msg}, sequence {i}", rtol=tol, atol=tol * top + extra)
    return ok


def same_frame(ctx, Y, X, mech):
    ctx.check(
        isinstance(Y, Padded)
        and np.array_equal(Y.lengths, X.lengths)
        and np.array_equal(Y.size_at_t, X.size_at_t)
        and np.array_equal(Y.indices, X.indices)
        and Y.data.shape[:2] == X.data.shape[:2],
        mech,
        "lengths, sizes, order or shape of the padded batch differ",
    )


def clean(Xp):
    """The same batch with zeros in the padding."""
    d = np.array(Xp.data)
    for j, n in enumerate(Xp.lengths):
        d[int(n):, j] = 0
    return Padded(d, Xp.size_at_t, Xp.lengths, Xp.indices)


@group(60, 4000, 40)
def recurrence(ctx, rng):
    """LSTM on padded batches: both modes, gradients, padding, other sequences."""
    m, nI, nH, depth, dirs = setup(rng)
    m.initialize()
    scale = randomise(rng, m)
    ls = lengths(rng)
    xs = seqs_of(rng, ls, nI, float(rng.choice([0.5, 1, 20])))
    ctx.describe("LSTM", lengths=ls, depth=depth, dirs=dirs, nI=nI, nH=nH, scale=scale)
    Xp = padded(rng, xs, garbage=rng.rand() < 0.7)
    flat, HC0 = m.get_param("LSTM").copy(), m.get_param("HC0").copy()
    ref = zoo.lstm_ref(flat.astype("f8"), HC0.astype("f8"), [x.astype("f8") for x in xs], nI, nH, depth, dirs)
    dYs = [rng.standard_normal(r.shape).astype("f") for r in ref]
    tY, tdX, tG = Oracle(flat, HC0, nI, nH, depth, dirs)(xs, dYs)
    for a, b in zip(ref, tY):
        if a.size and not np.allclose(a, b, atol=1e-9):
            raise RuntimeError("the two oracles disagree")
    eY, eX, eG = spread(rng, flat, HC0, (nI, nH, depth, dirs), xs, dYs)
    Y0 = m.predict(Xp)
    same_frame(ctx, Y0, Xp, "frame:predict")
    same(ctx, unpad(Y0), ref, "predict", "prediction", extra=eY)
    for j, n in enumerate(Y0.lengths):
        ctx.check(not Y0.data[int(n):, j].any(), "padding:predict", "output in the padding")
    Y1, bp = m(Xp, is_train=True)
    same_frame(ctx, Y1, Xp, "frame:train")
    same(ctx, unpad(Y1), ref, "train", "training output", extra=eY)
    dYp = clean(Y1)
    cols = {int(i): j for j, i in enumerate(Y1.indices)}
    for i, d in enumerate(dYs):
        dYp.data[: len(d), cols[i]] = d
    for j, n in enumerate(dYp.lengths):
        dYp.data[int(n):, j] = rng.choice([0.0, 5.0, 1e10])
    dX = bp(dYp)
    same_frame(ctx, dX, Xp, "frame:gradient")
    g = m.get_grad("LSTM")
    # saturated gates lose gradient in float32 (1 - s), not only relative error
    tol = 5e-4
    same(ctx, unpad(dX), tdX, "dX", "input gradient", tol, eX)
    top = max(1.0, float(np.abs(tG).max()))
    ctx.close(g, tG, "d_weights", "weight gradient", rtol=tol, atol=tol * top + eG)
    ctx.check(not m.has_grad("HC0"), "HC0", "the initial state got a gradient")
    # a second pass over other sequences accumulates
    if rng.rand() < 0.3:
        Y1, bp = m(Xp, is_train=True)
        bp(dYp)
        ctx.close(m.get_grad("LSTM"), 2 * tG, "d_weights:accumulate", "two passes", rtol=tol, atol=2 * (tol * top + eG))
    ctx.note("steps", int(sum(ls)))
    ctx.sig(tuple(ls), depth, dirs, nI, nH)


@group(25, 2000, 20)
def alone(ctx, rng):
    """A sequence's output does not depend on the batch it is in."""
    m, nI, nH, depth, dirs = setup(rng)
    m.initialize()
    randomise(rng, m)
    ls = lengths(rng)
    xs = seqs_of(rng, ls, nI, 1.0)
    ctx.describe("alone", lengths=ls, depth=depth, dirs=dirs)
    train = bool(rng.rand() < 0.5)
    Y = unpad(m(padded(rng, xs), train)[0])
    perm = rng.permutation(len(xs))
    Yp = unpad(m(padded(rng, [xs[i] for i in perm]), train)[0])
    same(ctx, Yp, [Y[i] for i in perm], "order-of-batch", "reordered batch", 1e-5)
    for i in range(len(xs)):
        y1 = unpad(m(padded(rng, [xs[i]]), not train)[0])
        same(ctx, y1, [Y[i]], "alone", f"sequence {i} alone", 1e-5)
    ctx.sig(tuple(ls), depth, dirs, train)


@group(20, 1500, 15)
def wrapped(ctx, rng):
    """The same through with_padded and the conversion layers."""
    inner, nI, nH, depth, dirs = setup(rng)
    kind = str(rng.choice(["list", "ragged", "padded", "chain"]))
    m = chain(list2padded(), inner, padded2list()) if kind == "chain" else with_padded(inner)
    m.initialize()
    randomise(rng, inner)
    ls = lengths(rng)
    xs = seqs_of(rng, ls, nI, 1.0)
    ctx.describe(kind, lengths=ls, depth=depth, dirs=dirs)
    if kind == "ragged":
        X = Ragged(np.concatenate(xs), np.array(ls, "i"))
    elif kind == "padded":
        X = padded(rng, xs)
    else:
        X = xs
    flat, HC0 = inner.get_param("LSTM").copy(), inner.get_param("HC0").copy()
    dYs = [rng.standard_normal((n, nH * dirs)).astype("f") for n in ls]
    tY, tdX, tG = Oracle(flat, HC0, nI, nH, depth, dirs)(xs, dYs)

    def out(v):
        if isinstance(v, Padded):
            return unpad(v)
        if isinstance(v, Ragged):
            ends = np.cumsum(v.lengths)
            return [v.dataXd[e - n : e] for e, n in zip(ends, v.lengths)]
        return list(v)

    same(ctx, out(m.predict(X)), tY, f"{kind}:predict", "prediction")
    Y, bp = m(X, is_train=True)
    same(ctx, out(Y), tY, f"{kind}:train", "training output")
    if kind == "ragged":
        dY = Ragged(np.concatenate(dYs), Y.lengths)
    elif kind == "padded":
        dY = clean(Y)
        for j, i in enumerate(Y.indices):
            dY.data[: ls[int(i)], j] = dYs[int(i)]
    else:
        dY = dYs
    same(ctx, out(bp(dY)), tdX, f"{kind}:dX", "input gradient", 5e-4)
    ctx.close(inner.get_grad("LSTM"), tG, f"{kind}:d_weights", "weights", rtol=5e-4, atol=5e-4 * max(1, np.abs(tG).max()))
    ctx.sig(kind, tuple(ls), depth, dirs)


def step_layer(rng, nO, nI, name):
    """A padded layer whose output depends on order: y[t] = tanh(W x[t] + y[t-1])."""

    def fwd(model, X, is_train):
        W = model.get_param("W")
        D = X.data
        Y = np.zeros((D.shape[0], D.shape[1], W.shape[0]), "f")
        for j, n in enumerate(X.lengths):
            h = np.zeros(W.shape[0])
            for t in range(int(n)):
                h = np.tanh(W.astype("f8") @ D[t, j] + h)
                Y[t, j] = h

        def back(dY):
            dX = np.zeros(D.shape, "f")
            dW = np.zeros(W.shape)
            for j, n in enumerate(X.lengths):
                dh = np.zeros(W.shape[0])
                for t in range(int(n) - 1, -1, -1):
                    dh = (dh + dY.data[t, j]) * (1 - Y[t, j].astype("f8") ** 2)
                    dW += np.outer(dh, D[t, j])
                    dX[t, j] = dh @ W
            model.inc_grad("W", dW.astype("f"))
            return Padded(dX, dY.size_at_t, dY.lengths, dY.indices)

        return Padded(Y, X.size_at_t, X.lengths, X.indices), back

    m = Model(name, fwd, dims={"nO": nO, "nI": nI}, params={"W": (rng.standard_normal((nO, nI)) * 0.7).astype("f")})
    return m


def step_ref(W, seqs, dYs=None):
    W = W.astype("f8")
    Ys, dXs, dW = [], [], np.zeros(W.shape)
    for k, x in enumerate(seqs):
        h = np.zeros(W.shape[0])
        y = np.zeros((len(x), W.shape[0]))
        for t in range(len(x)):
            h = np.tanh(W @ x[t] + h)
            y[t] = h
        Ys.append(y)
        if dYs is not None:
            dh = np.zeros(W.shape[0])
            dx = np.zeros(x.shape)
            for t in range(len(x) - 1, -1, -1):
                dh = (dh + dYs[k][t]) * (1 - y[t] ** 2)
                dW += np.outer(dh, x[t])
                dx[t] = dh @ W
            dXs.append(dx)
    return Ys, dXs, dW


@group(40, 3000, 30)
def both_ways(ctx, rng):
    """bidirectional(l2r, r2l) = each layer by hand on each (reversed) sequence."""
    nI, nO = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    inner = str(rng.choice(["step", "lstm", "copy"]))
    if inner == "lstm":
        a, b = LSTM(nO, nI), LSTM(nO, nI)
        m = bidirectional(a, b)
        m.initialize()
        for n in (a, b):
            n.set_param("LSTM", (rng.standard_normal(n.get_param("LSTM").shape) * 0.7).astype("f"))
    elif inner == "step":
        a, b = step_layer(rng, nO, nI, "a"), step_layer(rng, nO, nI, "b")
        m = bidirectional(a, b)
    else:
        a = step_layer(rng, nO, nI, "a")
        m = bidirectional(a)
        b = m.layers[1]
        ctx.check(m.layers[0] is a and b is not a, "bi:copy", "the second layer is not a separate copy")
        ctx.equal(b.get_param("W"), a.get_param("W"), "bi:copy", "weights of the copy")
        b.set_param("W", (rng.standard_normal((nO, nI)) * 0.7).astype("f"))
    ls = lengths(rng)
    xs = seqs_of(rng, ls, nI, 1.0)
    ctx.describe(f"bidirectional({inner})", lengths=ls, nI=nI, nO=nO)
    dYs = [rng.standard_normal((n, 2 * nO)).astype("f") for n in ls]
    rev = [x[::-1] for x in xs]
    dA = [d[:, :nO] for d in dYs]
    dB = [d[::-1, nO:] for d in dYs]
    if inner == "lstm":
        ra = Oracle(a.get_param("LSTM"), a.get_param("HC0"), nI, nO, 1, 1)(xs, dA)
        rb = Oracle(b.get_param("LSTM"), b.get_param("HC0"), nI, nO, 1, 1)([r.copy() for r in rev], dB)
        pname = "LSTM"
    else:
        ra, rb = step_ref(a.get_param("W"), xs, dA), step_ref(b.get_param("W"), rev, dB)
        pname = "W"
    want = [np.concatenate([p, q[::-1]], axis=1) for p, q in zip(ra[0], rb[0])]
    wdX = [p + q[::-1] for p, q in zip(ra[1], rb[1])]
    Xp = padded(rng, xs)
    Y0 = m.predict(Xp)
    same_frame(ctx, Y0, Xp, "bi:frame")
    same(ctx, unpad(Y0), want, f"bi:{inner}:predict", "prediction")
    Y, bp = m(Xp, is_train=True)
    same(ctx, unpad(Y), want, f"bi:{inner}:train", "training")
    dYp = clean(Y)
    for j, i in enumerate(Y.indices):
        dYp.data[: ls[int(i)], j] = dYs[int(i)]
    dX = bp(dYp)
    same_frame(ctx, dX, Xp, "bi:frame:gradient")
    same(ctx, unpad(dX), wdX, f"bi:{inner}:dX", "input gradient", 5e-4)
    for n, r in ((a, ra), (b, rb)):
        g = r[2].reshape(n.get_param(pname).shape)
        ctx.close(n.get_grad(pname), g, f"bi:{inner}:d_weights", f"weights of {n.name}", rtol=5e-4, atol=5e-4 * max(1, np.abs(g).max()))
    ctx.sig(inner, tuple(ls), nI, nO)


@group(30, 2500, 20)
def kernels(ctx, rng):
    """The packed kernels of every CPU backend against torch."""
    name, ops = [("numpy", NumpyOps()), ("noblis", NumpyOps(use_blis=False)), ("base", Ops())][rng.randint(3)]
    depth, dirs = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2]))
    nI, nH = int(rng.randint(1, 6)), int(rng.randint(1, 5))
    ls = sorted(lengths(rng), reverse=True)
    ctx.describe(f"kernel:{name}", lengths=ls, depth=depth, dirs=dirs, nI=nI, nH=nH)
    xs = seqs_of(rng, ls, nI, 1.0)
    size = np.array([sum(n > t for n in ls) for t in range(ls[0])], "i")
    pack = lambda vs: np.concatenate([v[t : t + 1] for t in range(ls[0]) for v in vs if len(v) > t])  # noqa: E731

    def unpack(a):
        out = [[] for _ in ls]
        k = 0
        for t, s in enumerate(size):
            for j in range(int(s)):
                out[j].append(a[k])
                k += 1
        return [np.array(o) for o in out]

    n = sum(4 * nH * (w + 1) + 4 * nH * (nH + 1) for i in range(depth) for w in [nI if i == 0 else nH * dirs] for _ in range(dirs))
    flat = (rng.standard_normal(n) * 0.6).astype("f")
    HC0 = rng.standard_normal((2, depth, dirs, nH)).astype("f")
    dYs = [rng.standard_normal((k, nH * dirs)).astype("f") for k in ls]
    tY, tdX, tG = Oracle(flat, HC0, nI, nH, depth, dirs)(xs, dYs)
    X, dY = pack(xs), pack(dYs)
    keep = [a.copy() for a in (flat, HC0, X, dY)]
    Y, state = ops.lstm_forward_training(flat, HC0[0], HC0[1], X, size)
    same(ctx, unpack(Y), tY, f"kernel:{name}:train", "training output")
    Yi = ops.lstm_forward_inference(flat, HC0[0], HC0[1], X, size)
    same(ctx, unpack(Yi), tY, f"kernel:{name}:predict", "inference output")
    dX, dG = ops.backprop_lstm(dY, size, flat, state)
    same(ctx, unpack(dX), tdX, f"kernel:{name}:dX", "input gradient", 5e-4)
    ctx.close(dG, tG, f"kernel:{name}:d_weights", "weights", rtol=5e-4, atol=5e-4 * max(1, np.abs(tG).max()))
    for a, b in zip((flat, HC0, X, dY), keep):
        ctx.check(np.array_equal(a, b), f"kernel:{name}:argument-changed", "an argument was changed")
    ctx.sig(name, tuple(ls), depth, dirs, nI, nH)


@group(20, 1500, 15)
def weight_dropout(ctx, rng):
    """Dropout masks weights: output and gradients are those of the masked
    weights; the mask is read off the gradient (masked weights get none)."""
    nI, nH = int(rng.randint(2, 6)), int(rng.randint(2, 5))
    rate = float(rng.choice([0.1, 0.3, 0.5]))
    m = LSTM(nH, nI, dropout=rate)
    m.initialize()
    m.set_param("LSTM", (rng.standard_normal(m.get_param("LSTM").shape) * 0.25).astype("f"))
    m.set_param("HC0", rng.uniform(0.3, 0.9, m.get_param("HC0").shape).astype("f"))
    ls = lengths(rng)
    xs = [rng.uniform(0.2, 1.0, (n, nI)).astype("f") for n in ls]  # no gate saturates, so kept weights have gradients
    ctx.describe("dropout", rate=rate, lengths=ls, nI=nI, nH=nH)
    flat, HC0 = m.get_param("LSTM").copy(), m.get_param("HC0").copy()
    Xp = padded(rng, xs)
    same(ctx, unpad(m.predict(Xp)), Oracle(flat, HC0, nI, nH, 1, 1)(xs), "dropout:predict", "prediction with a dropout rate")
    np.random.seed(int(rng.randint(2**31)))
    Y, bp = m(Xp, is_train=True)
    dYs = [rng.standard_normal((n, nH)).astype("f") for n in ls]
    dYp = clean(Y)
    for j, i in enumerate(Y.indices):
        dYp.data[: ls[int(i)], j] = dYs[int(i)]
    dX = bp(dYp)
    g = np.asarray(m.get_grad("LSTM"), "f8")
    mask = (g != 0) / (1 - rate)
    tY, tdX, tG = Oracle(flat * mask, HC0, nI, nH, 1, 1)(xs, dYs)
    same(ctx, unpad(Y), tY, "dropout:train", "training output")
    same(ctx, unpad(dX), tdX, "dropout:dX", "input gradient", 5e-4)
    tG = tG * mask
    ctx.close(g, tG, "dropout:d_weights", "weight gradient", rtol=5e-4, atol=5e-4 * max(1, np.abs(tG).max()))
    n, k = g.size, int((g == 0).sum())
    sd = np.sqrt(n * rate * (1 - rate))
    ctx.check(abs(k - n * rate) < 6 * sd + 1, "dropout:rate", f"{k} of {n} weights dropped with rate {rate}")
    ctx.equal(m.get_param("LSTM"), flat, "dropout:weights", "the weights themselves")
    # a rate set later counts from the next call on
    m.attrs["dropout_rate"] = 0.0
    same(ctx, unpad(m(Xp, is_train=True)[0]), Oracle(flat, HC0, nI, nH, 1, 1)(xs), "dropout:off", "rate set to zero")
    ctx.sig(rate, tuple(ls), nI, nH)


@group(12, 600, 8)
def torch_lstm(ctx, rng):
    """PyTorchLSTM = the torch module itself on each sequence."""
    bi = bool(rng.rand() < 0.4)
    depth = int(rng.choice([1, 2]))
    nI, nH = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    nO = nH * (1 + bi)
    m = PyTorchLSTM(nO, nI, bi=bi, depth=depth, dropout=float(rng.choice([0.0, 0.5])) if depth > 1 else 0.0)
    mod = next(s for n in m.walk() for s in n.shims)._model
    ls = lengths(rng)
    if bi and rng.rand() < 0.7:
        ls = [ls[0]] * len(ls)
    xs = seqs_of(rng, ls, nI, 1.0)
    uneven = len(set(ls)) > 1
    ctx.describe("PyTorchLSTM", bi=bi, depth=depth, lengths=ls)
    kind = str(rng.choice(["list", "padded", "ragged"]))
    m.initialize()
    X = {"list": xs, "padded": foreign_padded(rng, xs), "ragged": Ragged(np.concatenate(xs), np.array(ls, "i"))}[kind]
    Y = m.predict(X)
    got = unpad(Y) if kind == "padded" else (cont.items(Y) if kind == "ragged" else Y)
    ref = torch.nn.LSTM(nI, nH, depth, bidirectional=bi)
    ref.load_state_dict(mod.state_dict())
    ref.eval()
    with torch.no_grad():
        want = [ref(torch.tensor(x).unsqueeze(1))[0][:, 0].numpy() for x in xs]
    mech = "torch-bidirectional-unequal-lengths" if bi and uneven else "PyTorchLSTM"
    if mech in ctx.known:
        bad = any(g.shape != w.shape or not np.allclose(g, w, atol=1e-5) for g, w in zip(got, want))
        # the forward half is right even then
        for g, w in zip(got, want):
            if depth == 1:
                ctx.close(g[:, :nH], w[:, :nH], "PyTorchLSTM:forward-half", "forward direction", rtol=1e-4, atol=1e-5)
        ctx.check(not bad, mech, "outputs depend on the longest sequence")
    else:
        same(ctx, got, want, mech, f"{kind}", 1e-4)
    ctx.sig(kind, bi, depth, tuple(ls))
