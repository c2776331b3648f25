"""Catalogue of thinc's built-in layers, for the checks that quantify over
"every layer".  Each factory draws a configuration from rng and returns a Case:
a freshly built model, a generator of valid input batches for it, and (where
there is one) an independent float64 reference of its documented function."""
import math

import numpy as np

from thinc.api import Model
from thinc.types import Padded, Ragged

from . import cont

erf = np.vectorize(math.erf, otypes=["f8"])


# -- reference functions -------------------------------------------------------
def sigmoid(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softplus(x):
    return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


ACT = {
    "relu": lambda x: np.maximum(x, 0),
    "swish": lambda x: x * sigmoid(x),
    "gelu": lambda x: 0.5 * x * (1 + erf(x / math.sqrt(2))),
    "dish": lambda x: 0.5 * x * (x / np.sqrt(1 + x * x) + 1),
    "mish": lambda x: x * np.tanh(softplus(x)),
    "hard_swish": lambda x: x * np.clip(0.2 * x + 0.5, 0, 1),
    "hard_swish_mobilenet": lambda x: x * np.clip(x + 3, 0, 6) / 6,
    "hard_tanh": lambda x: np.clip(x, -1, 1),
    "hard_sigmoid": lambda x: np.clip(0.2 * x + 0.5, 0, 1),
    "sigmoid": sigmoid,
}


def softmax(x, temperature=1.0):
    x = x / temperature
    e = np.exp(x - x.max(axis=-1, keepdims=True)) if x.size else x
    return e / e.sum(axis=-1, keepdims=True) if x.size else x


def layernorm(x, G, b):
    mu = x.mean(axis=1, keepdims=True)
    var = x.var(axis=1, keepdims=True) + 1e-8
    return (x - mu) / np.sqrt(var) * G + b


def window(x, nW):
    n, w = x.shape
    out = np.zeros((n, (2 * nW + 1) * w), x.dtype)
    for i in range(n):
        for j in range(-nW, nW + 1):
            if 0 <= i + j < n:
                k = (j + nW) * w
                out[i, k : k + w] = x[i + j]
    return out


def seqs_of(xr):
    out, i = [], 0
    d = xr.dataXd
    for n in xr.lengths:
        out.append(np.asarray(d[i : i + int(n)]))
        i += int(n)
    return out


def lstm_ref(flat, HC0, seqs, nI, nH, depth, dirs):
    """Per-sequence LSTM, stacked / bidirectional, thinc's flat parameter order
    (gates f, i, o, c; input weights, input biases, hidden weights, hidden
    biases)."""
    pos = 0
    layers = []
    w = nI
    for i in range(depth):
        row = []
        for j in range(dirs):
            Wx = flat[pos : pos + 4 * nH * w].reshape(4 * nH, w)
            pos += 4 * nH * w
            bx = flat[pos : pos + 4 * nH]
            pos += 4 * nH
            Wh = flat[pos : pos + 4 * nH * nH].reshape(4 * nH, nH)
            pos += 4 * nH * nH
            bh = flat[pos : pos + 4 * nH]
            pos += 4 * nH
            row.append((Wx, bx, Wh, bh))
        layers.append(row)
        w = nH * dirs
    assert pos == flat.size, (pos, flat.size)
    outs = []
    for x in seqs:
        cur = x
        for i in range(depth):
            ys = []
            for j in range(dirs):
                Wx, bx, Wh, bh = layers[i][j]
                h = HC0[0, i, j]
                c = HC0[1, i, j]
                order = range(len(cur)) if j == 0 else range(len(cur) - 1, -1, -1)
                y = np.zeros((len(cur), nH), cur.dtype)
                for t in order:
                    a = Wx @ cur[t] + bx + Wh @ h + bh
                    f = sigmoid(a[:nH])
                    g = sigmoid(a[nH : 2 * nH])
                    o = sigmoid(a[2 * nH : 3 * nH])
                    u = np.tanh(a[3 * nH :])
                    c = f * c + g * u
                    h = o * np.tanh(c)
                    y[t] = h
                ys.append(y)
            cur = np.concatenate(ys, axis=1)
        outs.append(cur)
    return outs


# -- cases ---------------------------------------------------------------------
class Case:
    def __init__(self, name, model, x, ref=None, *, xkind="rows", ykind=None, pre=None,
                 f64=True, linear=False, dx=True, rowwise=True, init_y=None, grads=True,
                 fix=None, tol=1e-6, callable_y=True):
        self.name = name
        self.model = model
        self.x = x  # x(rng, n=None) -> batch
        self.ref = ref  # ref(P, X) float64
        self.xkind = xkind
        self.ykind = ykind or xkind
        self.pre = pre  # dL/dY -> what the callback expects
        self.f64 = f64
        self.linear = linear
        self.dx = dx  # input is differentiable
        self.rowwise = rowwise  # batch items independent
        self.init_y = init_y
        self.grads = grads
        self.fix = fix  # constrain random parameters
        self.tol = tol
        self.atol = 1e-8

    def initialize(self, rng, randomise=True):
        X = self.x(rng, None)
        Y = self.init_y(X) if self.init_y else None
        self.model.initialize(X=X, Y=Y)
        if randomise:
            self.randomise(rng)
        return self

    def randomise(self, rng, scale=None):
        for key, node, name in params(self.model):
            p = node.get_param(name)
            s = scale if scale is not None else float(rng.choice([0.2, 0.5, 1.0]))
            v = (rng.standard_normal(p.shape) * s).astype("f")
            if self.fix:
                v = self.fix(name, v)
            node.set_param(name, v)

    def P(self):
        return {name: np.asarray(node.get_param(name), dtype="f8") for _, node, name in params(self.model)}


def params(model):
    """(key, node, name) of every parameter that is set, nodes numbered in walk
    order."""
    out = []
    for i, node in enumerate(model.walk()):
        for name in node.param_names:
            if node.has_param(name):
                out.append(((i, name), node, name))
    return out


def cast_params(model, dtype):
    for _, node, name in params(model):
        node.set_param(name, np.asarray(node.get_param(name)).astype(dtype))


def grads(model):
    out = {}
    for i, node in enumerate(model.walk()):
        for name in node.grad_names:
            if node.has_grad(name):
                out[(i, name)] = np.array(node.get_grad(name))
    return out


def clear_grads(model):
    for node in model.walk():
        for name in node.grad_names:
            if node.has_grad(name):
                g = node.get_grad(name) * 0
                if node.has_param(name):
                    g = g.astype(node.get_param(name).dtype)
                node.set_grad(name, g)


# -- input generators ----------------------------------------------------------
def values(rng, shape, style=None):
    style = style or rng.choice(["n", "n", "n", "big", "small", "int", "const", "zrow", "mix"])
    a = rng.standard_normal(shape)
    if style == "big":
        a *= 12
    elif style == "small":
        a *= 1e-2
    elif style == "int":
        a = np.round(a * 2)
    elif style == "const" and a.ndim == 2 and a.size:
        a[:] = a[:1]
    elif style == "zrow" and a.size:
        a[rng.randint(a.shape[0])] = 0
    elif style == "mix":
        a *= rng.choice([0.1, 1, 10], size=shape)
    return a.astype("f")


def rand_n(rng, n, empty=True):
    if n is not None:
        return n
    if rng.rand() < 0.02:
        return int(rng.choice([33, 64, 130]))
    return int(rng.choice([1, 1, 2, 3, 5, 8, 17] + ([0] if empty else [])))


def rows_x(nI, empty=False, style=None):
    def x(rng, n=None):
        return values(rng, (rand_n(rng, n, empty), nI), style)

    return x


def lengths_for(rng, n=None, min_len=0):
    if n is not None:
        ls = rng.randint(min_len, 7, size=n).astype("i")
        if n and ls.sum() == 0:
            ls[0] = 1
        return ls
    return cont.rand_lengths(rng, min_len=min_len)


def list_x(nI, min_len=0, style=None):
    def x(rng, n=None):
        ls = lengths_for(rng, n, min_len)
        return [values(rng, (int(k), nI), style) for k in ls]

    return x


def ragged_x(nI, min_len=0, style=None):
    def x(rng, n=None):
        ls = lengths_for(rng, n, min_len)
        return Ragged(values(rng, (int(ls.sum()), nI), style), ls)

    return x


def padded_of(seqs, rng=None):
    """Padded batch built independently of thinc's list2padded."""
    order = sorted(range(len(seqs)), key=lambda i: (-len(seqs[i]), i))
    lengths = np.array([len(seqs[i]) for i in order], dtype="i")
    nS = int(lengths.max()) if len(seqs) else 0
    data = np.zeros((nS, len(seqs)) + seqs[0].shape[1:], dtype=seqs[0].dtype)
    for j, i in enumerate(order):
        data[: len(seqs[i]), j] = seqs[i]
    sizes = np.array([int((lengths > t).sum()) for t in range(nS)], dtype="i")
    return Padded(data, sizes, lengths, np.array(order, dtype="i"))


def padded_x(nI, min_len=1, style=None):
    def x(rng, n=None):
        return padded_of(list_x(nI, min_len, style)(rng, n))

    return x


# -- batches as lists of items ---------------------------------------------------
def split(X, kind):
    if kind == "rows":
        return [X[i : i + 1] for i in range(len(X))]
    if kind == "pair":
        return [(X[0][i : i + 1], X[1][i : i + 1]) for i in range(len(X[0]))]
    if kind == "list":
        return list(X)
    if kind == "ragged":
        return seqs_of(X)
    if kind == "padded":
        return cont.items(X)
    if kind == "sparse":
        keys, vals, ls = X
        out, i = [], 0
        for n in ls:
            out.append((keys[i : i + n], vals[i : i + n], np.array([n], dtype="i")))
            i += n
        return out
    if kind == "nested":
        return list(X)
    raise ValueError(kind)


def join(items, kind):
    if kind == "rows":
        return np.concatenate(items)
    if kind == "pair":
        return (np.concatenate([a for a, _ in items]), np.concatenate([b for _, b in items]))
    if kind in ("list", "nested"):
        return list(items)
    if kind == "ragged":
        return Ragged(np.concatenate(items), np.array([len(s) for s in items], dtype="i"))
    if kind == "padded":
        return padded_of(items)
    if kind == "sparse":
        return tuple(np.concatenate([it[j] for it in items]) for j in range(3))
    raise ValueError(kind)


# -- factories -------------------------------------------------------------------
def _dims(rng):
    if rng.rand() < 0.05:
        return int(rng.choice([16, 33])), int(rng.choice([19, 64]))
    return int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 4, 7]))


def _give(rng, **dims):
    """Some dimensions given at construction, others left to inference."""
    return {k: v for k, v in dims.items()}


def _dense(layer, act, extra=None):
    def make(rng):
        import thinc.api as t

        nO, nI = _dims(rng)
        norm = bool(rng.rand() < 0.3)
        kw = dict(extra(rng)) if extra else {}
        f = act(kw) if callable(act) and extra else ACT[act]
        drop = rng.choice(["none", "zero"])
        if drop == "zero":
            kw["dropout"] = 0.0
        m = getattr(t, layer)(nO, nI, normalize=norm, **kw)

        def ref(P, X):
            y = f(X @ P["W"].T + P["bd" if norm else "b"])
            return layernorm(y, P["G"], P["bn"]) if norm else y

        c = Case(f"{layer}{'+norm' if norm else ''}", m, rows_x(nI), ref)
        if layer == "Gelu":  # its erf approximation is good to 1.5e-7
            c.tol, c.atol = 1e-4, 1e-5
        if layer in ("Swish", "Mish"):  # thresholds at +-17 / 5
            c.atol = 2e-6
        if norm:
            c.P = lambda: _norm_params(m)
            c.tol = max(c.tol, 1e-5)
            c.prenorm = lambda P, X: f(X @ P["W"].T + P["bd"])
        return c

    return make


def _norm_params(m):
    P = {}
    for _, node, name in params(m):
        v = np.asarray(node.get_param(name), dtype="f8")
        if node.name == "layernorm":
            P["G" if name == "G" else "bn"] = v
        else:
            P["bd" if name == "b" else name] = v
    return P


def linear(rng):
    from thinc.api import Linear

    nO, nI = _dims(rng)
    return Case("Linear", Linear(nO, nI), rows_x(nI), lambda P, X: X @ P["W"].T + P["b"])


relu = _dense("Relu", "relu")
swish = _dense("Swish", "swish")
gelu = _dense("Gelu", "gelu")
dish = _dense("Dish", "dish")
mish = _dense("Mish", "mish")
hard_swish = _dense("HardSwish", "hard_swish")
hard_swish_mobilenet = _dense("HardSwishMobilenet", "hard_swish_mobilenet")
hard_tanh = _dense("HardTanh", "hard_tanh")
hard_sigmoid = _dense("HardSigmoid", "hard_sigmoid")
relu_k = _dense("ReluK", lambda kw: (lambda x: np.clip(x, 0, kw["k"])), lambda rng: {"k": float(rng.choice([6.0, 1.0, 2.5]))})
clipped = _dense(
    "ClippedLinear",
    lambda kw: (lambda x: np.clip(kw["slope"] * x + kw["offset"], kw["min_val"], kw["max_val"])),
    lambda rng: {
        "slope": float(rng.choice([1.0, 0.5, 2.0, -1.0])),
        "offset": float(rng.choice([0.0, 0.5, -1.0])),
        "min_val": float(rng.choice([0.0, -1.0])),
        "max_val": float(rng.choice([1.0, 3.0])),
    },
)


def maxout(rng):
    from thinc.api import Maxout

    nO, nI = _dims(rng)
    nP = int(rng.choice([1, 2, 3, 4]))
    norm = bool(rng.rand() < 0.3)
    kw = {"dropout": 0.0} if rng.rand() < 0.3 else {}
    m = Maxout(nO, nI, nP=nP, normalize=norm, **kw)

    def ref(P, X):
        y = np.einsum("bi,opi->bop", X, P["W"]) + P["bd" if norm else "b"]
        y = y.max(axis=2)
        return layernorm(y, P["G"], P["bn"]) if norm else y

    c = Case(f"Maxout{'+norm' if norm else ''}", m, rows_x(nI), ref)
    if norm:
        c.prenorm = lambda P, X: (np.einsum("bi,opi->bop", X, P["W"]) + P["bd"]).max(axis=2)
        c.P = lambda: _norm_params(m)
        c.tol = 1e-5
    return c


def sigmoid_layer(rng):
    from thinc.api import Sigmoid

    nO, nI = _dims(rng)
    c = Case("Sigmoid", Sigmoid(nO, nI), rows_x(nI), lambda P, X: sigmoid(X @ P["W"].T + P["b"]))
    c.atol = 2e-6  # clips its input at +-20
    return c


def logistic(rng):
    from thinc.api import Logistic

    nI = int(rng.choice([1, 3, 6]))
    c = Case("Logistic", Logistic(), rows_x(nI), lambda P, X: sigmoid(X))
    c.atol = 2e-6
    return c


def sigmoid_activation(rng):
    from thinc.api import sigmoid_activation

    shape = [(4,), (2, 3), (2, 2, 2)][rng.randint(3)]

    def x(rng, n=None):
        return values(rng, (rand_n(rng, n, False),) + shape)

    c = Case("sigmoid_activation", sigmoid_activation(), x, lambda P, X: sigmoid(X))
    c.atol = 2e-6
    return c


def softmax_activation(rng):
    from thinc.api import softmax_activation

    nI = int(rng.choice([1, 2, 5]))
    return Case("softmax_activation", softmax_activation(), rows_x(nI), lambda P, X: softmax(X))


def _softmax_pre(f):
    """dL/dlogits-type callback from dL/dY."""

    def pre(model, X, Y, dY):
        return f(Y, dY)

    return pre


def _jac_softmax(Y, dY):
    return Y * (dY - (Y * dY).sum(axis=-1, keepdims=True))


def softmax_v1(rng):
    from thinc.api import Softmax

    nO, nI = _dims(rng)
    return Case("Softmax", Softmax(nO, nI), rows_x(nI), lambda P, X: softmax(X @ P["W"].T + P["b"]),
                pre=_softmax_pre(_jac_softmax))


def softmax_v2(rng):
    from thinc.api import Softmax_v2

    nO, nI = _dims(rng)
    T = float(rng.choice([1.0, 0.5, 2.0, 10.0, 0.05]))
    normalize = bool(rng.rand() < 0.7)
    m = Softmax_v2(nO, nI, temperature=T, normalize_outputs=normalize)

    # training output is always normalised
    c = Case("Softmax_v2", m, rows_x(nI), lambda P, X: softmax(X @ P["W"].T + P["b"], T),
             pre=_softmax_pre(_jac_softmax))
    c.predict_ref = c.ref if normalize else (lambda P, X: X @ P["W"].T + P["b"])
    return c


def multisoftmax(rng):
    from thinc.api import MultiSoftmax

    nOs = tuple(int(k) for k in rng.choice([1, 2, 3, 4], size=rng.randint(1, 4)))
    nI = int(rng.choice([1, 3, 6]))
    cuts = np.cumsum((0,) + nOs)

    def ref(P, X):
        y = X @ P["W"].T + P["b"]
        return np.concatenate([softmax(y[:, a:b]) for a, b in zip(cuts, cuts[1:])], axis=1)

    def pre(model, X, Y, dY):
        return np.concatenate([_jac_softmax(Y[:, a:b], dY[:, a:b]) for a, b in zip(cuts, cuts[1:])], axis=1)

    return Case("MultiSoftmax", MultiSoftmax(nOs, nI), rows_x(nI), ref, pre=pre)


def layer_norm(rng):
    from thinc.api import LayerNorm

    nI = int(rng.choice([2, 3, 5, 8]))
    return Case("LayerNorm", LayerNorm(nI), rows_x(nI, style=rng.choice(["n", "big", "int", "mix"])),
                lambda P, X: layernorm(X, P["G"], P["b"]), tol=2e-5)


def dropout0(rng):
    from thinc.api import Dropout

    k = rng.randint(4)
    nI = int(rng.choice([1, 3]))
    x, kind = [(rows_x(nI), "rows"), (list_x(nI), "list"), (ragged_x(nI), "ragged"), (padded_x(nI), "padded")][k]
    return Case(f"Dropout0:{kind}", Dropout(0.0), x, lambda P, X: X, xkind=kind)


def noop_case(rng):
    from thinc.api import noop

    k = rng.randint(4)
    nI = int(rng.choice([1, 3]))
    x, kind = [(rows_x(nI), "rows"), (list_x(nI), "list"), (ragged_x(nI), "ragged"), (padded_x(nI), "padded")][k]
    return Case(f"noop:{kind}", noop(), x, lambda P, X: X, xkind=kind)


def window_floats(rng):
    from thinc.api import expand_window

    nW = int(rng.choice([1, 1, 2, 3]))
    nI = int(rng.choice([1, 2, 4]))
    return Case("expand_window:floats", expand_window(nW), rows_x(nI, empty=True), lambda P, X: window(X, nW), rowwise=False)


def window_ragged(rng):
    from thinc.api import expand_window

    nW = int(rng.choice([1, 1, 2, 3]))
    nI = int(rng.choice([1, 2, 4]))

    def ref(P, X):
        return Ragged(np.concatenate([window(s, nW) for s in seqs_of(X)]), X.lengths)

    return Case("expand_window:ragged", expand_window(nW), ragged_x(nI), ref, xkind="ragged")


def _reduction(name, f, min_len=0):
    def make(rng):
        import thinc.api as t

        nI = int(rng.choice([1, 2, 5]))

        def ref(P, X):
            return np.stack([f(s) for s in seqs_of(X)])

        return Case(name, getattr(t, name)(), ragged_x(nI, min_len), ref, xkind="ragged", ykind="rows", f64=True)

    return make


reduce_sum = _reduction("reduce_sum", lambda s: s.sum(axis=0))
reduce_mean = _reduction("reduce_mean", lambda s: s.mean(axis=0) if len(s) else s.sum(axis=0))
reduce_max = _reduction("reduce_max", lambda s: s.max(axis=0), 1)
reduce_first = _reduction("reduce_first", lambda s: s[0], 1)
reduce_last = _reduction("reduce_last", lambda s: s[-1], 1)


def attention(rng):
    from thinc.api import ParametricAttention

    nO = int(rng.choice([1, 2, 5]))

    def ref(P, X):
        out = []
        for s in seqs_of(X):
            a = softmax((s @ P["Q"])[None, :])[0][:, None] if len(s) else np.zeros((0, 1))
            out.append(s * a)
        return Ragged(np.concatenate(out), X.lengths)

    return Case("ParametricAttention", ParametricAttention(nO), ragged_x(nO), ref, xkind="ragged")


def attention_v2(rng):
    from thinc.api import Gelu, Linear, ParametricAttention_v2, Relu

    nO = int(rng.choice([1, 2, 5]))
    k = rng.randint(3)
    kt = [None, Linear(nO, nO), Gelu(nO, nO)][k]
    f = [None, lambda x: x, ACT["gelu"]][k]

    def ref(P, X):
        out = []
        for s in seqs_of(X):
            K = s if f is None else f(s @ P["W"].T + P["b"])
            a = softmax((K @ P["Q"])[None, :])[0][:, None] if len(s) else np.zeros((0, 1))
            out.append(s * a)
        return Ragged(np.concatenate(out), X.lengths)

    return Case(f"ParametricAttention_v2:{k}", ParametricAttention_v2(key_transform=kt, nO=nO), ragged_x(nO), ref, xkind="ragged", tol=1e-4 if k == 2 else 1e-6)


def _conv(name, x, ref, xkind, ykind, min_len=0):
    def make(rng):
        import thinc.api as t

        nI = int(rng.choice([1, 2, 4]))
        return Case(name, getattr(t, name)(), x(nI, min_len), ref, xkind=xkind, ykind=ykind,
                    rowwise=(ykind != "array"))

    return make


list2array = _conv("list2array", list_x, lambda P, X: np.concatenate(X), "list", "array")
list2ragged = _conv("list2ragged", list_x, lambda P, X: join(X, "ragged"), "list", "ragged")
ragged2list = _conv("ragged2list", ragged_x, lambda P, X: seqs_of(X), "ragged", "list")
list2padded = _conv("list2padded", list_x, None, "list", "padded")
padded2list = _conv("padded2list", padded_x, lambda P, X: cont.items(X), "padded", "list", 1)


def cauchy(rng):
    from thinc.api import CauchySimilarity

    nI = int(rng.choice([1, 3, 5]))

    def x(rng, n=None):
        n = rand_n(rng, n, False)
        a = values(rng, (n, nI))
        b = values(rng, (n, nI)) if rng.rand() < 0.8 else a + values(rng, (n, nI), "small")
        return (a, b)

    return Case("CauchySimilarity", CauchySimilarity(nI), x,
                lambda P, X: 1 / (1 + (P["W"] * (X[0] - X[1]) ** 2).sum(axis=1)),
                xkind="pair", ykind="rows", fix=lambda name, v: np.abs(v) + 0.1)


def embed(rng):
    from thinc.api import Embed

    nO = int(rng.choice([1, 3, 4]))
    nV = int(rng.choice([1, 2, 7, 20]))
    column = [None, 0, 1, 2][rng.randint(4)]
    dtype = rng.choice(["i", "int64", "uint64"])

    def x(rng, n=None):
        n = rand_n(rng, n, False)
        ids = rng.randint(0, nV, size=(n,) if column is None else (n, 3)).astype(dtype)
        return ids

    def ref(P, X):
        return P["E"][X if column is None else X[:, column]]

    return Case(f"Embed:{column}", Embed(nO, nV, column=column), x, ref, dx=False, linear=True)


def hashembed(rng):
    from thinc.api import HashEmbed

    nO = int(rng.choice([1, 3, 4]))
    nV = int(rng.choice([1, 2, 7, 20]))
    column = [None, 0, 1][rng.randint(3)]

    def x(rng, n=None):
        n = rand_n(rng, n, False)
        return rng.randint(0, 50, size=(n,) if column is None else (n, 3)).astype("uint64")

    return Case(f"HashEmbed:{column}", HashEmbed(nO, nV, column=column, seed=int(rng.randint(100))), x, None,
                dx=False, linear=True, f64=False)


def sparse_linear(rng):
    import thinc.layers.sparselinear as sl

    nO = int(rng.choice([1, 2, 4]))
    v2 = bool(rng.rand() < 0.7)
    m = (sl.SparseLinear_v2 if v2 else sl.SparseLinear)(nO, length=int(rng.choice([8, 32, 64])))

    def x(rng, n=None):
        ls = lengths_for(rng, n if n is not None else None)
        k = int(ls.sum())
        return (rng.randint(0, 1000, size=k).astype("uint64"), values(rng, (k,), "n"), ls)

    return Case(f"SparseLinear:{v2}", m, x, None, xkind="sparse", ykind="rows", dx=False, linear=True, f64=False)


def lstm(rng, bi=None, depth=None):
    from thinc.api import LSTM

    bi = bool(rng.rand() < 0.4) if bi is None else bi
    depth = int(rng.choice([1, 1, 2, 3])) if depth is None else depth
    nH = int(rng.choice([1, 2, 3]))
    nI = int(rng.choice([1, 2, 4]))
    dirs = 2 if bi else 1
    m = LSTM(nH * dirs, nI, bi=bi, depth=depth)

    def ref(P, X):
        outs = lstm_ref(P["LSTM"], P["HC0"], cont.items(X), nI, nH, depth, dirs)
        return repad(outs, X)

    c = Case(f"LSTM:{'bi' if bi else 'uni'}{depth}", m, padded_x(nI, style=rng.choice(["n", "small", "int"])), ref,
             xkind="padded", f64=False, tol=2e-3, fix=lambda name, v: v * 0 if name == "HC0" else v)
    c.frozen = {"HC0"}
    c.lstm = dict(nI=nI, nH=nH, depth=depth, dirs=dirs)
    return c


def repad(outs, X):
    """Pack per-sequence outputs into the layout of the padded batch X."""
    nS, nB = X.data.shape[:2]
    w = outs[0].shape[1]
    data = np.zeros((nS, nB, w), outs[0].dtype)
    for j, (i, n) in enumerate(zip(X.indices, X.lengths)):
        data[: int(n), j] = outs[int(i)]
    return Padded(data, X.size_at_t, X.lengths, X.indices)


def getitem(rng):
    from thinc.api import array_getitem
    from thinc.layers.array_getitem import floats_getitem

    nI = 4
    k = rng.randint(4)
    index = [(slice(None), 1), (slice(None), slice(1, 3)), (slice(None), [0, 2, 2]), (slice(None), slice(None, None, -1))][k]
    f = [array_getitem, floats_getitem][rng.randint(2)]
    return Case("array_getitem", f(index), rows_x(nI), lambda P, X: X[index])


LEAVES = dict(
    linear=linear, relu=relu, swish=swish, gelu=gelu, dish=dish, mish=mish, hard_swish=hard_swish,
    hard_swish_mobilenet=hard_swish_mobilenet, hard_tanh=hard_tanh, hard_sigmoid=hard_sigmoid,
    relu_k=relu_k, clipped=clipped, maxout=maxout, sigmoid=sigmoid_layer, logistic=logistic,
    sigmoid_activation=sigmoid_activation, softmax_activation=softmax_activation, softmax=softmax_v1,
    softmax_v2=softmax_v2, multisoftmax=multisoftmax, layer_norm=layer_norm, dropout0=dropout0,
    noop=noop_case, window_floats=window_floats, window_ragged=window_ragged, reduce_sum=reduce_sum,
    reduce_mean=reduce_mean, reduce_max=reduce_max, reduce_first=reduce_first, reduce_last=reduce_last,
    attention=attention, attention_v2=attention_v2, list2array=list2array, list2ragged=list2ragged,
    ragged2list=ragged2list, list2padded=list2padded, padded2list=padded2list, cauchy=cauchy,
    embed=embed, hashembed=hashembed, sparse_linear=sparse_linear, lstm=lstm, getitem=getitem,
)


# -- sequence encoders built from combinators (P25, P04, P09, ...) -----------------
def _enc_array(rng):
    from thinc.api import LayerNorm, Maxout, Relu, chain, residual, with_array, with_array2d

    nI = int(rng.choice([2, 4]))
    pad = int(rng.choice([0, 0, 1, 2]))
    inner = chain(residual(Maxout(nI, nI)), LayerNorm(nI)) if rng.rand() < 0.5 else Relu(3, nI)
    k = rng.randint(3)
    x, kind = [(list_x(nI), "list"), (ragged_x(nI), "ragged"), (padded_x(nI), "padded")][k]
    w = with_array2d if kind == "padded" else with_array  # the layers take 2d data
    c = Case(f"with_array:{kind}", w(inner, pad=pad), x, None, xkind=kind, tol=1e-4)
    return c


def _enc_cnn(rng):
    from thinc.api import Maxout, chain, expand_window, with_array, residual, clone, with_ragged

    nI = int(rng.choice([2, 4]))
    inner = clone(residual(chain(expand_window(1), Maxout(nI, nI * 3))), 2)
    k = rng.randint(2)
    x, kind = [(list_x(nI), "list"), (ragged_x(nI), "ragged")][k]
    # expand_window on Ragged respects the sequence boundaries
    from thinc.api import ragged2list
    m = with_ragged(chain(expand_window(2), _ragged_linear(nI, nI * 5)))
    return Case(f"cnn:{kind}", m, x, None, xkind=kind)


def _ragged_linear(nO, nI):
    from thinc.api import Linear, with_array

    return with_array(Linear(nO, nI))


def _enc_pool(rng):
    from thinc.api import Linear, chain, list2ragged, reduce_max, reduce_mean, reduce_sum, reduce_first, reduce_last, ParametricAttention, concatenate

    nI = int(rng.choice([2, 3]))
    m = chain(
        list2ragged(),
        ParametricAttention(nI),
        concatenate(reduce_sum(), reduce_max(), reduce_mean(), reduce_last(), reduce_first()),
        Linear(2, nI * 5),
    )
    # no equal rows: which of them is the maximum would depend on rounding
    style = str(rng.choice(["n", "n", "big", "small", "mix"]))
    return Case("pool", m, list_x(nI, 1, style), None, xkind="list", ykind="rows")


def _enc_lstm(rng):
    from thinc.api import LSTM, chain, list2padded, padded2list, with_padded

    nI = int(rng.choice([1, 3]))
    bi = bool(rng.rand() < 0.5)
    nO = 2 * int(rng.choice([1, 2]))
    depth = int(rng.choice([1, 2]))
    inner = LSTM(nO, nI, bi=bi, depth=depth)
    k = rng.randint(3)
    if k == 2:
        return Case("lstm-chain", chain(list2padded(), inner, padded2list()), list_x(nI, 1), None, xkind="list", tol=1e-3, f64=False)
    x, kind = [(list_x(nI, 1), "list"), (ragged_x(nI, 1), "ragged")][k]
    return Case(f"with_padded-lstm:{kind}", with_padded(inner), x, None, xkind=kind, tol=1e-3, f64=False)


def _enc_bidirectional(rng):
    from thinc.api import LSTM, bidirectional, with_padded

    nI = int(rng.choice([1, 3]))
    m = bidirectional(LSTM(2, nI))
    if rng.rand() < 0.5:
        return Case("bidirectional:padded", m, padded_x(nI), None, xkind="padded", tol=1e-3, f64=False)
    return Case("bidirectional:list", with_padded(m), list_x(nI, 1), None, xkind="list", tol=1e-3, f64=False)


def _enc_torch(rng):
    from thinc.api import PyTorchLSTM

    nI = int(rng.choice([1, 3]))
    m = PyTorchLSTM(2, nI, depth=int(rng.choice([1, 2])))
    k = rng.randint(3)
    x, kind = [(list_x(nI, 1), "list"), (ragged_x(nI, 1), "ragged"), (padded_x(nI), "padded")][k]
    return Case(f"PyTorchLSTM:{kind}", m, x, None, xkind=kind, tol=1e-3, f64=False)


def _enc_embed(rng):
    from thinc.api import Embed, HashEmbed, Maxout, chain, concatenate, uniqued, with_array

    nV = int(rng.choice([5, 12]))
    m = with_array(uniqued(chain(concatenate(Embed(2, nV, column=0), HashEmbed(3, 7, column=1, seed=3)), Maxout(3, 5))))

    def x(r, n=None):
        ls = lengths_for(r, n)
        return [np.stack([r.randint(0, nV, size=k), r.randint(0, 50, size=k)], axis=1).reshape(int(k), 2).astype("uint64") for k in ls]

    # rows are shared through column 0 only: make column 1 a function of it
    def x1(r, n=None):
        X = x(r, n)
        for a in X:
            a[:, 1] = a[:, 0] * 7 % 50
        return X

    return Case("uniqued-embed", m, x1, None, xkind="list", dx=False, f64=False)


def _enc_siamese(rng):
    from thinc.api import CauchySimilarity, Relu, siamese

    nI = int(rng.choice([2, 4]))

    def x(r, n=None):
        n = rand_n(r, n, False)
        return (values(r, (n, nI), "n"), values(r, (n, nI), "n"))

    return Case("siamese", siamese(Relu(3, nI), CauchySimilarity(3)), x, None, xkind="pair", ykind="rows")


def _enc_reshape(rng):
    from thinc.api import Linear, with_array2d, softmax_activation, chain

    nI = int(rng.choice([2, 3]))
    m = with_array2d(chain(Linear(3, nI), softmax_activation()))
    return Case("with_array2d", m, list_x(nI), None, xkind="list")


def _enc_flatten(rng):
    from thinc.api import with_flatten, Model

    nI = 3
    from thinc.api import Linear, chain, list2array

    def x(r, n=None):
        ls = lengths_for(r, n, 1)
        return [[values(r, (2, nI), "n") for _ in range(int(k))] for k in ls]

    from thinc.api import map_list

    m = with_flatten(map_list(Linear(2, nI)))
    return Case("with_flatten", m, x, None, xkind="nested")


def _enc_heads(rng):
    from thinc.api import Linear, Relu, add, chain, concatenate, clone, residual

    nI = int(rng.choice([2, 4]))
    m = chain(concatenate(Relu(2, nI), chain(Linear(3, nI), Relu(3, 3))), clone(residual(Relu(5, 5)), 2), add(Linear(2, 5), Relu(2, 5)))
    return Case("heads", m, rows_x(nI, style="n"), None)


ENCODERS = dict(
    enc_array=_enc_array, enc_cnn=_enc_cnn, enc_pool=_enc_pool, enc_lstm=_enc_lstm,
    enc_bidirectional=_enc_bidirectional, enc_torch=_enc_torch, enc_embed=_enc_embed,
    enc_siamese=_enc_siamese, enc_reshape=_enc_reshape, enc_flatten=_enc_flatten, enc_heads=_enc_heads,
)
