"""P21: initialisation infers shapes consistently or fails loudly.

Monitor: every layer constructor and random compositions are built with the
dimensions known to the harness, a random part of which is left out where the
samples imply them; after initialize() an observer reads every dimension and
the shape of every parameter of every node and compares them with the known
widths; further batches of other lengths are run through the model in both
modes.  Conflicting samples and assignments must raise and leave every
dimension as it was; missing information must raise; samples must be intact."""
import numpy as np

import thinc.api as t
from thinc.api import Model
from thinc.types import Padded, Ragged
from vlib import cont
from vlib.core import group

QUICK_X = 8

DENSE = ["Linear", "Relu", "Maxout", "Mish", "Swish", "Gelu", "Dish", "HardSwish", "HardSwishMobilenet", "HardSigmoid",
         "HardTanh", "ReluK", "ClippedLinear", "Sigmoid", "Softmax", "Softmax_v2"]
OPTIONS = {"Relu", "Maxout", "Mish", "Swish", "Gelu", "Dish", "HardSwish", "HardSwishMobilenet", "HardSigmoid", "HardTanh", "ReluK",
           "ClippedLinear"}


class Builder:
    """Builds models of known widths; omits what samples can imply."""

    def __init__(self, rng, omit=0.7, samples=True):
        self.rng = rng
        self.omit = omit if samples else 0.0
        self.samples = samples
        self.exp = []  # (node, dims, shapes)
        self.omitted = 0
        self.ops = []

    def width(self):
        return int(self.rng.choice([1, 2, 3, 4, 5, 7]))

    def want(self, node, dims, shapes=None):
        self.exp.append((node, dims, shapes or {}))
        return node

    def arg(self, value, may):
        """A dimension, or None when it may be left out."""
        if may and self.rng.rand() < self.omit:
            self.omitted += 1
            return None
        return value

    # -- leaves ---------------------------------------------------------------
    def dense(self, nI, nO, out):
        r = self.rng
        name = str(r.choice(DENSE))
        kw = {}
        if name in OPTIONS:
            if r.rand() < 0.3:
                kw["normalize"] = True
            if r.rand() < 0.3:
                kw["dropout"] = float(r.choice([0.0, 0.5]))
        nP = 3
        if name == "Maxout":
            nP = int(r.choice([1, 2, 3]))
            kw["nP"] = nP
        self.ops.append(name)
        m = getattr(t, name)(self.arg(nO, out), self.arg(nI, True), **kw)
        for node in m.walk():
            if node.name == "layernorm":
                self.want(node, {"nI": nO, "nO": nO}, {"G": (nO,), "b": (nO,)})
            elif node.name == "dropout":
                self.want(node, {})
            elif node.param_names:
                W, b = ((nO, nP, nI), (nO, nP)) if name == "Maxout" else ((nO, nI), (nO,))
                self.want(node, {"nI": nI, "nO": nO, **({"nP": nP} if name == "Maxout" else {})}, {"W": W, "b": b})
            else:
                self.want(node, {"nI": nI, "nO": nO})
        return m

    def plain(self, n):
        """Layers that keep the width."""
        r = self.rng
        k = r.randint(5)
        self.ops.append(["LayerNorm", "softmax_activation", "Dropout", "noop", "clipped"][k])
        if k == 0:
            return self.want(t.LayerNorm(self.arg(n, True)), {"nI": n, "nO": n}, {"G": (n,), "b": (n,)})
        if k == 1:
            return self.want(t.softmax_activation(), {})
        if k == 2:
            return self.want(t.Dropout(float(r.choice([0.0, 0.3]))), {})
        if k == 3:
            return self.want(t.noop(), {})
        return self.want(t.LayerNorm(self.arg(n, True)), {"nI": n, "nO": n}, {"G": (n,), "b": (n,)})

    def multisoftmax(self, nI):
        nOs = tuple(int(k) for k in self.rng.randint(1, 4, size=self.rng.randint(1, 4)))
        self.ops.append("MultiSoftmax")
        n = sum(nOs)
        return self.want(t.MultiSoftmax(nOs, self.arg(nI, True)), {"nI": nI, "nO": n}, {"W": (n, nI), "b": (n,)}), n

    def lstm(self, nI, nO, out):
        r = self.rng
        depth = int(r.choice([1, 1, 2]))
        bi = bool(r.rand() < 0.5 and nO % 2 == 0)
        dirs = 2 if bi else 1
        nH = nO // dirs
        size, w = 0, nI
        for _ in range(depth):
            size += dirs * 4 * (nH * w + nH + nH * nH + nH)
            w = nH * dirs
        m = t.LSTM(self.arg(nO, out), self.arg(nI, True), bi=bi, depth=depth)
        self.ops.append("LSTM")
        return self.want(m, {"nI": nI, "nO": nO, "depth": depth, "dirs": dirs}, {"LSTM": (size,), "HC0": (2, depth, dirs, nH)})

    def attention(self, n):
        r = self.rng
        if r.rand() < 0.5:
            self.ops.append("ParametricAttention")
            return self.want(t.ParametricAttention(self.arg(n, True)), {"nO": n}, {"Q": (n,)})
        self.ops.append("ParametricAttention_v2")
        if r.rand() < 0.5:
            m = t.ParametricAttention_v2(nO=self.arg(n, True))
        else:
            key = self.dense(n, n, False)
            m = t.ParametricAttention_v2(key_transform=key, nO=self.arg(n, True))
        return self.want(m, {"nO": n}, {"Q": (n,)})

    # -- compositions -----------------------------------------------------------
    def gen(self, kind, nI, nO, d, out):
        """A model from width nI to nO for this kind of batch; `out`: the width
        of the output may be left to the samples."""
        r = self.rng
        if d <= 0:
            if kind == "padded" and r.rand() < 0.6:
                return self.lstm(nI, nO, out)
            if kind == "ragged" and nI == nO and r.rand() < 0.4:
                return self.attention(nI)
            if kind == "rows":
                if nI == nO and r.rand() < 0.25:
                    return self.plain(nI)
                return self.dense(nI, nO, out)
            return self.with_array(kind, nI, nO, 0, out)
        ops = ["chain", "chain", "wrap", "leaf", "concatenate", "residual", "clone"]
        if kind == "rows":
            ops += ["add", "add"]
        else:
            ops += ["with_array", "with_kind", "with_kind"]
        if kind == "list":
            ops += ["map_list", "via"]
        if kind == "padded":
            ops = [o for o in ops if o != "concatenate"] + ["bidirectional"] * 2
        op = str(r.choice(ops))
        dims = {"nI": nI, "nO": nO}
        if op == "chain":
            n = int(r.choice([2, 2, 3]))
            ws = [nI] + [self.width() for _ in range(n - 1)] + [nO]
            ms = [self.gen(kind, a, b, d - 1, out and i == n - 1) for i, (a, b) in enumerate(zip(ws, ws[1:]))]
            self.ops.append("chain")
            close(ms[-1])
            return self.want(t.chain(*ms), dims)
        if op == "concatenate" and nO > 1:
            cut = int(r.randint(1, nO))
            ms = [self.gen(kind, nI, cut, d - 1, False), self.gen(kind, nI, nO - cut, d - 1, False)]
            if any(q.has_dim("nO") is None for q in ms):
                raise Redraw  # widths of concatenated layers cannot be inferred from their sum
            self.ops.append("concatenate")
            self.exp = [e for e in self.exp if op_name(ms[0]) != "concatenate" or e[0] is not ms[0]]  # extended in place
            return self.want(t.concatenate(*ms), dims)
        if op == "add":
            n = int(r.choice([2, 3]))
            ms = [self.gen(kind, nI, nO, d - 1, out) for _ in range(n)]
            if not out and any(q.has_dim("nO") is None for q in ms):
                raise Redraw  # would be given the output sample of the whole model
            self.ops.append("add")
            total = t.add(*ms)
            if not out and total.has_dim("nO") is None:
                raise Redraw
            return self.want(total, dims)
        if op == "residual" and nI == nO:
            self.ops.append("residual")
            m = self.gen(kind, nI, nO, d - 1, out)
            close(m)
            return self.want(t.residual(m), dims)
        if op == "clone" and nI == nO:
            before = len(self.exp)
            m = self.gen(kind, nI, nO, d - 1, out)
            inner = {id(n): (dd, ss) for n, dd, ss in self.exp[before:]}
            close(m)
            k = int(r.choice([2, 3]))
            c = t.clone(m, k)
            self.ops.append("clone")
            for copy in c.layers[1:] if c is not m else []:
                for a, b in zip(m.walk(), copy.walk()):
                    if id(a) in inner:
                        self.want(b, *inner[id(a)])
            return self.want(c, dims)
        if op == "wrap":
            m = self.gen(kind, nI, nO, d - 1, out)
            how = r.randint(5 if kind == "rows" else 4)
            self.ops.append(["resizable", "with_cpu", "with_debug", "with_nvtx", "uniqued"][how])
            if how == 4:
                return self.want(t.uniqued(m, column=int(r.randint(nI))), dims)
            if how == 0:
                return self.want(t.resizable(m, resize_layer=lambda layer, new: layer), dims)
            if how == 1 and kind in ("rows", "list"):
                return self.want(t.with_cpu(m, ops=t.NumpyOps()), dims)
            if how == 2:
                return t.with_debug(m)
            return t.with_nvtx_range(m)
        if op == "with_array":
            return self.with_array(kind, nI, nO, d - 1, out)
        if op == "with_kind":
            inner = str(r.choice(["list", "ragged", "padded"]))
            m = self.gen(inner, nI, nO, d - 1, out)
            if not out and m.has_dim("nO") is None:
                raise Redraw  # chain would pass it the output sample of the whole model
            self.ops.append(f"with_{inner}")
            return self.want(getattr(t, f"with_{inner}")(m), dims)
        if op == "map_list":
            self.ops.append("map_list")
            return self.want(t.map_list(self.gen("rows", nI, nO, d - 1, out)), dims)
        if op == "via":
            how = str(r.choice(["padded", "ragged"]))
            # the output sample is a list: the layer in between cannot look at it
            m = self.gen(how, nI, nO, d - 1, False)
            self.ops.append("list2" + how)
            return self.want(t.chain(getattr(t, f"list2{how}")(), m, getattr(t, f"{how}2list")()), dims)
        if op == "bidirectional" and nO % 2 == 0:
            h = nO // 2
            if r.rand() < 0.5:
                before = len(self.exp)
                m = self.gen(kind, nI, h, 0, out)
                inner = {id(n): (dd, ss) for n, dd, ss in self.exp[before:]}
                b = t.bidirectional(m)
                for x, y in zip(m.walk(), b.layers[1].walk()):
                    if id(x) in inner:
                        self.want(y, *inner[id(x)])
            else:
                b = t.bidirectional(self.gen(kind, nI, h, d - 1, out), self.gen(kind, nI, h, d - 1, out))
            self.ops.append("bidirectional")
            return self.want(b, dims)
        return self.gen(kind, nI, nO, 0, out)

    def with_array(self, kind, nI, nO, d, out):
        inner = self.gen("rows", nI, nO, d, out)
        f = t.with_array2d if kind == "padded" or self.rng.rand() < 0.3 else t.with_array
        self.ops.append(f.__name__)
        return self.want(f(inner, pad=int(self.rng.choice([0, 0, 1]))), {"nI": nI, "nO": nO})

    # -- whole models -----------------------------------------------------------
    def model(self, kind, d):
        """(model, sampler of X, width of the output, kind of the output)"""
        r = self.rng
        nI, nO = self.width(), self.width()
        if kind == "ids":
            w = self.width()
            nV = int(r.choice([1, 5, 20]))
            if r.rand() < 0.5:
                two = r.rand() < 0.3
                e = t.Embed(w, nV, column=1 if two else None)
                self.want(e.layers[1] if two else e, {"nO": w, "nV": nV}, {"E": (nV, w)})
                self.ops.append("Embed")
                x = lambda n: r.randint(0, nV, size=(n, 2) if two else n).astype("i4")
                if two and r.rand() < 0.7:
                    e = self.want(t.uniqued(e, column=1), {"nO": w})
                    self.ops.append("uniqued")
            else:
                e = self.want(t.HashEmbed(w, nV), {"nO": w, "nV": nV}, {"E": (nV, w)})
                self.ops.append("HashEmbed")
                x = lambda n: r.randint(0, 1000, size=n).astype("u8")
            last = self.gen("rows", w, nO, d - 1, True)
            close(last)
            m = t.chain(e, last)
            return self.want(m, {"nO": nO}), x, nO, "rows"
        if kind == "sparse":
            length = int(r.choice([3, 16]))
            L = t.SparseLinear if r.rand() < 0.5 else t.SparseLinear_v2
            m = L(self.arg(nO, True), length)
            self.ops.append("SparseLinear")

            def x(n):
                ls = r.randint(0, 4, size=n).astype("i4")
                k = int(ls.sum())
                return (r.randint(0, 10**6, size=k).astype("u8"), r.standard_normal(k).astype("f"), ls)

            return self.want(m, {"nO": nO, "length": length}, {"W": (nO * length,), "b": (nO,)}), x, nO, "rows"
        if kind == "pool":
            w = self.width()
            pool = getattr(t, "reduce_" + str(r.choice(["sum", "mean", "max", "first", "last"])))()
            parts = [t.list2ragged(), self.gen("ragged", nI, w, d - 1, False)]
            if r.rand() < 0.4:
                parts.append(self.attention(w))
            parts += [pool, self.gen("rows", w, nO, d - 1, True)]
            self.ops.append("reduce")
            close(parts[-1])
            x = lambda n: [r.standard_normal((int(k), nI)).astype("f") for k in r.randint(1, 5, size=n)]
            return self.want(t.chain(*parts), {"nI": nI, "nO": nO}), x, nO, "rows"
        if kind == "window":
            nW = int(r.choice([1, 2]))
            m = t.chain(t.list2ragged(), t.expand_window(nW), self.gen("ragged", nI * (2 * nW + 1), nO, d - 1, False), t.ragged2list())
            self.ops.append("expand_window")
            x = lambda n: [r.standard_normal((int(k), nI)).astype("f") for k in r.randint(1, 5, size=n)]
            return m, x, nO, "list"
        if kind == "multisoftmax":
            w = self.width()
            a = self.gen("rows", nI, w, d - 1, False)
            m, n = self.multisoftmax(w)
            x = lambda k: r.standard_normal((k, nI)).astype("f")
            return self.want(t.chain(a, m), {"nI": nI, "nO": n}), x, n, "rows"
        if kind == "reshape":
            inner = self.dense(nI, nO, True) if r.rand() < 0.5 else self.want(t.chain(self.dense(nI, 3, False), self.dense(3, nO, True)), {"nI": nI, "nO": nO})
            m = t.with_reshape(inner)
            self.ops.append("with_reshape")
            x = lambda k: r.standard_normal((k, 3, nI)).astype("f")
            return self.want(m, {"nI": nI, "nO": nO}), x, nO, "3d"
        if kind == "flatten":
            v2 = r.rand() < 0.6
            if v2:
                m = t.with_flatten_v2(t.map_list(self.gen("rows", nI, nO, d - 1, True)))
            else:
                m = t.with_flatten(t.map_list(self.gen("rows", nI, nO, d - 1, False)))
            self.ops.append("with_flatten" + ("_v2" if v2 else ""))
            x = lambda k: [[r.standard_normal((2, nI)).astype("f") for _ in range(int(q))] for q in r.randint(1, 4, size=k)]
            return m, x, nO, "nested" if v2 else None
        if kind == "siamese":
            inner = self.gen("rows", nI, nO, d - 1, False)
            c = self.want(t.CauchySimilarity(self.arg(nO, True)), {"nI": nO, "nO": 1}, {"W": (nO,)})
            self.ops.append("siamese")
            x = lambda k: (r.standard_normal((k, nI)).astype("f"), r.standard_normal((k, nI)).astype("f"))
            return self.want(t.siamese(inner, c), {"nI": nI, "nO": 1}), x, 1, "1d"
        if kind == "tuple":
            ws = [self.width() for _ in range(int(r.choice([2, 3])))]
            ms = [self.gen("rows", nI, w, d - 1, True) for w in ws]
            for q in ms:
                close(q)
            self.ops.append("tuplify")
            x = lambda k: r.standard_normal((k, nI)).astype("f")
            return self.want(t.tuplify(*ms), {"nI": nI}), x, ws, "tuple"
        if kind == "getitem":
            other = self.width()
            i = int(r.choice([0, 1]))
            m = t.with_getitem(i, self.gen("rows", nI, nO, d - 1, True))
            self.ops.append("with_getitem")

            def x(k):
                a, b = r.standard_normal((k, nI)).astype("f"), r.standard_normal((k, other)).astype("f")
                return (a, b) if i == 0 else (b, a)

            return m, x, [nO, other] if i == 0 else [other, nO], "tuple"
        m = self.gen(kind, nI, nO, d, True)

        def x(k):
            ls = r.randint(1, 5, size=k)
            seqs = [r.standard_normal((int(q), nI)).astype("f") for q in ls]
            if kind == "rows":
                return r.standard_normal((k, nI)).astype("f")
            if kind == "list":
                return seqs
            if kind == "ragged":
                return Ragged(np.concatenate(seqs), ls.astype("i4"))
            return t.NumpyOps().list2padded(seqs)

        return m, x, nO, kind


def close(m):
    """chain passes the output sample to a layer only when the layer says that
    its nO is unset; wrappers without dimensions of their own say nothing."""
    if m.has_dim("nO") is None or not y_needed(m):
        return
    raise Redraw


class Redraw(Exception):
    pass


def y_for(rng, X, nO, kind):
    n = 0 if kind == "padded" else len(X[0]) if isinstance(X, tuple) else len(X)
    f = lambda *s: rng.standard_normal(s).astype("f")
    if kind == "rows":
        if isinstance(X, tuple):
            n = len(X[2])
        return f(n, nO)
    if kind == "1d":
        return f(n, 1)
    if kind == "3d":
        return f(n, X.shape[1], nO)
    if kind == "list":
        return [f(len(x), nO) for x in X]
    if kind == "nested":
        return [[f(len(x), nO) for x in xs] for xs in X]
    if kind == "ragged":
        return Ragged(f(X.dataXd.shape[0], nO), X.lengths)
    if kind == "padded":
        return Padded(f(*X.data.shape[:2], nO), X.size_at_t, X.lengths, X.indices)
    if kind == "tuple":
        n = len(X[0]) if isinstance(X, tuple) else len(X)
        return tuple(f(n, w) for w in nO)
    raise ValueError(kind)


def width_of(Y):
    if isinstance(Y, (Ragged, Padded)):
        return Y.data.shape[-1]
    if isinstance(Y, tuple):
        return [width_of(y) for y in Y]
    if isinstance(Y, list):
        return width_of(Y[0])
    return Y.shape[-1] if Y.ndim > 1 else 1


def dims_of(m):
    return [(n.name, tuple((d, n.maybe_get_dim(d)) for d in n.dim_names)) for n in m.walk()]


def shapes_of(m):
    return [(n.name, tuple((p, np.shape(n.get_param(p)) if n.has_param(p) else None) for p in n.param_names)) for n in m.walk()]


def compare(ctx, m, b, how):
    seen = {id(n) for n in m.walk()}
    for node, dims, shapes in b.exp:
        if id(node) not in seen:
            continue
        for name, want in dims.items():
            has = node.has_dim(name)
            if has is False:
                continue
            if has is None:
                if not node.param_names and not implied(node, name):
                    ctx.note(f"dimension_left_open:{node.name.split('(')[0][:12]}")
                    continue
                ctx.check(False, f"dim-unset:{op_name(node)}.{name}", f"{how}: {node.name}.{name} unset, data implies {want}; {b.ops}")
                continue
            got = node.get_dim(name)
            ctx.check(got == want, f"dim:{op_name(node)}.{name}", f"{how}: {node.name}.{name} is {got}, data implies {want}; {b.ops}")
        for name, want in shapes.items():
            got = np.shape(node.get_param(name)) if node.has_param(name) else None
            ctx.check(got == want, f"param-shape:{op_name(node)}.{name}", f"{how}: {node.name}.{name} has shape {got}, expected {want}; {b.ops}")
            if got is not None:
                ctx.check(node.get_param(name).dtype == np.float32, "param-dtype", f"{node.name}.{name} {node.get_param(name).dtype}")
    for n in m.walk():
        ctx.check(all(n.has_param(p) for p in n.param_names), "param-unset", f"{how}: {n.name} {[p for p in n.param_names if not n.has_param(p)]}")


def op_name(node):
    f = getattr(node._func, "__module__", "") or ""
    return f.rsplit(".", 1)[-1]


def implied(node, name):
    """Can this dimension of a combinator be read off its own layers?"""
    op = op_name(node)
    kids = node.layers
    if not kids:
        return True
    if op == "concatenate":
        return all(k.has_dim(name) for k in kids)
    if op == "chain":
        return bool((kids[0] if name == "nI" else kids[-1]).has_dim(name))
    return all(k.has_dim(name) for k in kids)


KINDS = ["rows", "rows", "list", "ragged", "padded", "ids", "sparse", "pool", "window", "multisoftmax", "reshape", "flatten", "siamese", "tuple", "getitem"]


def make(rng, samples=True, kind=None, d=None):
    b = Builder(rng, samples=samples)
    kind = kind or str(rng.choice(KINDS))
    while True:
        try:
            m, x, nO, ykind = b.model(kind, int(rng.choice([1, 2, 3])) if d is None else d)
            return b, kind, m, x, nO, ykind
        except Redraw:
            b = Builder(rng, samples=samples)


def y_needed(m):
    return any(n.has_dim("nO") is None and n.param_names for n in m.walk())


@group(120, 8000, 100)
def from_samples(ctx, rng):
    """Dimensions implied by the samples."""
    b, kind, m, x, nO, ykind = make(rng)
    X = x(int(rng.choice([1, 2, 4])))
    need = y_needed(m)
    Y = y_for(rng, X, nO, ykind) if ykind and (need or rng.rand() < 0.6) else None
    before = cont.digest(X), cont.digest(Y) if Y is not None else None
    ctx.describe(kind, b.ops, Y is not None)
    given = {(id(n), d): n.get_dim(d) for n in m.walk() for d in n.dim_names if n.has_dim(d)}
    nodes = list(m.walk())
    got = m.initialize(X=X, Y=Y)
    ctx.check(got is m, "initialize-returns", "initialize returns another model")
    ctx.check(before == (cont.digest(X), cont.digest(Y) if Y is not None else None), "samples-changed", f"{kind} {b.ops}")
    ctx.check([id(n) for n in m.walk()] == [id(n) for n in nodes], "nodes-changed", f"{b.ops}")
    for n in nodes:
        for d in n.dim_names:
            if (id(n), d) in given:
                ctx.check(n.maybe_get_dim(d) == given[(id(n), d)], "given-dim-changed", f"{n.name}.{d} {given[(id(n), d)]} -> {n.maybe_get_dim(d)}")
    compare(ctx, m, b, kind)
    use(ctx, rng, m, x, nO, ykind, b)
    # initialising again with other data of the same widths
    d0, s0 = dims_of(m), shapes_of(m)
    X2 = x(int(rng.choice([1, 3])))
    m.initialize(X=X2, Y=y_for(rng, X2, nO, ykind) if Y is not None else None)
    ctx.check((dims_of(m), shapes_of(m)) == (d0, s0), "reinit-dims", f"initialised twice: {d0} {dims_of(m)}")
    ctx.note("omitted_dims", b.omitted)
    ctx.note(f"kind:{kind}")
    for o in b.ops:
        ctx.note(f"op:{o}")
    ctx.sig(kind, tuple(b.ops), str(d0), Y is not None)


def use(ctx, rng, m, x, nO, ykind, b):
    for n in (1, 3):
        Z = x(n)
        for train in (False, True):
            Y, bp = m(Z, train)
            if ykind is not None:
                ctx.check(width_of(Y) == nO, "output-width", f"{width_of(Y)} expected {nO}: {b.ops}")
            ctx.check(all(np.isfinite(a).all() for a in cont.data(Y)), "output-finite", f"{b.ops}")
            if train and not any(op in ("MultiSoftmax", "softmax_activation") for op in b.ops):
                bp(cont.rand_like(rng, Y))
                for node in m.walk():
                    for p in node.grad_names:
                        ctx.check(node.get_grad(p).shape == node.get_param(p).shape, "grad-shape", f"{node.name}.{p}")


@group(60, 4000, 50)
def from_dims(ctx, rng):
    """All dimensions given: no samples needed, and samples change nothing."""
    b, kind, m, x, nO, ykind = make(rng, samples=False, kind=str(rng.choice([k for k in KINDS])))
    ctx.describe(kind, b.ops)
    how = rng.randint(3)
    if kind == "reshape" and m.layers[0].has_dim("nO") is None:
        how = max(how, 1)
    if how == 0:
        m.initialize()
    else:
        X = x(2)
        m.initialize(X=X, Y=y_for(rng, X, nO, ykind) if how == 2 and ykind else None)
    compare(ctx, m, b, f"given:{kind}")
    use(ctx, rng, m, x, nO, ykind, b)
    ctx.note(f"given:{kind}:{how}")
    ctx.sig(kind, tuple(b.ops), how, str(dims_of(m)))


def widen(X, k):
    """The same batch with k more columns (k < 0: fewer)."""

    def f(a):
        w = a.shape[-1] + k
        out = np.ones(a.shape[:-1] + (w,), a.dtype)
        n = min(w, a.shape[-1])
        out[..., :n] = a[..., :n]
        return out

    return cont.map_data(f, X)


@group(60, 4000, 40)
def conflicts(ctx, rng):
    """Samples that disagree with dimensions already set are refused."""
    b, kind, m, x, nO, ykind = make(rng, kind=str(rng.choice(["rows", "list", "ragged", "padded", "pool", "reshape", "siamese", "tuple"])))
    X = x(2)
    how = rng.randint(2)
    if how == 0:  # initialised, then other samples
        m.initialize(X=X, Y=y_for(rng, X, nO, ykind))
    ctx.describe(kind, b.ops, how)
    first = first_dims(m)
    if how == 1 and not any(d is not None for d in first):
        ctx.skip("no input width set")
        return
    if not first:
        ctx.skip("layers without input width")
        return
    k = int(rng.choice([1, 2, -1]))
    bad = widen(X, k)
    if width_of(bad) == 0 or (isinstance(width_of(bad), list) and 0 in width_of(bad)):
        ctx.skip("zero width")
        return
    Y = y_for(rng, X, nO, ykind)
    before = dims_of(m), shapes_of(m), {(id(n), p): n.get_param(p).tobytes() for n in m.walk() for p in n.param_names if n.has_param(p)}
    given = {(n.name, id(n), d): n.get_dim(d) for n in m.walk() for d in n.dim_names if n.has_dim(d)}
    ctx.raises(lambda: m.initialize(X=bad, Y=Y), "conflict-accepted", f"{kind} {b.ops}: input of width {width_of(bad)}", exc=Exception)
    for (name, i, d), v in given.items():
        node = [n for n in m.walk() if id(n) == i][0]
        ctx.check(node.maybe_get_dim(d) == v, "conflict-changed-dim", f"{name}.{d}: {v} -> {node.maybe_get_dim(d)}")
    if how == 0:
        ctx.check(shapes_of(m) == before[1], "conflict-changed-shapes", f"{b.ops}")
        use(ctx, rng, m, x, nO, ykind, b)
    ctx.note(f"conflict:{kind}:{'again' if how == 0 else 'given'}")
    ctx.sig(kind, tuple(b.ops), how, k)


def first_dims(m):
    """Input widths of the layers that read the input directly."""
    op = op_name(m)
    if m.param_names:
        return [m.maybe_get_dim("nI")] if m.has_dim("nI") is not False else ([m.maybe_get_dim("nO")] if op.startswith("parametricattention") else [])
    if not m.layers:
        return []
    if op in ("add", "concatenate", "tuplify", "bidirectional"):
        return [d for k in m.layers for d in first_dims(k)]
    if op == "chain":
        for k in m.layers:
            ds = first_dims(k)
            if ds:
                return ds
            if k.layers or k.name in ("expand_window",):
                return []
        return []
    return first_dims(m.layers[0])


@group(80, 4000, 60)
def single_layers(ctx, rng):
    """One layer: every subset of dimensions and samples, including too few and
    conflicting ones."""
    b = Builder(rng)
    nI, nO = b.width(), b.width()
    m = b.dense(nI, nO, True)
    core = [n for n in m.walk() if n.param_names and n.name != "layernorm"][0]
    name = b.ops[0]
    X = rng.standard_normal((3, nI)).astype("f") if rng.rand() < 0.7 else None
    Y = rng.standard_normal((3, nO)).astype("f") if rng.rand() < 0.6 else None
    bad = None
    if rng.rand() < 0.3:
        bad = str(rng.choice(["X", "Y"]))
        k = int(rng.choice([1, 2]))
        if bad == "X" and X is not None:
            X = widen(X, k)
        elif bad == "Y" and Y is not None:
            Y = widen(Y, k)
        else:
            bad = None
    gI, gO = core.maybe_get_dim("nI"), core.maybe_get_dim("nO")
    ctx.describe(name, gI, gO, None if X is None else X.shape, None if Y is None else Y.shape)
    wI = gI if gI is not None else (X.shape[1] if X is not None else None)
    wO = gO if gO is not None else (Y.shape[1] if Y is not None else None)
    missing = wI is None or wO is None
    clash = (X is not None and X.shape[1] != wI) or (Y is not None and Y.shape[1] != wO and core is m and not name.startswith(("Softmax", "Sigmoid")))
    if missing or clash:
        ctx.raises(lambda: m.initialize(X=X, Y=Y), "missing-accepted" if missing else "conflict-accepted",
                   f"{name}(nO={gO}, nI={gI}) X={None if X is None else X.shape} Y={None if Y is None else Y.shape}")
        for d, g in (("nI", gI), ("nO", gO)):
            if g is not None:
                ctx.check(core.maybe_get_dim(d) == g, "conflict-changed-dim", f"{name}.{d} {g} -> {core.maybe_get_dim(d)}")
        ctx.note("refused:" + ("missing" if missing else "conflict"))
    else:
        m.initialize(X=X, Y=Y)
        ctx.check((core.maybe_get_dim("nI"), core.maybe_get_dim("nO")) == (wI, wO), f"dim:{name}",
                  f"{core.maybe_get_dim('nI')}, {core.maybe_get_dim('nO')} expected {wI}, {wO}")
        out = m.predict(rng.standard_normal((2, wI)).astype("f"))
        ctx.check(out.shape == (2, wO), "output-width", f"{name} {out.shape}")
        ctx.note("accepted")
    ctx.sig(name, gI, gO, X is None, Y is None, bad)


@group(40, 3000, 30)
def assignments(ctx, rng):
    """set_dim / get_dim / has_dim / maybe_get_dim against a dictionary."""
    names = [f"n{c}" for c in "ABC"[: rng.randint(1, 4)]]
    want = {n: (None if rng.rand() < 0.5 else int(rng.randint(0, 5))) for n in names}
    m = Model("m", lambda model, X, is_train: (X, lambda d: d), dims=dict(want), params={"W": None, "b": None})
    params = False
    trace = []
    for _ in range(25):
        n = str(rng.choice(names + ["nZ"]))
        k = rng.randint(6)
        trace.append((n, int(k)))
        if k == 0 and rng.rand() < 0.3:
            m.set_param("W", np.zeros((2, 2), "f"))
            params = True
        elif k <= 2:
            v = int(rng.randint(0, 5))
            force = bool(rng.rand() < 0.3)
            if n not in want:
                ctx.raises(lambda: m.set_dim(n, v, force=force), "unknown-dim", n, exc=KeyError)
            elif want[n] is not None and want[n] != v and (not force or params):
                ctx.raises(lambda: m.set_dim(n, v, force=force), "silent-change", f"{n} {want[n]} -> {v} force={force} params={params}", exc=ValueError)
            else:
                m.set_dim(n, v, force=force)
                want[n] = v
        elif k == 3:
            has = False if n not in want else (None if want[n] is None else True)
            ctx.check(m.has_dim(n) is has, "has-dim", f"{n}: {m.has_dim(n)} expected {has}")
        elif k == 4:
            if want.get(n) is None:
                ctx.raises(lambda: m.get_dim(n), "get-dim", n, exc=KeyError if n not in want else ValueError)
            else:
                ctx.equal(m.get_dim(n), want[n], "get-dim", n)
        else:
            ctx.equal(m.maybe_get_dim(n), want.get(n), "maybe-get-dim", n)
        for q in names:
            ctx.check(m.maybe_get_dim(q) == want[q], "dim-value", f"{trace[-3:]} {q}: {m.maybe_get_dim(q)} expected {want[q]}")
    ctx.check(set(m.dim_names) == set(want), "dim-names", f"{m.dim_names}")
    ctx.sig(str(trace))


@group(20, 1500, 15)
def uneven_lstm(ctx, rng):
    """A bidirectional layer cannot give an odd number of columns."""
    nO = int(rng.choice([1, 2, 3, 4, 5, 6, 7]))
    nI = int(rng.choice([1, 3]))
    bi = bool(rng.rand() < 0.7)
    torch = bool(rng.rand() < 0.4)
    seqs = [rng.standard_normal((int(k), nI)).astype("f") for k in rng.randint(1, 4, size=2)]
    refused = None
    try:
        if torch:
            m = t.PyTorchLSTM(nO, nI, bi=bi)
            m.initialize()
        else:
            m = t.with_padded(t.LSTM(nO, nI, bi=bi))
            m.initialize(X=seqs)
    except (ValueError, AssertionError) as e:
        refused = e
    if refused is None:
        Y = m.predict(seqs)
        ctx.check(Y[0].shape[1] == nO == m.layers[0].get_dim("nO"), "lstm-width", f"nO={nO} bi={bi} torch={torch}: output has {Y[0].shape[1]} columns, dim says {m.layers[0].get_dim('nO')}")
    else:
        ctx.check(bi and nO % 2 == 1, "lstm-refused", f"nO={nO} bi={bi} torch={torch}: {refused!r}")
    ctx.sig(nO, nI, bi, torch)
    ctx.note("refused" if refused else "accepted")


@group(30, 2000, 25)
def resized(ctx, rng):
    """Resizing the output: the old rows keep their weights, dimensions and
    shapes follow."""
    from thinc.layers.resizable import resize_linear_weighted, resize_model

    nI, nO = int(rng.choice([1, 3, 4])), int(rng.choice([1, 2, 3]))
    inner = getattr(t, str(rng.choice(["Linear", "Softmax", "Sigmoid"])))
    state = str(rng.choice(["initialised", "nothing", "nO only"]))
    fill = {"W": float(rng.choice([0.0, 2.0])), "b": float(rng.choice([0.0, -1.0]))}
    m = t.resizable(inner(None if state == "nothing" else nO), resize_layer=lambda layer, new: resize_linear_weighted(layer, new, fill_defaults=fill))
    X = rng.standard_normal((3, nI)).astype("f")
    if state == "initialised":
        m.initialize(X=X)
        m.layers[0].set_param("W", rng.standard_normal((nO, nI)).astype("f"))
        m.layers[0].set_param("b", rng.standard_normal(nO).astype("f"))
    new = nO + int(rng.choice([0, 1, 4]))
    W = m.layers[0].get_param("W").copy() if state == "initialised" else None
    b = m.layers[0].get_param("b").copy() if state == "initialised" else None
    out = resize_model(m, new)
    ctx.check(out is m, "resize-returns", state)
    if state != "initialised":
        m.initialize(X=X)
    inner_layer = m.layers[0]
    ctx.check(inner_layer.get_dim("nO") == new and m.maybe_get_dim("nO") == new, "resize-dim",
              f"{state}: layer nO {inner_layer.get_dim('nO')}, wrapper nO {m.maybe_get_dim('nO')}, asked for {new}")
    ctx.check(inner_layer.get_param("W").shape == (new, nI) and inner_layer.get_param("b").shape == (new,), "resize-shape", state)
    if W is not None:
        ctx.check(np.array_equal(inner_layer.get_param("W")[:nO], W) and np.array_equal(inner_layer.get_param("b")[:nO], b), "resize-keeps", state)
        ctx.check((inner_layer.get_param("W")[nO:] == fill["W"]).all() and (inner_layer.get_param("b")[nO:] == fill["b"]).all(), "resize-fill", state)
    ctx.check(m.predict(X).shape == (3, new), "resize-output", state)
    ctx.sig(state, nI, nO, new, str(fill))
