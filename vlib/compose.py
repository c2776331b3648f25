"""Random compositions of layers, each with an executable model (float64 numpy)
of what the documentation says the composition computes.

A Spec mirrors a model built from thinc's combinators; `evaluate` computes it
from the parameters alone, never calling thinc.  Values of the executable model:
rows = one (n, w) array; list / ragged / padded batches = list of (len, w)
arrays in original order; tuples = tuples."""
import numpy as np

from thinc.api import Model
from thinc.types import Padded, Ragged

from . import cont, zoo


class Spec:
    def __init__(self, op, model, kids=(), **kw):
        self.op = op
        self.model = model
        self.kids = list(kids)
        self.kw = kw
        self.padded = op in ("with_padded", "bidirectional", "list2padded") or any(k.padded for k in self.kids)

    def __repr__(self):
        extra = "".join(f"{v}" for k, v in self.kw.items() if isinstance(v, (int, str)))
        return self.op + extra + ("(" + ",".join(map(repr, self.kids)) + ")" if self.kids else "")

    def ops(self):
        out = {self.op}
        for k in self.kids:
            out |= k.ops()
        return out


# -- executable model ------------------------------------------------------------
class Env:
    """Parameter values by (node id, name), with node substitution for copies."""

    def __init__(self, model):
        self.v = {}
        for node in model.walk():
            for name in node.param_names:
                if node.has_param(name):
                    self.v[(node.id, name)] = np.asarray(node.get_param(name), dtype="f8")

    def get(self, sub, model, name):
        node = sub.get(id(model), model)
        return self.v[(node.id, name)]


def evaluate(s, X, env, sub={}):
    op = s.op
    if op == "noop":
        return X
    if op in ("rows", "seq"):
        return leaf(s, X, env, sub)
    if op == "same":  # wrappers that do not change the computation
        return evaluate(s.kids[0], X, env, sub)
    if op == "chain":
        for k in s.kids:
            X = evaluate(k, X, env, sub)
        return X
    if op == "clone":
        for subst in s.kw["subs"]:
            # copies made by clone, unless this clone itself was copied later
            merged = {key: sub.get(id(node), node) for key, node in subst.items()} if subst else sub
            X = evaluate(s.kids[0], X, env, merged)
        return X
    if op == "concatenate":
        Ys = [evaluate(k, X, env, sub) for k in s.kids]
        if isinstance(X, list):
            return [np.concatenate(ys, axis=1) for ys in zip(*Ys)]
        return np.concatenate(Ys, axis=1)
    if op == "add":
        Ys = [evaluate(k, X, env, sub) for k in s.kids]
        return sum(Ys[1:], Ys[0])
    if op == "residual":
        Y = evaluate(s.kids[0], X, env, sub)
        return [a + b for a, b in zip(X, Y)] if isinstance(X, list) else X + Y
    if op == "with_array":
        flat = np.concatenate(X)
        Y = evaluate(s.kids[0], flat, env, sub)
        return np.split(Y, np.cumsum([len(x) for x in X])[:-1])
    if op == "map_list":
        return [evaluate(s.kids[0], x, env, sub) for x in X]
    if op in ("with_list", "with_ragged", "with_padded", "list2ragged", "list2padded", "padded2list", "ragged2list"):
        return evaluate(s.kids[0], X, env, sub) if s.kids else X
    if op == "list2array":
        return np.concatenate(X)
    if op == "reduce":
        f = {"sum": lambda a: a.sum(0), "mean": lambda a: a.mean(0) if len(a) else a.sum(0), "max": lambda a: a.max(0),
             "first": lambda a: a[0], "last": lambda a: a[-1]}[s.kw["how"]]
        return np.stack([f(x) for x in X])
    if op == "window":
        return [zoo.window(x, s.kw["nW"]) for x in X]
    if op == "bidirectional":
        l2r, r2l = s.kids
        a = evaluate(l2r, X, env, sub)
        b = evaluate(r2l, [x[::-1] for x in X], env, merge(s, 1, sub))
        return [np.concatenate([p, q[::-1]], axis=1) for p, q in zip(a, b)]
    if op == "tuplify":
        return tuple(evaluate(k, X, env, sub) for k in s.kids)
    if op == "with_getitem":
        i = range(len(X))[s.kw["idx"]]
        return X[:i] + (evaluate(s.kids[0], X[i], env, sub),) + X[i + 1 :]
    if op == "siamese":
        return evaluate(s.kids[1], tuple(evaluate(s.kids[0], x, env, sub) for x in X), env, sub)
    if op == "cauchy":
        W = env.get(sub, s.model, "W")
        return 1 / (1 + (W * (X[0] - X[1]) ** 2).sum(axis=1))
    if op == "with_reshape":
        n, t, w = X.shape
        Y = evaluate(s.kids[0], X.reshape(n * t, w), env, sub)
        return Y.reshape(n, t, -1)
    if op == "getitem":
        return X[s.kw["index"]]
    raise ValueError(op)


def merge(s, i, sub):
    subst = s.kw.get("subs", {}).get(i)
    if not subst:
        return sub
    return {key: sub.get(id(node), node) for key, node in subst.items()}


def leaf(s, X, env, sub):
    g = lambda n: env.get(sub, s.model, n)
    k = s.kw["kind"]
    if s.op == "seq":
        W, U, b = g("W"), g("U"), g("b")
        out = []
        for x in X:
            prev = np.concatenate([np.zeros_like(x[:1]), x[:-1]]) if len(x) else x
            out.append(np.tanh(x @ W.T + prev @ U.T + b))
        return out
    if k == "probe":
        return np.tanh(X @ g("W").T + g("b"))
    if k == "Linear":
        return X @ g("W").T + g("b")
    if k == "Sigmoid":
        return zoo.sigmoid(X @ g("W").T + g("b"))
    if k == "Swish":
        return zoo.ACT["swish"](X @ g("W").T + g("b"))
    if k == "softmax_activation":
        return zoo.softmax(X)
    raise ValueError(k)


# -- probe layers ----------------------------------------------------------------
def probe(nO, nI, log=None):
    """tanh(X W' + b) on rows."""

    def forward(model, X, is_train):
        W, b = model.get_param("W"), model.get_param("b")
        Y = np.tanh(X @ W.T + b)
        if log is not None:
            log.append(("forward", model.id, bool(is_train), X.shape))

        def backprop(dY):
            if log is not None:
                log.append(("backprop", model.id, bool(is_train), dY.shape))
            dA = dY * (1 - Y**2)
            model.inc_grad("W", dA.T @ X)
            model.inc_grad("b", dA.sum(axis=0))
            return dA @ W

        return Y, backprop

    return Model("probe", forward, init=_init(False), dims={"nO": nO, "nI": nI}, params={"W": None, "b": None})


def _init(seq):
    def init(model, X=None, Y=None):
        nO, nI = model.get_dim("nO"), model.get_dim("nI")
        if not model.has_param("W"):
            model.set_param("W", np.zeros((nO, nI), "f"))
            if seq:
                model.set_param("U", np.zeros((nO, nI), "f"))
            model.set_param("b", np.zeros(nO, "f"))

    return init


def seqprobe(nO, nI, log=None):
    """tanh(W x_t + U x_{t-1} + b) over each sequence of a list, ragged or padded
    batch: sensitive to order and to sequence boundaries."""

    def unpack(X):
        if isinstance(X, list):
            return [(x, None) for x in X]
        if isinstance(X, Ragged):
            return [(x, None) for x in zoo.seqs_of(X)]
        return [(X.data[: int(n), j], j) for j, n in enumerate(X.lengths)]

    def pack(X, ys):
        if isinstance(X, list):
            return ys
        if isinstance(X, Ragged):
            w = ys[0].shape[1]
            return Ragged(np.concatenate(ys).reshape(-1, w), X.lengths)
        nS, nB = X.data.shape[:2]
        data = np.zeros((nS, nB, ys[0].shape[1]), ys[0].dtype)
        for j, y in enumerate(ys):
            data[: len(y), j] = y
        return Padded(data, X.size_at_t, X.lengths, X.indices)

    def forward(model, X, is_train):
        W, U, b = (model.get_param(n) for n in "WUb")
        if log is not None:
            log.append(("forward", model.id, bool(is_train), type(X).__name__))
        xs = [x for x, _ in unpack(X)]
        ps = [np.concatenate([np.zeros_like(x[:1]), x[:-1]]) if len(x) else x for x in xs]
        ys = [np.tanh(x @ W.T + p @ U.T + b) for x, p in zip(xs, ps)]
        Y = pack(X, ys)

        def backprop(dY):
            if log is not None:
                log.append(("backprop", model.id, bool(is_train), type(dY).__name__))
            dxs = []
            for x, p, y, (dy, _) in zip(xs, ps, ys, unpack(dY)):
                dA = dy * (1 - y**2)
                model.inc_grad("W", dA.T @ x)
                model.inc_grad("U", dA.T @ p)
                model.inc_grad("b", dA.sum(axis=0))
                dx = dA @ W
                if len(x) > 1:
                    dx[:-1] += dA[1:] @ U
                dxs.append(dx.astype(x.dtype))
            return pack(dY, dxs)

        return Y, backprop

    return Model("seqprobe", forward, init=_init(True), dims={"nO": nO, "nI": nI}, params={"W": None, "U": None, "b": None})


# -- generator -------------------------------------------------------------------
class Gen:
    def __init__(self, rng, log=None, share=0.2, native=True):
        self.rng = rng
        self.log = log
        self.share = share
        self.native = native
        self.pool = []  # (kind, nI, nO, spec) of models that may be used again
        self.uses = {}
        self.shared = 0
        self.debug = []  # events of with_debug callbacks

    def width(self):
        return int(self.rng.choice([1, 2, 3, 4]))

    def keep(self, kind, nI, nO, spec):
        self.pool.append((kind, nI, nO, spec))
        return spec, nO

    def leaf(self, kind, nI, nO=None):
        r = self.rng
        if r.rand() < self.share:
            cands = [p for p in self.pool if p[0] == kind and p[1] == nI and (nO is None or p[2] == nO)]
            if cands:
                _, _, w, spec = cands[r.randint(len(cands))]
                self.shared += 1
                return spec, w
        w = nO or self.width()
        if kind == "rows":
            import thinc.api as t

            k = str(r.choice(["probe", "probe", "Linear", "Sigmoid", "Swish"] if self.native else ["probe"]))
            m = probe(w, nI, self.log) if k == "probe" else getattr(t, k)(w, nI)
            return self.keep(kind, nI, w, Spec("rows", m, kind=k))
        if r.rand() < 0.5:
            return self.keep(kind, nI, w, Spec("seq", seqprobe(w, nI, self.log), kind="seq"))
        return self.with_array(kind, nI, 0, w)

    def with_array(self, kind, nI, d, nO=None):
        from thinc.api import with_array, with_array2d

        r = self.rng
        inner, w = self.gen("rows", nI, d, nO)
        f = with_array2d if kind == "padded" or r.rand() < 0.3 else with_array
        pad = int(r.choice([0, 0, 1, 2]))
        return Spec("with_array", f(inner.model, pad=pad), [inner]), w

    def gen(self, kind, nI, d, nO=None):
        """A composition of depth <= d taking batches of this kind and width."""
        import thinc.api as t

        r = self.rng
        if d <= 0:
            return self.leaf(kind, nI, nO)
        ops = ["chain", "chain", "concatenate", "residual", "clone", "wrap", "leaf"]
        if kind == "rows":
            ops += ["add", "add", "concatenate", "softmax", "getitem"]
        else:
            ops += ["with_array", "with_kind", "with_kind"]
        if kind == "list":
            ops += ["map_list", "via"]
        if kind == "ragged":
            ops += ["window"]
        if kind == "padded":
            ops = [o for o in ops if o != "concatenate"] + ["bidirectional", "bidirectional"]
        op = str(r.choice(ops))
        if op == "leaf":
            return self.leaf(kind, nI, nO)
        if op == "chain":
            n = int(r.choice([2, 2, 3, 3, 5]))
            kids, w = [], nI
            for i in range(n):
                k, w = self.gen(kind, w, d - 1, nO if i == n - 1 else None)
                kids.append(k)
            if n == 2 and r.rand() < 0.4:
                with t.Model.define_operators({">>": t.chain}):
                    m = kids[0].model >> kids[1].model
            else:
                m = t.chain(*[k.model for k in kids])
            return self.keep(kind, nI, w, Spec("chain", m, kids))
        if op == "concatenate":
            n = int(r.choice([2, 2, 3, 3, 5]))
            if nO is not None and nO < n:
                return self.gen(kind, nI, d - 1, nO)
            if nO is not None:
                cuts = np.sort(r.choice(np.arange(1, nO), size=n - 1, replace=False))
                ws = np.diff(np.concatenate([[0], cuts, [nO]])).tolist()
            else:
                ws = [None] * n
            kids, tot = [], 0
            for w in ws:
                k, w = self.gen(kind, nI, d - 1, w)
                kids.append(k)
                tot += w
            return self.flat("concatenate", t.concatenate, "|", kids), tot
        if op == "add":
            n = int(r.choice([2, 2, 3, 3, 5]))
            k, w = self.gen(kind, nI, d - 1, nO)
            kids = [k] + [self.gen(kind, nI, d - 1, w)[0] for _ in range(n - 1)]
            return self.flat("add", t.add, "+", kids), w
        if op == "residual":
            if nO not in (None, nI):
                return self.gen(kind, nI, d - 1, nO)
            k, w = self.gen(kind, nI, d - 1, nI)
            return self.keep(kind, nI, w, Spec("residual", t.residual(k.model), [k]))
        if op == "clone":
            if nO not in (None, nI):
                return self.gen(kind, nI, d - 1, nO)
            k, w = self.gen(kind, nI, d - 1, nI)
            n = int(r.choice([1, 2, 3]))
            if r.rand() < 0.4:
                with t.Model.define_operators({"**": t.clone}):
                    m = k.model**n
            else:
                m = t.clone(k.model, n)
            subs = [None]
            if n > 1:
                for c in m.layers[1:]:
                    subs.append({id(a): b for a, b in zip(k.model.walk(), c.walk())})
            return Spec("clone", m, [k], n=n, subs=subs), w
        if op == "wrap":
            k, w = self.gen(kind, nI, d - 1, nO)
            how = r.randint(5)
            m = k.model
            if how == 0:
                m = t.resizable(m, resize_layer=lambda layer, new: layer)
            elif how == 1 and kind in ("rows", "list"):
                m = t.with_cpu(m, ops=t.NumpyOps())
            elif how == 2:
                m = t.with_debug(m, on_forward=lambda mm, X, tr: self.debug.append(("forward", mm.id, tr)),
                                 on_backprop=lambda dY: self.debug.append(("backprop",)))
                return k, w
            elif how == 3:
                m = t.with_nvtx_range(m)
                return k, w
            else:
                return k, w
            return Spec("same", m, [k], how=how), w
        if op == "softmax":
            if nO not in (None, nI):
                return self.gen(kind, nI, d - 1, nO)
            return Spec("rows", t.softmax_activation(), kind="softmax_activation"), nI
        if op == "getitem":
            k, w = self.gen(kind, nI, d - 1, None)
            w2 = nO or self.width()
            cols = r.randint(0, w, size=w2).tolist()
            if r.rand() < 0.3:
                cols = [c - w for c in cols]
            index = (slice(None), cols)
            g = Spec("getitem", t.array_getitem(index), index=index)
            return Spec("chain", t.chain(k.model, g.model), [k, g]), w2
        if op == "with_array":
            return self.with_array(kind, nI, d - 1, nO)
        if op == "with_kind":
            inner = str(r.choice(["list", "ragged", "padded"]))
            k, w = self.gen(inner, nI, d - 1, nO)
            m = getattr(t, f"with_{inner}")(k.model)
            return self.keep(kind, nI, w, Spec(f"with_{inner}", m, [k]))
        if op == "map_list":
            k, w = self.gen("rows", nI, d - 1, nO)
            return Spec("map_list", t.map_list(k.model), [k]), w
        if op == "via":
            how = str(r.choice(["padded", "ragged"]))
            k, w = self.gen(how, nI, d - 1, nO)
            into = Spec(f"list2{how}", getattr(t, f"list2{how}")())
            back = Spec(f"{how}2list", getattr(t, f"{how}2list")())
            return Spec("chain", t.chain(into.model, k.model, back.model), [into, k, back]), w
        if op == "window":
            nW = int(r.choice([1, 2]))
            s = Spec("window", t.expand_window(nW), nW=nW)
            k, w = self.gen(kind, nI * (2 * nW + 1), d - 1, nO)
            return Spec("chain", t.chain(s.model, k.model), [s, k]), w
        if op == "bidirectional":
            if nO is not None and nO % 2:
                return self.gen(kind, nI, d - 1, nO)
            k, w = self.gen(kind, nI, d - 1, nO // 2 if nO else None)
            if r.rand() < 0.5:
                m = t.bidirectional(k.model)
                sub = {id(a): b for a, b in zip(k.model.walk(), m.layers[1].walk())}
                return Spec("bidirectional", m, [k, k], subs={1: sub}), 2 * w
            k2, _ = self.gen(kind, nI, d - 1, w)
            return Spec("bidirectional", t.bidirectional(k.model, k2.model), [k, k2]), 2 * w
        raise ValueError(op)

    def flat(self, op, fn, sym, kids):
        """add / concatenate extend a first layer of the same type."""
        import thinc.api as t

        first = kids[0]
        if len(kids) == 2 and self.rng.rand() < 0.4:
            with t.Model.define_operators({sym: fn}):
                m = kids[0].model + kids[1].model if sym == "+" else kids[0].model | kids[1].model
        else:
            m = fn(*[k.model for k in kids])
        if first.op == op:
            first.kids.extend(kids[1:])
            return Spec(op, m, first.kids)
        return Spec(op, m, kids)


# -- whole programs --------------------------------------------------------------
class Program:
    """model, spec, kind of its input, kind of its output, maker of batches."""

    def __init__(self, gen, spec, xkind, ykind, nI, extra=None):
        self.gen, self.spec, self.model = gen, spec, spec.model
        self.xkind, self.ykind, self.nI = xkind, ykind, nI
        self.min_len = 1 if spec.padded or xkind == "padded" or "seq" in spec.ops() and False else 0
        if "reduce" in spec.ops() or xkind == "padded" or spec.padded:
            self.min_len = 1

    def batch(self, rng, n=None):
        n = n or int(rng.choice([1, 2, 3, 5]))
        return make_batch(rng, self.xkind, self.nI, n, self.min_len)

    def randomise(self, rng):
        for _, node, name in zoo.params(self.model):
            v = rng.standard_normal(node.get_param(name).shape) * float(rng.choice([0.3, 0.7]))
            if node.name == "cauchy_similarity":
                v = np.abs(v) + 0.2
            node.set_param(name, v.astype("f"))

    def __repr__(self):
        return f"{self.xkind}->{self.ykind}:{self.spec!r}"


def make_batch(rng, kind, nI, n, min_len=0):
    def v(*shape):
        return rng.standard_normal(shape).astype("f")

    if kind == "rows":
        return v(n, nI)
    if kind == "pair-rows":
        return (v(n, nI), v(n, nI))
    if kind == "3d":
        return v(n, int(rng.choice([1, 2, 3])), nI)
    ls = rng.randint(min_len, 5, size=n)
    if ls.sum() == 0:
        ls[0] = 1
    seqs = [v(int(k), nI) for k in ls]
    return zoo.join(seqs, kind)


def to_ref(X, kind):
    """thinc batch -> value of the executable model."""
    if kind in ("rows", "3d"):
        return np.asarray(X).astype("f8")
    if kind.startswith("pair-") or kind.startswith("tuple-"):
        return tuple(to_ref(x, k) for x, k in zip(X, kind.split("-")[1:] * (2 if kind.startswith("pair-") else 1)))
    return [np.asarray(x).astype("f8") for x in zoo.split(X, kind)]


def flat(v):
    """All numbers of a value of the executable model."""
    if isinstance(v, np.ndarray):
        return v.ravel()
    return np.concatenate([flat(x) for x in v]) if len(v) else np.zeros(0)


def like(v, vec):
    """Inverse of flat."""
    if isinstance(v, np.ndarray):
        return vec[: v.size].reshape(v.shape), vec[v.size :]
    out = []
    for x in v:
        y, vec = like(x, vec)
        out.append(y)
    return (tuple(out) if isinstance(v, tuple) else out), vec


def program(rng, log=None, kinds=("rows", "list", "ragged", "padded"), depth=None, share=0.2, native=True, tuples=True):
    import thinc.api as t

    g = Gen(rng, log, share, native)
    depth = int(rng.choice([1, 2, 2, 3])) if depth is None else depth
    kind = str(rng.choice(list(kinds)))
    nI = g.width()
    top = str(rng.choice(["plain", "plain", "plain", "reduce", "array", "tuple", "siamese", "reshape"] if tuples else ["plain"]))
    if top == "siamese":
        k, w = g.gen("rows", nI, depth)
        sim = Spec("cauchy", t.CauchySimilarity(w))
        if k.model.has_dim("nI") is not True:
            top = "plain"
        else:
            return Program(g, Spec("siamese", t.siamese(k.model, sim.model), [k, sim]), "pair-rows", "rows", nI)
    if top == "tuple":
        n = int(rng.choice([2, 3, 5]))
        ks = [g.gen(kind, nI, depth - 1) for _ in range(n)]
        s = Spec("tuplify", t.tuplify(*[k.model for k, _ in ks]), [k for k, _ in ks])
        ws = [w for _, w in ks]
        for _ in range(int(rng.choice([0, 1, 2]))):
            i = int(rng.randint(-n, n))
            k, w = g.gen(kind, ws[i], depth - 1, None)
            ws[i] = w
            wi = Spec("with_getitem", t.with_getitem(i, k.model), [k], idx=i)
            s = Spec("chain", t.chain(s.model, wi.model), [s, wi])
        return Program(g, s, kind, "tuple" + f"-{kind}" * n, nI)
    if top == "reshape":
        k, w = g.gen("rows", nI, depth)
        if k.model.has_dim("nO") is True:
            return Program(g, Spec("with_reshape", t.with_reshape(k.model), [k]), "3d", "3d", nI)
        top = "plain"
    if top == "reduce":
        kind = "list"
        k, w = g.gen("ragged", nI, depth - 1)
        how = str(rng.choice(["sum", "mean", "max", "first", "last"]))
        l2r = Spec("list2ragged", t.list2ragged())
        red = Spec("reduce", getattr(t, f"reduce_{how}")(), how=how)
        tail, w = g.gen("rows", w, depth - 1)
        parts = [l2r, k, red, tail]
        return Program(g, Spec("chain", t.chain(*[p.model for p in parts]), parts), "list", "rows", nI)
    if top == "array":
        k, w = g.gen("list", nI, depth - 1)
        arr = Spec("list2array", t.list2array())
        tail, w = g.gen("rows", w, depth - 1)
        parts = [k, arr, tail]
        return Program(g, Spec("chain", t.chain(*[p.model for p in parts]), parts), "list", "rows", nI)
    s, w = g.gen(kind, nI, depth)
    return Program(g, s, kind, kind, nI)
