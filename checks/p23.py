"""P23: building from configuration equals building in code.

Monitor: a reference interpreter of configurations (40 lines: call the thinc.api
function a block names, arguments first, "*" positionally) builds every object a
second time, in code; the resolved object and the directly built one are run side
by side under equal seeds (structure, attributes, parameters, predictions,
gradients, updates, losses, schedule values) and compared bit for bit.  Recording
functions in a registry of their own give the call trace of resolve/fill, which
must be exactly once per block, arguments first.  Invalid configurations made from
valid ones by one edit must be refused.  Configurations go through text, bytes,
disk, interpolation and overrides on the way."""
import functools
import json
import tempfile
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional, Tuple, Union

import numpy as np

import thinc.api as t
from thinc.api import Config, ConfigValidationError, Model, registry
from thinc.types import ArgsKwargs, Padded, Ragged
from vlib import cont, snap, zoo
from vlib.core import group

# -- every registered name and the function of the public API behind it --------------
V = {"Softmax.v2": "Softmax_v2", "SparseLinear.v2": "SparseLinear_v2", "ParametricAttention.v2": "ParametricAttention_v2",
     "remap_ids.v2": "remap_ids_v2", "with_flatten.v2": "with_flatten_v2", "PyTorchWrapper.v2": "PyTorchWrapper_v2",
     "PyTorchWrapper.v3": "PyTorchWrapper_v3"}
LAYERS = {n + ".v1": n for n in """CauchySimilarity ClippedLinear Dish Dropout Embed Gelu HardSigmoid HardSwish HardSwishMobilenet HardTanh HashEmbed LSTM
LayerNorm Linear Logistic MXNetWrapper Maxout Mish MultiSoftmax ParametricAttention PyTorchLSTM PyTorchRNNWrapper PyTorchWrapper Relu ReluK Sigmoid Softmax
SparseLinear Swish add bidirectional chain clone concatenate expand_window list2array list2padded list2ragged noop padded2list premap_ids ragged2list
reduce_first reduce_last reduce_max reduce_mean reduce_sum remap_ids residual resizable siamese sigmoid_activation softmax_activation strings2arrays tuplify
uniqued with_array with_array2d with_cpu with_flatten with_getitem with_list with_padded with_ragged with_reshape""".split()}
LAYERS.update(V)
SCHEDULES = {n + ".v1": n for n in "compounding constant constant_then cyclic_triangular decaying plateau slanted_triangular warmup_linear".split()}
OPTIMIZERS = {n + ".v1": n for n in "Adam RAdam SGD".split()}
LOSSES = {"CategoricalCrossentropy.v1": "CategoricalCrossentropy", "CategoricalCrossentropy.v2": "CategoricalCrossentropy",
          "CategoricalCrossentropy.v3": "CategoricalCrossentropy", "SequenceCategoricalCrossentropy.v1": "SequenceCategoricalCrossentropy",
          "SequenceCategoricalCrossentropy.v2": "SequenceCategoricalCrossentropy", "SequenceCategoricalCrossentropy.v3": "SequenceCategoricalCrossentropy",
          "CosineDistance.v1": "CosineDistance", "L2Distance.v1": "L2Distance"}
INITS = {n + ".v1": n for n in """glorot_normal_init glorot_uniform_init he_normal_init he_uniform_init lecun_normal_init lecun_uniform_init normal_init
uniform_init zero_init""".split()}
OPS = {"NumpyOps": "NumpyOps", "CupyOps": "CupyOps", "MPSOps": "MPSOps"}
TABLE = {"layers": LAYERS, "schedules": SCHEDULES, "optimizers": OPTIMIZERS, "losses": LOSSES, "initializers": INITS, "ops": OPS}


def initialiser(fn, kw):
    return lambda ops, shape: fn(ops, shape, **kw)


def direct(c):
    """What the configuration means, by calling the API's functions."""
    if isinstance(c, dict):
        regs = [k for k in c if isinstance(k, str) and k.startswith("@")]
        vals = {k: direct(v) for k, v in c.items() if k not in regs}
        if not regs:
            return vals
        star = vals.pop("*", [])
        if "nOs" in vals:
            vals["nOs"] = tuple(vals["nOs"])  # annotated as a tuple
        pos = list(star.values()) if isinstance(star, dict) else list(star)
        reg, name = regs[0][1:], c[regs[0]]
        if reg in EXTRA:
            return EXTRA[reg][name](*pos, **vals)
        fn = api(TABLE[reg][name])
        if reg == "initializers":
            return initialiser(fn, vals)
        return fn(*pos, **vals)
    if isinstance(c, (list, tuple)):
        return [direct(v) for v in c]
    return c


def api(name):
    if hasattr(t, name):
        return getattr(t, name)
    import thinc.initializers

    return getattr(thinc.initializers, name)


EXTRA = {}
QUICK_X = 6
ASSUMPTIONS = ["floats survive text to the ten digits the JSON writer keeps", "casting of castable values (documented) is not exercised", "MXNetWrapper, the torch wrappers, premap_ids and resizable take objects a configuration cannot express: their names are resolved, not called"]


# -- ways a configuration reaches resolve() ----------------------------------------------
def plain(c):
    if isinstance(c, dict):
        return {k: plain(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return [plain(v) for v in c]
    return c


def leaves(c, path=()):
    out = []
    for k, v in c.items():
        if isinstance(v, dict) and v:
            out += leaves(v, path + (k,))
        else:
            out.append((path + (k,), v))
    return out


def put(c, path, v):
    for k in path[:-1]:
        c = c[k]
    c[path[-1]] = v


def reach(rng, cfg):
    """(how, a function sending `cfg` on a journey)"""
    how = str(rng.choice(["dict", "config", "text", "bytes", "disk", "vars", "override", "fill", "copy", "merge"]))
    base = plain(cfg)
    opts = [(p, v) for p, v in leaves(base) if not p[-1].startswith("@") and v is not None and not isinstance(v, (dict, list))
            and not (isinstance(v, str) and "$" in v)]
    if how == "merge":  # merging puts the updated positional blocks first
        opts = [(p, v) for p, v in opts if "*" not in p]
    if how in ("vars", "override", "merge") and not opts:
        how = "text"

    def go():
        if how == "dict":
            return base
        if how == "config":
            return Config(base)
        if how == "text":
            return Config().from_str(Config(base).to_str())
        if how == "bytes":
            return Config().from_bytes(Config(base).to_bytes())
        if how == "disk":
            with tempfile.TemporaryDirectory() as d:
                Config(base).to_disk(Path(d) / "c.cfg")
                return Config().from_disk(Path(d) / "c.cfg")
        if how == "fill":
            return registry.fill(Config(base))
        if how == "copy":
            return Config(base).copy()
        p, v = opts[int(rng.randint(len(opts)))]
        if how == "override":
            wrong = plain(base)
            put(wrong, p, [1, "wrong"])
            return Config().from_str(Config(wrong).to_str(), overrides={".".join(p): v})
        if how == "merge":
            wrong = plain(base)
            put(wrong, p, v if isinstance(v, str) else 1)
            upd = {}
            d = upd
            for i, k in enumerate(p[:-1]):
                d[k] = {}
                d = d[k]
                src = base
                for q in p[: i + 1]:
                    src = src[q]
                for kk, vv in src.items():
                    if kk.startswith("@"):
                        d[kk] = vv
            d[p[-1]] = v
            return Config(wrong).merge(Config(upd))
        lone = plain(base)
        put(lone, p, "${shared.value}")
        lone["shared"] = {"value": v}
        return Config().from_str(Config(lone).to_str(interpolate=False))

    return how, go


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:  # noqa: the caller compares
        return False, e


def resolve_or_violate(ctx, rng, cfg, what):
    """(the configuration resolved, the result): both without the section of variables"""
    how, go = reach(rng, cfg)
    ok, c = attempt(go)
    if ctx.check(ok, f"not-parsed:{what}", f"{how}: {cfg}: {type(c).__name__}: {str(c)[:400]}"):
        kept = {k: v for k, v in plain(c).items() if k != "shared"}
        ctx.check(how == "fill" or nearly(kept, plain(cfg)), f"config-differs:{what}", f"{how}: {cfg} -> {kept}")
        ok, r = attempt(lambda: registry.resolve(c))
        if not ok:
            ok2, r2 = attempt(lambda: direct(kept))
            if not ok2 and type(r2) is type(r):
                ctx.note("both refuse to build")
                return None, None
        if ctx.check(ok, f"not-resolved:{what}", f"{how}: {cfg}: {type(r).__name__}: {str(r)[:400]}"):
            ctx.note(f"via {how}")
            return kept, {k: v for k, v in r.items() if k != "shared"}
    return None, None


def nearly(a, b):
    """Equal up to the ten digits floats are written with."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(nearly(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(nearly(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a))
    return type(a) is type(b) and a == b


# -- generators -----------------------------------------------------------------------
DENSE = "Relu Mish Swish Gelu Dish HardSwish HardSwishMobilenet HardSigmoid HardTanh ReluK ClippedLinear Maxout".split()


def fl(rng, lo, hi):
    return float(np.round(rng.uniform(lo, hi), int(rng.choice([2, 3, 6]))))


def initcfg(rng, bias=False):
    names = ["zero_init.v1", "uniform_init.v1", "uniform_init.v1"]
    if not bias:
        names += [n for n in INITS if n not in ("normal_init.v1",)]
    n = str(rng.choice(names))
    c = {"@initializers": n}
    if n == "uniform_init.v1":
        if rng.randint(2):
            c["lo"] = fl(rng, -0.9, -0.2)
        if rng.randint(2):
            c["hi"] = fl(rng, 0.2, 0.9)
    return c


def maybe(rng, c, /, **kw):
    """Each argument given or left to its default."""
    for k, f in kw.items():
        if rng.rand() < 0.35:
            c[k] = f()
    return c


def leaf(rng, nI, nO):
    n = str(rng.choice(DENSE + ["Linear", "Sigmoid", "Softmax", "Softmax.v2", "MultiSoftmax", "Linear"]))
    c = {"@layers": n if ".v" in n else n + ".v1"}
    if n == "MultiSoftmax":
        k = int(rng.randint(1, nO + 1))
        c["nOs"] = [k, nO - k] if k < nO else [nO]
        return maybe(rng, c, nI=lambda: nI)
    c["nO"] = nO
    maybe(rng, c, nI=lambda: nI, init_W=lambda: initcfg(rng), init_b=lambda: initcfg(rng, n != "Maxout"))
    if n in DENSE:
        maybe(rng, c, dropout=lambda: rng.choice([0, 0.5, 0.2]).item(), normalize=lambda: bool(rng.randint(2)))
    if n == "ReluK":
        maybe(rng, c, k=lambda: fl(rng, 0.5, 7))
    if n == "ClippedLinear":
        maybe(rng, c, slope=lambda: fl(rng, 0.1, 2), offset=lambda: fl(rng, -1, 1), min_val=lambda: fl(rng, -2, 0), max_val=lambda: fl(rng, 0.1, 2))
    if n == "Maxout":
        maybe(rng, c, nP=lambda: int(rng.choice([1, 2, 4])))
    if n == "Softmax.v2":
        maybe(rng, c, temperature=lambda: fl(rng, 0.5, 3), normalize_outputs=lambda: True)
    return c


def star(rng, blocks):
    names = [f"b{int(k)}" for k in rng.permutation(9)[: len(blocks)]]  # their order counts, not their names
    return dict(zip(names, blocks))


def tree(rng, nI, depth=2):
    """A configuration of a layer over rows of width nI, and its output width."""
    nO = int(rng.choice([1, 2, 3, 4]))
    r = rng.randint(11) if depth else rng.randint(3)
    if r < 2:
        return leaf(rng, nI, nO), nO
    if r == 2:
        k = rng.randint(7)
        if k == 0:
            w = int(rng.choice([1, 2]))
            c = {"@layers": "expand_window.v1"}
            if w != 1 or rng.randint(2):
                c["window_size"] = w
            return c, nI * (2 * w + 1)
        if k == 1:
            return maybe(rng, {"@layers": "LayerNorm.v1"}, nI=lambda: nI), nI
        if k == 2:
            return maybe(rng, {"@layers": "Dropout.v1"}, rate=lambda: fl(rng, 0, 0.8)), nI
        return {"@layers": ["softmax_activation.v1", "sigmoid_activation.v1", "Logistic.v1", "Dropout.v1"][k - 3]}, nI
    if r <= 4:
        blocks, w = [], nI
        for _ in range(int(rng.choice([2, 2, 3]))):
            b, w = tree(rng, w, depth - 1)
            blocks.append(b)
        return {"@layers": "chain.v1", "*": star(rng, blocks)}, w
    if r <= 6:
        subs = [tree(rng, nI, depth - 1) for _ in range(int(rng.choice([1, 2, 2, 3])))]
        return {"@layers": "concatenate.v1", "*": star(rng, [b for b, _ in subs])}, sum(w for _, w in subs)
    if r == 7:
        a, w = tree(rng, nI, depth - 1)
        return {"@layers": "add.v1", "layer1": a, "layer2": leaf(rng, nI, w), "*": []}, w
    if r == 8:
        return {"@layers": "residual.v1", "layer": leaf(rng, nI, nI)}, nI
    if r == 9:
        return {"@layers": "clone.v1", "orig": leaf(rng, nI, nI), "n": int(rng.choice([1, 2, 3]))}, nI
    b, w = tree(rng, nI, depth - 1)
    return {"@layers": "with_cpu.v1", "layer": b, "ops": {"@ops": "NumpyOps", **({"use_blis": False} if rng.randint(2) else {})}}, w


def opsful(c):
    return [p for p, v in leaves(c) if p[-1] == "@ops"]


def C(*blocks):
    return {"@layers": "chain.v1", "*": {f"x{i}": b for i, b in enumerate(blocks)}}


def B(name, /, **kw):
    return {"@layers": name + ".v1" if ".v" not in name else name, **kw}


def model_cfg(rng):
    """(configuration, generator of inputs)"""
    nI = int(rng.choice([1, 2, 3, 4]))
    rows = lambda n=None: zoo.rows_x(nI, style="n")(rng, n)
    lists = lambda n=None: zoo.list_x(nI, 1, "n")(rng, n)
    ints = lambda n=None: rng.randint(0, 50, size=(int(n or rng.randint(1, 8)), 3)).astype("uint64")
    k = rng.randint(15)
    if k == 14:
        r = rng.randint(4)
        words = lambda n=None: [[f"w{int(i)}" for i in rng.randint(0, 9, size=int(rng.randint(1, 4)))] for _ in range(int(n or rng.randint(1, 5)))]
        if r == 0:
            return B("with_flatten", layer=C(B("remap_ids.v2", mapping_table={f"w{i}": i + 1 for i in range(6)}), B("Embed", nO=2, nV=9, column=0))), words
        c, _ = tree(rng, nI, 1)
        if r == 1:
            return B("with_flatten.v2", layer=B("with_array", layer=c)), lambda n=None: [lists(2), lists(1), lists(3)]
        if r == 2:
            return C(B("list2array"), c), lists
        return B("noop", **{"*": star(rng, [c, leaf(rng, 2, 3)])}), rows
    if k <= 3:
        c, _ = tree(rng, nI, int(rng.choice([1, 2, 3])))
        return c, rows
    if k == 4:
        c, _ = tree(rng, nI, 1)
        w = str(rng.choice(["with_array", "with_array2d"]))
        return maybe(rng, B(w, layer=c), pad=lambda: int(rng.choice([0, 1, 3]))), lists
    if k == 5:
        red = str(rng.choice(["reduce_first", "reduce_last", "reduce_max", "reduce_mean", "reduce_sum"]))
        c, _ = tree(rng, nI, 1)
        mid = []
        if rng.randint(2):
            mid = [maybe(rng, B("ParametricAttention"), nO=lambda: nI)]
        elif rng.randint(2):
            mid = [maybe(rng, B("ParametricAttention.v2"), nO=lambda: nI, key_transform=lambda: leaf(rng, nI, nI))]
        return C(B("list2ragged"), *mid, B(red), c), lists
    if k == 6:
        h = int(rng.choice([1, 2, 3]))
        if rng.randint(2):
            l = maybe(rng, B("LSTM", nO=2 * h), nI=lambda: nI, bi=lambda: bool(rng.randint(2)), depth=lambda: int(rng.choice([1, 2])),
                      dropout=lambda: fl(rng, 0, 0.7), init_W=lambda: initcfg(rng), init_b=lambda: initcfg(rng, True))
        else:
            l = maybe(rng, B("PyTorchLSTM", nO=2 * h, nI=nI), depth=lambda: int(rng.choice([1, 2])), bi=lambda: bool(rng.randint(2)))
        if rng.randint(3) == 0:
            l = B("bidirectional", l2r=l)
            if rng.randint(2):
                l["r2l"] = B("LSTM", nO=2, nI=nI)
        if rng.randint(2):
            return B("with_padded", layer=l), lists
        return C(B("list2padded"), l, B("padded2list")), lists
    if k == 7:
        e = maybe(rng, B("Embed", nO=int(rng.choice([2, 3])), nV=60), column=lambda: int(rng.randint(3)), dropout=lambda: fl(rng, 0, 0.6),
                  initializer=lambda: initcfg(rng))
        if "column" not in e:
            e["column"] = 0
        return e, ints
    if k == 8:
        e = maybe(rng, B("HashEmbed", nO=int(rng.choice([2, 3])), nV=int(rng.choice([5, 20])), column=int(rng.randint(3))), seed=lambda: int(rng.randint(100)),
                  dropout=lambda: fl(rng, 0, 0.6), initializer=lambda: initcfg(rng))
        if rng.randint(2):
            e = B("uniqued", layer=e, **({"column": e["column"]} if e["column"] or rng.randint(2) else {}))
            e["layer"]["column"] = e.get("column", 0)
        return e, ints
    if k == 9:
        c, w = leaf(rng, nI, 2), 2
        c.setdefault("nI", nI)
        return B("siamese", layer=c, similarity=maybe(rng, B("CauchySimilarity"), nI=lambda: w)), lambda n=None: (rows(n or 4), rows(n or 4))
    if k == 10:
        if rng.randint(2):
            c, _ = tree(rng, nI, 1)
            return B("with_list", layer=C(B("list2ragged"), B("with_array", layer=c), B("ragged2list"))), lists
        c, _ = tree(rng, nI, 1)
        return B("with_ragged", layer=B("with_array", layer=c)), lists
    if k == 11:
        table = {f"w{i}": int(i + 1) for i in rng.permutation(20)[:6]}
        words = lambda n=None: [f"w{int(i)}" for i in rng.randint(0, 20, size=int(n or rng.randint(1, 9)))]
        r = B(str(rng.choice(["remap_ids.v1", "remap_ids.v2"])), mapping_table=table)
        maybe(rng, r, default=lambda: int(rng.randint(1, 30)))
        if r["@layers"] == "remap_ids.v1":
            maybe(rng, r, dtype=lambda: str(rng.choice(["i", "int64", "uint64"])))
        return C(r, B("Embed", nO=2, nV=60, column=0)), words
    if k == 12:
        r = rng.randint(3)
        if r == 0:
            c, w = leaf(rng, nI, nI), nI
            return B("with_getitem", idx=int(rng.choice([0, 1])), layer=c), lambda n=None: (rows(n), rows(n))
        if r == 1:
            c = leaf(rng, nI, nI)
            return B("with_reshape", layer=c), lambda n=None: zoo.values(rng, (int(n or 2), 3, nI), "n")
        return B("tuplify", layer1=leaf(rng, nI, 2), layer2=leaf(rng, nI, 1), **{"*": []}), rows
    c, _ = tree(rng, nI, 1)
    if rng.randint(2):
        h = B("HashEmbed", nO=2, nV=20, column=0, seed=int(rng.randint(9)))
        texts = lambda n=None: [[f"t{int(i)}" for i in rng.randint(0, 9, size=int(rng.randint(1, 4)))] for _ in range(int(n or rng.randint(1, 5)))]
        return C(B("strings2arrays"), B("with_array", layer=h)), texts
    L_ = int(rng.choice([10, 50]))

    def sparse(n=None):
        ls = rng.randint(1, 4, size=int(n or 3)).astype("i")
        m = int(ls.sum())
        return rng.randint(0, L_, size=m).astype("uint64"), rng.randn(m).astype("f"), ls

    return B(str(rng.choice(["SparseLinear.v1", "SparseLinear.v2"])), nO=2, length=L_), sparse


# -- comparing two objects ------------------------------------------------------------
def attr(v):
    if callable(v) or isinstance(v, functools.partial) or isinstance(v, t.Ops):
        return type(v).__name__ if isinstance(v, t.Ops) else "callable"
    if isinstance(v, dict):
        return {k: attr(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [attr(x) for x in v])
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes())
    return (type(v).__name__, repr(v))


def func_name(f):
    return (getattr(f, "__module__", ""), getattr(f, "__qualname__", repr(type(f))))


def same_structure(ctx, a, b, what, skip_seed=False):
    na, nb = list(a.walk()), list(b.walk())
    d = snap.diff(snap.snapshot(a, ids=False, attrs=False), snap.snapshot(b, ids=False, attrs=False), skip=("func",))
    if d is None:
        for i, (x, y) in enumerate(zip(na, nb)):
            if func_name(x._func) != func_name(y._func):
                d = f"node {i} {x.name}: {func_name(x._func)} / {func_name(y._func)}"
            ax, ay = {k: attr(v) for k, v in x.attrs.items()}, {k: attr(v) for k, v in y.attrs.items()}
            if x.name == "hashembed" or "seed" in ax and skip_seed:
                ax.pop("seed", 0), ay.pop("seed", 0)
            if ax != ay:
                d = f"node {i} {x.name} attributes: {ax} / {ay}"
            if type(x) is not type(y) or type(x.ops) is not type(y.ops) or getattr(x.ops, "use_blis", 0) != getattr(y.ops, "use_blis", 0):
                d = f"node {i} {x.name} ops: {x.ops} / {y.ops}"
    return ctx.check(d is None, f"differs:{what}", d)


def share_seeds(cfg, a, b):
    """HashEmbed layers without a given seed take their model's id: not comparable."""
    for x, y in zip(a.walk(), b.walk()):
        if x.name == "hashembed" and "seed" in x.attrs and x.attrs["seed"] == x.id and y.attrs.get("seed") == y.id:
            y.attrs["seed"] = x.attrs["seed"]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in flat(y)]
    if isinstance(x, Ragged):
        return [np.asarray(x.data), np.asarray(x.lengths)]
    if isinstance(x, Padded):
        return [np.asarray(x.data), np.asarray(x.size_at_t), np.asarray(x.lengths), np.asarray(x.indices)]
    return [np.asarray(x)] if x is not None else []


def bits(x):
    return [(a.dtype.str, a.shape, a.tobytes()) for a in flat(x)]


def ones(y):
    if isinstance(y, tuple):
        return tuple(ones(v) for v in y)
    if isinstance(y, list):
        return [ones(v) for v in y]
    if isinstance(y, Ragged):
        return Ragged(ones(y.data), y.lengths)
    if isinstance(y, Padded):
        return Padded(ones(y.data), y.size_at_t, y.lengths, y.indices)
    y = np.asarray(y)
    return np.ascontiguousarray(((np.arange(y.size) % 5) - 1.5).reshape(y.shape).astype("f"))


def behaviour(model, X, seed):
    """Everything seen of a model: initialise, predict, train twice."""
    out = []
    t.fix_random_seed(seed)
    out.append(("init", attempt(lambda: model.initialize(X=X))))
    out.append(("predict", attempt(lambda: model.predict(X))))
    for i in range(2):
        def step():
            Y, bp = model.begin_update(X)
            dX = bp(ones(Y))
            g = [np.array(n.get_grad(p)) for n in model.walk() for p in n.grad_names]
            return Y, dX, g
        out.append((f"train{i}", attempt(step)))
    return out


def same_behaviour(ctx, a, b, X, seed, what):
    ra, rb = behaviour(a, X, seed), behaviour(b, X, seed)
    good = True
    for (k, (oka, x)), (_, (okb, y)) in zip(ra, rb):
        if k == "init" and oka and okb:
            good &= same_structure(ctx, a, b, what + " after initialize")
            continue
        if oka != okb or not oka:
            good &= ctx.check(oka == okb and type(x) is type(y), f"behaves:{what}", f"{k}: {str(x)[:200]} / {str(y)[:200]}")
            ctx.note("both refuse")
            continue
        good &= ctx.check(bits(x) == bits(y), f"behaves:{what}", f"{k}: {[v[:2] for v in bits(x)][:4]} / {[v[:2] for v in bits(y)][:4]}")
    return good


def names_in(c):
    out = set()
    if isinstance(c, dict):
        for k, v in c.items():
            if k.startswith("@"):
                out.add(v)
            else:
                out |= names_in(v)
    elif isinstance(c, list):
        for v in c:
            out |= names_in(v)
    return out


# -- groups -----------------------------------------------------------------------------
@group(220, 9000, 200)
def models(ctx, rng):
    cfg, xgen = model_cfg(rng)
    ctx.describe(cfg)
    ctx.sig(sorted(names_in(cfg)))
    seed = int(rng.randint(10**6))
    t.fix_random_seed(seed)
    root = {"model": cfg} if rng.randint(2) else {"a": {"b": {"model": cfg}}, "c": {"d": 3}}
    before = repr(root)
    kept, r = resolve_or_violate(ctx, rng, root, "model")
    if r is None:
        return
    cfg = kept["model"] if "a" not in kept else kept["a"]["b"]["model"]
    ctx.check(repr(root) == before, "config-changed", f"{before} -> {root}")
    if "a" in root:
        ctx.equal(r.get("c"), {"d": 3}, "plain-section")
        r = r["a"]["b"]
    ctx.check(list(r) == ["model"] and isinstance(r["model"], Model), "resolved-shape", f"{r}")
    a = r["model"]
    t.fix_random_seed(seed)  # wrapped torch layers draw their weights when built
    ok, b = attempt(lambda: direct(cfg))
    if not ok:
        raise RuntimeError(f"direct call failed: {cfg} {b}")
    if same_structure(ctx, a, b, "model"):
        share_seeds(cfg, a, b)
        X = xgen()
        same_behaviour(ctx, a, b, X, seed, "model")
        for n in sorted(names_in(cfg)):
            ctx.note(f"name {n}")


def sched_cfg(rng, depth=2, t0=True):
    n = str(rng.choice(list(SCHEDULES) if depth else [k for k in SCHEDULES if k not in ("constant_then.v1", "plateau.v1")]))
    c = {"@schedules": n}
    if n == "constant.v1":
        c["rate"] = fl(rng, 0.001, 1)
    elif n == "constant_then.v1":
        c.update(rate=fl(rng, 0.001, 1), steps=int(rng.randint(0, 6)), schedule=sched_cfg(rng, depth - 1))
    elif n == "decaying.v1":
        c.update(base_rate=fl(rng, 0.01, 1), decay=fl(rng, 0.001, 0.5))
        maybe(rng, c, t=lambda: int(rng.randint(0, 5)))
    elif n == "compounding.v1":
        up = rng.randint(2)
        c.update(start=1.0 if up else 9.5, stop=9.5 if up else 1.0, compound=fl(rng, 1.1, 2) if up else fl(rng, 0.5, 0.9))
        maybe(rng, c, t=lambda: int(rng.randint(0, 5)))
    elif n == "warmup_linear.v1":
        c.update(initial_rate=fl(rng, 0.01, 1), warmup_steps=int(rng.randint(1, 6)), total_steps=int(rng.randint(7, 20)))
    elif n == "slanted_triangular.v1":
        c.update(max_rate=fl(rng, 0.01, 1), num_steps=int(rng.randint(1, 30)))
        maybe(rng, c, cut_frac=lambda: fl(rng, 0.05, 0.9), ratio=lambda: int(rng.choice([2, 16, 32])), t=lambda: int(rng.randint(0, 5)))
    elif n == "cyclic_triangular.v1":
        c.update(min_lr=fl(rng, 0.001, 0.1), max_lr=fl(rng, 0.2, 1), period=int(rng.randint(1, 9)))
    else:
        c.update(max_patience=int(rng.randint(1, 4)), scale=fl(rng, 0.1, 0.9), schedule=sched_cfg(rng, depth - 1))
    return c


def attempt_call(f):
    ok, v = attempt(f)
    return ("value", repr(v)) if ok else ("error", type(v).__name__)


@group(80, 4000, 300)
def schedules(ctx, rng):
    cfg = sched_cfg(rng)
    ctx.describe(cfg)
    ctx.sig(sorted(names_in(cfg)))
    kept, r = resolve_or_violate(ctx, rng, {"s": cfg}, "schedule")
    if r is None:
        return
    cfg = kept["s"]
    a, b = r["s"], direct(cfg)
    ctx.equal(a.name, b.name, "schedule-name")
    score = 0.0
    for step in range(40):
        score += float(rng.choice([-1, 0, 0.5]))
        kw = {"last_score": (step, score)} if step else {}
        ctx.equal(attempt_call(lambda: a(step, **kw)), attempt_call(lambda: b(step, **kw)), "schedule-value", f"{cfg} step {step}")
    for n in names_in(cfg):
        ctx.note(f"name {n}")


def opt_cfg(rng):
    n = str(rng.choice(list(OPTIMIZERS)))
    c = {"@optimizers": n}
    hyper = lambda lo, hi: [lambda: fl(rng, lo, hi), lambda: sched_cfg(rng, 1), lambda: [fl(rng, lo, hi) for _ in range(int(rng.randint(1, 4)))]][rng.randint(3)]()
    if n == "SGD.v1" or rng.rand() < 0.7:
        c["learn_rate"] = hyper(0.001, 0.5)
    maybe(rng, c, L2=lambda: hyper(0, 0.1), grad_clip=lambda: hyper(0.1, 3), L2_is_weight_decay=lambda: bool(rng.randint(2)), use_averages=lambda: bool(rng.randint(2)))
    if n != "SGD.v1":
        maybe(rng, c, beta1=lambda: fl(rng, 0.5, 0.95), beta2=lambda: fl(rng, 0.8, 0.999), eps=lambda: float(10.0 ** -rng.randint(3, 9)))
    return c


@group(60, 4000, 200)
def optimizers(ctx, rng):
    cfg = opt_cfg(rng)
    ctx.describe(cfg)
    ctx.sig(sorted(names_in(cfg)), sorted(cfg))
    kept, r = resolve_or_violate(ctx, rng, {"o": cfg}, "optimizer")
    if r is None:
        return
    cfg = kept["o"]
    a, b = r["o"], direct(cfg)
    keys = [(1, "W"), (1, "b"), (2, "W")]
    shapes = {k: (int(rng.randint(1, 4)), int(rng.randint(1, 4))) for k in keys}
    ws = {k: rng.randn(*shapes[k]).astype("f") for k in keys}
    wa, wb = {k: v.copy() for k, v in ws.items()}, {k: v.copy() for k, v in ws.items()}
    score = 0.0
    for step in range(int(rng.choice([3, 7, 12]))):
        for k in keys:
            g = (rng.randn(*shapes[k]) * rng.choice([0.1, 1, 5])).astype("f")
            oka, ra = attempt(lambda: a(k, wa[k], g.copy()))
            okb, rb = attempt(lambda: b(k, wb[k], g.copy()))
            if not (oka and okb):
                ctx.check(oka == okb and type(ra) is type(rb), "optimizer-error", f"{cfg}: {ra} / {rb}")
                return
            wa[k], wb[k] = ra[0], rb[0]
            ctx.check(bits(ra) == bits(rb), "optimizer-update", f"{cfg} step {step} {k}: {np.abs(np.asarray(ra[0]) - np.asarray(rb[0])).max()}")
        score += float(rng.choice([-1, 0, 0.5]))
        for o in (a, b):
            o.last_score = (step, score)
            o.step_schedules()
    av, bv = a.averages, b.averages
    ctx.check((av is None) == (bv is None) and (av is None or {k: bits(v) for k, v in av.items()} == {k: bits(v) for k, v in bv.items()}), "optimizer-averages", f"{cfg}")
    for n in names_in(cfg):
        ctx.note(f"name {n}")


def loss_cfg(rng):
    n = str(rng.choice(list(LOSSES)))
    c = {"@losses": n}
    maybe(rng, c, normalize=lambda: bool(rng.randint(2)))
    labels = ["A", "B", "C"]
    kind = None
    if n == "CosineDistance.v1":
        maybe(rng, c, ignore_zeros=lambda: bool(rng.randint(2)))
    elif n != "L2Distance.v1":
        kind = "ints"
        if rng.rand() < 0.6:
            c["names"] = labels
            kind = "str"
            if n.split(".")[1] != "v1":
                maybe(rng, c, neg_prefix=lambda: "!")
        if not (n.startswith("Sequence") and n[-1] in "12"):
            maybe(rng, c, missing_value=lambda: "B" if kind == "str" else 1)
        if n.endswith("v3"):
            maybe(rng, c, label_smoothing=lambda: fl(rng, 0.01, 0.3))
        if kind == "ints" and rng.randint(3) == 0:
            kind = "onehot"
    return c, kind


def loss_data(rng, cfg, kind):
    n = cfg["@losses"]
    if kind is None:
        m, w = int(rng.randint(1, 6)), int(rng.randint(1, 5))
        truth = rng.randn(m, w).astype("f")
        if rng.randint(2):
            truth[rng.randint(m)] = 0
        return rng.randn(m, w).astype("f"), truth

    def one(m):
        g = rng.dirichlet([1, 1, 1], size=m).astype("f") if m else np.zeros((0, 3), "f")
        if kind == "onehot":
            return g, np.eye(3, dtype="f")[rng.randint(0, 3, size=m)]
        ids = rng.randint(0, 3, size=m)
        if kind == "ints":
            return g, [int(i) for i in ids] if rng.randint(2) else ids.astype("i")
        s = [["A", "B", "C"][i] for i in ids]
        if "neg_prefix" in cfg and n.split(".")[1] != "v1":
            s = [("!" if rng.randint(3) == 0 else "") + x for x in s]
        return g, s

    if n.startswith("Seq"):
        pairs = [one(int(rng.randint(1, 5))) for _ in range(int(rng.randint(1, 4)))]
        return [p[0] for p in pairs], [p[1] for p in pairs]
    return one(int(rng.randint(1, 6)))


@group(80, 5000, 200)
def losses(ctx, rng):
    cfg, kind = loss_cfg(rng)
    ctx.describe(cfg, kind)
    ctx.sig(sorted(cfg), kind, cfg["@losses"])
    kept, r = resolve_or_violate(ctx, rng, {"l": cfg}, "loss")
    if r is None:
        return
    cfg = kept["l"]
    a, b = r["l"], direct(cfg)
    for _ in range(4):
        g, y = loss_data(rng, cfg, kind)
        for what in ("get_loss", "get_grad", "__call__"):
            oka, ra = attempt(lambda: getattr(a, what)(g, y))
            okb, rb = attempt(lambda: getattr(b, what)(g, y))
            if not (oka and okb):
                ctx.check(oka == okb and type(ra) is type(rb), f"loss-error:{cfg['@losses']}", f"{cfg} {what} {kind}: {str(ra)[:200]} / {str(rb)[:200]}")
                ctx.note("loss refused")
                continue
            ctx.check(bits(ra) == bits(rb), f"loss-value:{cfg['@losses']}", f"{cfg} {what} {kind}: {str(ra)[:150]} / {str(rb)[:150]}")
    ctx.note(f"name {cfg['@losses']}")


@group(40, 2000, 60)
def initializers(ctx, rng):
    n = str(rng.choice(list(INITS)))
    cfg = {"@initializers": n}
    if n == "uniform_init.v1":
        lo = fl(rng, -2, 1)
        maybe(rng, cfg, lo=lambda: min(lo, 0.05), hi=lambda: fl(rng, 1, 3))
    if n == "normal_init.v1":
        maybe(rng, cfg, mean=lambda: fl(rng, 0, 2))
    shape = tuple(int(k) for k in rng.choice([1, 2, 3, 5, 8], size=rng.choice([2, 2, 3, 4]) if n not in ("zero_init.v1", "uniform_init.v1", "normal_init.v1") else rng.choice([1, 2, 3])))
    ctx.describe(cfg, shape)
    ctx.sig(cfg.get("@initializers"), len(cfg), len(shape))
    kept, r = resolve_or_violate(ctx, rng, {"i": cfg}, "initializer")
    if r is None:
        return
    cfg = kept["i"]
    s = int(rng.randint(10**6))
    ops = t.get_current_ops()
    for f in (r["i"], direct(cfg)):
        np.random.seed(s)
        v = f(ops, shape)
        if f is r["i"]:
            first = v
    ctx.check(bits(first) == bits(v), f"initializer-value:{n}", f"{cfg} {shape}")
    if n == "uniform_init.v1":
        lo, hi = cfg.get("lo", -0.1), cfg.get("hi", 0.1)
        ctx.check(first.min() >= lo - 1e-5 and first.max() <= hi + 1e-5, "initializer-bounds", f"{cfg}: {first.min()} {first.max()}")
    ctx.note(f"name {n}")


# documented defaults of every registered function's arguments
N = None
DEFAULTS = {
    **{n + ".v1": dict(nO=N, nI=N, init_W=N, init_b=N, dropout=N, normalize=False) for n in DENSE if n not in ("ReluK", "ClippedLinear", "Maxout")},
    "ReluK.v1": dict(nO=N, nI=N, init_W=N, init_b=N, dropout=N, normalize=False, k=6.0),
    "ClippedLinear.v1": dict(nO=N, nI=N, init_W=N, init_b=N, dropout=N, normalize=False, slope=1.0, offset=0.0, min_val=0.0, max_val=1.0),
    "Maxout.v1": dict(nO=N, nI=N, nP=3, init_W=N, init_b=N, dropout=N, normalize=False),
    "Linear.v1": dict(nO=N, nI=N, init_W=N, init_b=N), "Sigmoid.v1": dict(nO=N, nI=N, init_W=N, init_b=N),
    "Softmax.v1": dict(nO=N, nI=N, init_W=N, init_b=N),
    "Softmax.v2": dict(nO=N, nI=N, init_W=N, init_b=N, normalize_outputs=True, temperature=1.0),
    "Dropout.v1": dict(rate=0.0), "LayerNorm.v1": dict(nI=N), "CauchySimilarity.v1": dict(nI=N),
    "Embed.v1": dict(nO=N, nV=N, column=N, initializer=N, dropout=N),
    "HashEmbed.v1": dict(_req=dict(nO=2, nV=3), seed=N, column=N, initializer=N, dropout=N),
    "LSTM.v1": dict(nO=N, nI=N, bi=False, depth=1, dropout=0.0, init_W=N, init_b=N),
    "PyTorchLSTM.v1": dict(_req=dict(nO=2, nI=3), bi=False, depth=1, dropout=0.0),
    "MultiSoftmax.v1": dict(_req=dict(nOs=[1, 2]), nI=N), "ParametricAttention.v1": dict(nO=N), "ParametricAttention.v2": dict(key_transform=N, nO=N),
    "SparseLinear.v1": dict(nO=N, length=2**18), "SparseLinear.v2": dict(nO=N, length=2**18),
    "expand_window.v1": dict(window_size=1), "remap_ids.v1": dict(mapping_table=N, default=0, dtype="i"), "remap_ids.v2": dict(mapping_table=N, default=0, column=N),
    "uniqued.v1": dict(_req=dict(layer={"@layers": "HashEmbed.v1", "nO": 1, "nV": 2, "seed": N, "column": N, "initializer": N, "dropout": N}), column=0),
    "with_array.v1": dict(_req=dict(layer={"@layers": "Logistic.v1"}), pad=0), "with_array2d.v1": dict(_req=dict(layer={"@layers": "Logistic.v1"}), pad=0),
    "bidirectional.v1": dict(_req=dict(l2r={"@layers": "Logistic.v1"}), r2l=N),
    **{n + ".v1": {} for n in "Logistic list2array list2padded list2ragged padded2list ragged2list reduce_first reduce_last reduce_max reduce_mean reduce_sum sigmoid_activation softmax_activation strings2arrays".split()},
}
DEFAULTS_ = {
    "layers": DEFAULTS,
    "optimizers": {
        "Adam.v1": dict(learn_rate=0.001, L2=0.0, beta1=0.9, beta2=0.999, eps=1e-8, grad_clip=1.0, L2_is_weight_decay=True, use_averages=True),
        "RAdam.v1": dict(learn_rate=0.001, L2=0.0, beta1=0.9, beta2=0.999, eps=1e-8, grad_clip=1.0, L2_is_weight_decay=True, use_averages=True),
        "SGD.v1": dict(_req=dict(learn_rate=0.5), L2=0.0, grad_clip=1.0, L2_is_weight_decay=True, use_averages=True)},
    "schedules": {"decaying.v1": dict(_req=dict(base_rate=0.5, decay=0.25), t=0.0), "compounding.v1": dict(_req=dict(start=1.0, stop=2.0, compound=1.5), t=0.0),
                  "slanted_triangular.v1": dict(_req=dict(max_rate=0.5, num_steps=10), cut_frac=0.1, ratio=32, t=0.0)},
    "losses": {"CategoricalCrossentropy.v1": dict(normalize=True, names=N, missing_value=N), "CategoricalCrossentropy.v2": dict(normalize=True, names=N, missing_value=N, neg_prefix=N),
               "CategoricalCrossentropy.v3": dict(normalize=True, names=N, missing_value=N, neg_prefix=N, label_smoothing=0.0),
               "SequenceCategoricalCrossentropy.v1": dict(normalize=True, names=N), "SequenceCategoricalCrossentropy.v2": dict(normalize=True, names=N, neg_prefix=N),
               "SequenceCategoricalCrossentropy.v3": dict(normalize=True, names=N, missing_value=N, neg_prefix=N, label_smoothing=0.0),
               "CosineDistance.v1": dict(normalize=True, ignore_zeros=False), "L2Distance.v1": dict(normalize=True)},
    "initializers": {"uniform_init.v1": dict(lo=-0.1, hi=0.1), **{n: {} for n in INITS if n not in ("uniform_init.v1", "normal_init.v1")}},
    "ops": {"NumpyOps": dict(device_type="cpu", device_id=-1, use_blis=True)},
}


@group(10, 60, 100)
def fill_defaults(ctx, rng):
    """fill() writes out the documented defaults and keeps what is given."""
    for reg, fns in DEFAULTS_.items():
        for n, d in fns.items():
            d = dict(d)
            req = d.pop("_req", {})
            cfg = {"@" + reg: n, **req}
            given = {}
            if d and rng.randint(3) == 0:
                k = sorted(d)[rng.randint(len(d))]
                if isinstance(d[k], float):
                    given[k] = 0.25
                elif isinstance(d[k], bool):
                    given[k] = not d[k]
                elif isinstance(d[k], int):
                    given[k] = 1
            ok, f = attempt(lambda: registry.fill({"x": {**cfg, **given}}))
            if not ctx.check(ok, f"fill-fails:{n}", f"{cfg}: {f}"):
                continue
            want = {**cfg, **d, **given}
            got = f["x"]
            bad = {k: (got.get(k, "absent"), v) for k, v in want.items() if k not in got or got[k] != v or type(got[k]) is not type(v)}
            ctx.check(not bad, f"fill-default:{n}", f"given {given}: {bad}")
            ctx.sig(n, sorted(given))


@group(3, 10, 80)
def names(ctx, rng):
    """Every registered name resolves to a function; unknown names do not."""
    for reg, table in TABLE.items():
        r = getattr(registry, reg)
        have = set(r.get_all())
        for n in table:
            ok, f = attempt(lambda: registry.get(reg, n))
            ctx.check(ok and callable(f) and n in have and registry.has(reg, n), f"name:{n}", f"{reg}: {f}")
            ctx.check(ok and r.get(n) is f, f"name-get:{n}", f"{reg}")
        for bad in ("nothing.v1", list(table)[0][:-1], list(table)[0].lower() + "x", ""):
            if bad in have:
                continue
            ctx.raises(lambda: registry.get(reg, bad), "unknown-name", f"{reg} {bad!r}", exc=ValueError)
            ctx.check(not registry.has(reg, bad), "has-unknown", f"{reg} {bad!r}")
    ctx.raises(lambda: registry.get("nothing", "Relu.v1"), "unknown-registry", "nothing", exc=ValueError)


# -- call traces ------------------------------------------------------------------------
CALLS = []


class Obj:
    def __init__(self, *parts):
        self.parts = parts


def things():
    if "vp_things" in EXTRA:
        return EXTRA["vp_things"]
    registry.create("vp_things")
    if not hasattr(registry, "vp_things"):
        raise ValueError("registry.create: there is no registry of that name")

    def rec(name, *args, **kw):
        o = Obj(name, args, kw)
        CALLS.append(o)
        return o

    def plain_args(a: int, b: str = "bee", c: float = 0.5):
        return rec("plain_args", a=a, b=b, c=c)

    def kwonly(*, x: Any, y: Optional[Obj] = None, flag: bool = True) -> Obj:
        return rec("kwonly", x=x, y=y, flag=flag)

    def many(*items: Obj, tail: Any = None) -> Obj:
        return rec("many", *items, tail=tail)

    def lists(vals: List[int], opts: Dict[str, Any] = {"k": 1}):
        return rec("lists", vals=vals, opts=opts)

    def pair(left: Any, right: Any) -> Tuple[Any, Any]:
        return (rec("pair", left=left, right=right), 7)

    def model_in(layer: Model, n: int = 2) -> Model:
        o = rec("model_in", layer=layer, n=n)
        m = t.noop(layer)
        m.attrs["o"] = o
        return m

    def bad_return(a: int = 1) -> Model:
        return rec("bad_return", a=a)

    out = {}
    for f in (plain_args, kwonly, many, lists, pair, model_in, bad_return):
        name = f.__name__ + ".v1"
        g = registry.vp_things(name)(f) if f is not kwonly else registry.vp_things.register(name, func=f)
        assert g is f
        out[name] = f
    EXTRA["vp_things"] = out
    return out


def thing_cfg(rng, depth=3, obj=False):
    n = str(rng.choice(["plain_args.v1", "kwonly.v1", "many.v1", "lists.v1", "pair.v1"] if depth and not obj else ["many.v1", "kwonly.v1", "plain_args.v1"] if depth else ["plain_args.v1", "lists.v1"] if not obj else ["plain_args.v1"]))
    c = {"@vp_things": n}
    anyv = lambda: thing_cfg(rng, depth - 1) if depth and rng.randint(2) else const(rng)
    if n == "plain_args.v1":
        c["a"] = int(rng.randint(100))
        maybe(rng, c, b=lambda: str(rng.choice(["x", "yy", "z z", "10", "true"])), c=lambda: fl(rng, -2, 2))
    elif n == "kwonly.v1":
        c["x"] = anyv()
        maybe(rng, c, y=lambda: thing_cfg(rng, depth - 1, True) if depth else None, flag=lambda: bool(rng.randint(2)))
    elif n == "many.v1":
        c["*"] = {f"n{int(i)}": thing_cfg(rng, depth - 1, True) for i in rng.permutation(9)[: rng.randint(4)]}
        if not c["*"]:
            c["*"] = []
        maybe(rng, c, tail=anyv)
    elif n == "lists.v1":
        c["vals"] = [int(i) for i in rng.randint(0, 9, size=rng.randint(4))]
        maybe(rng, c, opts=lambda: {"q": const(rng), "r": {"s": const(rng)}})
    else:
        c.update(left=anyv(), right=anyv())
    return c


def const(rng):
    return [lambda: int(rng.randint(-5, 5)), lambda: fl(rng, -2, 2), lambda: "text", lambda: True, lambda: None, lambda: [1, 2.5, "z"],
            lambda: {"k": 1, "m": {"n": "o"}}, lambda: "", lambda: [{"a": 1}], lambda: []][rng.randint(10)]()


def count_blocks(c):
    if isinstance(c, dict):
        return sum(count_blocks(v) for v in c.values()) + any(k.startswith("@") for k in c)
    if isinstance(c, list):
        return sum(count_blocks(v) for v in c)
    return 0


def same_obj(a, b, seen):
    """The object graph resolve() made against the one direct calls made."""
    if isinstance(a, Obj) and isinstance(b, Obj):
        seen.append(id(a))
        return a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]) and all(same_obj(x, y, seen) for x, y in zip(a.parts[1], b.parts[1])) \
            and set(a.parts[2]) == set(b.parts[2]) and all(same_obj(a.parts[2][k], b.parts[2][k], seen) for k in b.parts[2])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_obj(a[k], b[k], seen) for k in b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_obj(x, y, seen) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


@group(150, 6000, 300)
def call_trace(ctx, rng):
    """resolve() calls each block's function once, arguments first; fill() none."""
    things()
    cfg = {f"s{i}": thing_cfg(rng) for i in range(int(rng.choice([1, 2, 3])))}
    if rng.randint(2):
        cfg["plain"] = {"v": const(rng), "w": {"x": const(rng)}}
    ctx.describe(cfg)
    n = count_blocks(cfg)
    ctx.sig(n, sorted(names_in(cfg)))
    CALLS.clear()
    before = repr(cfg)
    ok, filled = attempt(lambda: registry.fill(Config(cfg)))
    if not ctx.check(ok, "fill-raises", f"{cfg}: {filled}"):
        return
    ctx.check(not CALLS, "fill-calls", f"{cfg}: {[c.parts[0] for c in CALLS]}")
    kept, r = resolve_or_violate(ctx, rng, cfg, "trace")
    if r is None:
        return
    calls = list(CALLS)
    ctx.check(repr(cfg) == before, "config-changed", f"{before} -> {cfg}")
    ctx.check(len(calls) == n, "calls-once", f"{n} blocks, {len(calls)} calls: {cfg}")
    CALLS.clear()
    want = direct(kept)
    seen = []
    ctx.check(same_obj(r, want, seen), "trace-arguments", f"{cfg}")
    ctx.check(len(set(seen)) == len(seen) == n, "trace-objects", f"{n} {len(seen)}")
    made = {id(c): i for i, c in enumerate(calls)}

    def inner(v):
        if isinstance(v, Obj):
            return [v]
        if isinstance(v, dict):
            return [o for x in v.values() for o in inner(x)]
        if isinstance(v, (list, tuple)):
            return [o for x in v for o in inner(x)]
        return []

    for c in calls:
        for o in inner(list(c.parts[1]) + list(c.parts[2].values())):
            ctx.check(made.get(id(o), 10**9) < made[id(c)], "arguments-first", f"{cfg}")
    # the filled configuration means the same
    ok, r2 = attempt(lambda: registry.resolve(filled))
    ctx.check(ok and same_obj(r2, direct(cfg), []), "filled-means-same", f"{cfg}: {filled}")


@group(3, 20, 8)
def custom_registries(ctx, rng):
    """registry.create: new registries work, names cannot be taken twice."""
    things()
    for taken in ("layers", "optimizers", "vp_things", "schedules", "create"):
        old = getattr(registry, taken)
        ctx.raises(lambda: registry.create(taken), "registry-taken", taken, exc=ValueError)
        ctx.check(getattr(registry, taken) is old or taken == "create", "registry-replaced", taken)
    name = f"vp_r{ctx.index}_{int(rng.randint(10**6))}"
    ep = bool(rng.randint(2))
    registry.create(name, entry_points=ep)
    if not ctx.check(hasattr(registry, name), "registry-created", name):
        return
    r = getattr(registry, name)
    ctx.equal(tuple(r.namespace), ("thinc", name), "registry-namespace", name)
    ctx.equal(bool(r.entry_points), ep, "registry-entry-points", name)
    ctx.check(not r.get_all(), "registry-empty", name)
    fn = lambda a=3: ("made", a)
    r("f.v1")(fn)
    ctx.check(registry.get(name, "f.v1") is fn, "registry-get", name)
    ctx.equal(registry.resolve({"x": {"@" + name: "f.v1", "a": 5}})["x"], ("made", 5), "registry-resolve", name)
    ctx.raises(lambda: registry.get(name, "g.v1"), "registry-unknown", name, exc=ValueError)
    for reg in TABLE:
        ctx.check(not registry.has(reg, "f.v1"), "registry-leak", f"{name} -> {reg}")


# -- invalid configurations --------------------------------------------------------------
TYPES = {
    "nO": "int", "nI": "int", "nP": "int", "nV": "int", "dropout": "float", "normalize": "bool", "k": "float", "slope": "float", "offset": "float", "min_val": "float",
    "max_val": "float", "init_W": "fn", "init_b": "fn", "initializer": "fn", "rate": "float", "window_size": "int", "temperature": "float", "normalize_outputs": "bool",
    "nOs": "ints", "column": "int", "seed": "int", "bi": "bool", "depth": "int", "layer": "model", "orig": "model", "n": "int", "layer1": "model", "layer2": "model",
    "l2r": "model", "r2l": "model", "similarity": "model", "key_transform": "model", "idx": "int", "pad": "int", "length": "int", "ops": "ops",
    "learn_rate": "hyper", "L2": "hyper", "beta1": "hyper", "beta2": "hyper", "eps": "hyper", "grad_clip": "hyper", "L2_is_weight_decay": "bool", "use_averages": "bool",
    "base_rate": "float", "decay": "float", "t": "float", "start": "float", "stop": "float", "compound": "float", "initial_rate": "float", "warmup_steps": "int", "total_steps": "int",
    "max_rate": "float", "num_steps": "int", "cut_frac": "float", "ratio": "int", "min_lr": "float", "max_lr": "float", "period": "int", "steps": "int", "schedule": "schedule",
    "max_patience": "int", "scale": "float", "names": "names", "missing_value": "strint", "neg_prefix": "str", "label_smoothing": "float", "ignore_zeros": "bool",
    "lo": "float", "hi": "float", "mean": "float", "use_blis": "bool", "default": "int", "mapping_table": "map",
}
UNTYPED = {("constant.v1", "rate"), ("constant_then.v1", "rate")}
WRONG = {
    "int": ["many", [1], {"a": 1}, {"@layers": "Logistic.v1"}], "float": ["x", [0.5], {"a": 1}, {"@layers": "Logistic.v1"}], "bool": ["perhaps", 7, [True], {"a": 1}],
    "fn": [3, "glorot", [1], {"a": 1}], "ints": [["x"], 3, "ab"], "model": [3, "relu", {"a": 1}, {"@optimizers": "Adam.v1"}, {"@schedules": "constant.v1", "rate": 0.5}, None],
    "ops": [3, "numpy", {"@layers": "Logistic.v1"}], "hyper": ["fast", {"a": 1}, {"@layers": "Logistic.v1"}], "schedule": [0.5, "constant", {"@layers": "Logistic.v1"}],
    "names": [5, {"@layers": "Logistic.v1"}], "strint": [1.5, ["x"], {"a": 1}], "str": [["x"], {"a": 1}], "map": [3, "ab", {"a": "x"}],
}
OPTIONAL_MODEL = {"r2l", "key_transform"}
REQUIRED = {
    "HashEmbed.v1": ["nO", "nV"], "MultiSoftmax.v1": ["nOs"], "PyTorchLSTM.v1": ["nO", "nI"], "clone.v1": ["orig", "n"], "residual.v1": ["layer"], "uniqued.v1": ["layer"],
    "siamese.v1": ["layer", "similarity"], "with_array.v1": ["layer"], "with_array2d.v1": ["layer"], "with_cpu.v1": ["layer", "ops"], "with_getitem.v1": ["idx", "layer"],
    "with_list.v1": ["layer"], "with_padded.v1": ["layer"], "with_ragged.v1": ["layer"], "with_reshape.v1": ["layer"], "add.v1": ["layer1", "layer2"],
    "tuplify.v1": ["layer1", "layer2"], "bidirectional.v1": ["l2r"], "SGD.v1": ["learn_rate"], "constant.v1": ["rate"], "constant_then.v1": ["rate", "steps", "schedule"],
    "decaying.v1": ["base_rate", "decay"], "compounding.v1": ["start", "stop", "compound"], "warmup_linear.v1": ["initial_rate", "warmup_steps", "total_steps"],
    "slanted_triangular.v1": ["max_rate", "num_steps"], "cyclic_triangular.v1": ["min_lr", "max_lr", "period"], "plateau.v1": ["max_patience", "scale", "schedule"],
}


def blocks(c, path=()):
    out = []
    if isinstance(c, dict):
        if any(k.startswith("@") for k in c):
            out.append((path, c))
        for k, v in c.items():
            out += blocks(v, path + (k,))
    return out


ALL_ARGS = {}
for _reg, _fns in DEFAULTS_.items():
    for _n, _d in _fns.items():
        ALL_ARGS[_n] = [k for k in _d if k != "_req"] + list(_d.get("_req", {}))


@group(300, 12000, 200)
def invalid(ctx, rng):
    """One edit makes a valid configuration invalid: it is refused."""
    k = rng.randint(5)
    cfg = [lambda: model_cfg(rng)[0], lambda: sched_cfg(rng), lambda: opt_cfg(rng), lambda: loss_cfg(rng)[0], lambda: tree(rng, 3, 2)[0]][k]()
    root = {"x": plain(cfg)}
    bs = blocks(root)
    path, b = bs[rng.randint(len(bs))]
    reg = [q for q in b if q.startswith("@")][0]
    name = b[reg]
    edit = str(rng.choice(["unknown name", "unknown registry", "unknown argument", "missing", "type", "type", "type", "two names"]))
    exc = ConfigValidationError
    if edit == "unknown name":
        b[reg] = str(rng.choice([name + "0", name[:-1] + "9", "nothing.v1", name.split(".")[0]]))
        if b[reg] in TABLE[reg[1:]]:
            return
        exc = ValueError
    elif edit == "unknown registry":
        b["@layerz"] = b.pop(reg)
        exc = ValueError
    elif edit == "unknown argument":
        b[str(rng.choice(["nX", "n0", "extra", "Dropout", "layer9"]))] = 1
    elif edit == "two names":
        b["@optimizers" if reg != "@optimizers" else "@layers"] = "Adam.v1" if reg != "@optimizers" else "Relu.v1"
    elif edit == "missing":
        req = [q for q in REQUIRED.get(name, []) if q in b]
        if not req:
            ctx.note("nothing to drop")
            return
        del b[req[rng.randint(len(req))]]
    else:
        args = sorted(set(list(b) + ALL_ARGS.get(name, [])))
        args = [a for a in args if a in TYPES and (name, a) not in UNTYPED]
        if not args:
            if "*" in b and name in ("chain.v1", "concatenate.v1") and b["*"]:
                kk = sorted(b["*"])[0]
                b["*"][kk] = [3, "x", {"@optimizers": "Adam.v1"}][rng.randint(3)]
                args = None
            else:
                ctx.note("nothing to spoil")
                return
        if args:
            a = args[rng.randint(len(args))]
            ty = TYPES[a]
            v = WRONG[ty][rng.randint(len(WRONG[ty]))]
            if v is None and a in OPTIONAL_MODEL:
                return
            b[a] = plain(v)
            edit = f"{a}={v}"
            if ty == "hyper":
                exc = ValueError  # the optimizer itself refuses what is no rate, list or schedule
    ctx.describe(cfg, edit, path)
    ctx.sig(name, edit)
    ok, r = attempt(lambda: registry.resolve(plain(root)))
    ctx.check(not ok and isinstance(r, exc), f"accepted:{name}", f"{edit} at {'.'.join(path)} of {cfg}: {'accepted' if ok else type(r).__name__ + ': ' + str(r)[:200]}")
    ctx.note("refused " + edit.split("=")[0])
    if exc is ConfigValidationError and ok is False and "type" != edit and edit not in ("unknown argument",) and rng.randint(4) == 0:
        # the same through text, and on filling
        ok, r = attempt(lambda: registry.resolve(Config().from_str(Config(plain(root)).to_str())))
        ctx.check(not ok and isinstance(r, exc), f"accepted-text:{name}", f"{edit} at {'.'.join(path)} of {cfg}")


@group(2, 6, 2)
def wide_combinators(ctx, rng):
    """add and tuplify of more than two layers (their first two are named arguments)."""
    for name, fn in (("add.v1", t.add), ("tuplify.v1", t.tuplify)):
        r = {"@layers": "Linear.v1", "nO": 2, "nI": 2}
        want = fn(*[t.Linear(2, 2) for _ in range(4)])
        ok = False
        for c in ({"layer1": r, "layer2": r, "*": {"a": r, "b": r}}, {"*": {"a": r, "b": r, "c": r, "d": r}}):
            done, m = attempt(lambda: registry.resolve({"x": {"@layers": name, **plain(c)}})["x"])
            ok = ok or done and len(m.layers) == len(want.layers)
        ctx.check(ok, "add-tuplify-more-than-two-layers", name)


# -- configurations as data ---------------------------------------------------------------
def data(rng, depth=2):
    out = {}
    for i in range(int(rng.randint(1, 4))):
        k = str(rng.choice(["alpha", "beta_x", "gamma1", "delta", "eps", "Zeta", "eta.v1"[:3], "theta"]))
        out[k] = data(rng, depth - 1) if depth and rng.rand() < 0.4 else value(rng)
    return out


def value(rng):
    k = rng.randint(9)
    if k == 0:
        return int(rng.randint(-1000, 1000)) * int(rng.choice([1, 10**6, 10**12]))
    if k == 1:
        return float(np.round(rng.randn() * 10.0 ** rng.randint(0, 5), 3))
    if k == 2:
        return str(rng.choice(["", "a", "true", "null", "1.5", "10", "x y", "quote\"d", "new\nline", "ünïcode", "[x]", "a=b", "# no", "; no", "%", "50%", "tab\t", "\\", "None", "inf"]))
    if k == 3:
        return bool(rng.randint(2))
    if k == 4:
        return None
    if k == 5:
        return [value_flat(rng) for _ in range(rng.randint(4))]
    if k == 6:
        return float(rng.choice([0.0, 1.0, 1e-8, 0.1, -2.5, 0.001]))
    if k == 7:
        return [[1, 2], ["a"], {"b": None, "c": [True]}][: rng.randint(4)]
    return 0


def value_flat(rng):
    return [lambda: int(rng.randint(10)), lambda: float(np.round(rng.randn(), 3)), lambda: "s t", lambda: None, lambda: False][rng.randint(5)]()


def jsonlike(v):
    try:
        json.loads(v)
        return True
    except ValueError:
        return False


def same_data(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_data(x, y) for x, y in zip(a, b))
    return nearly(a, b)


@group(120, 4000, 300)
def round_trips(ctx, rng):
    """Text, bytes, disk, copy; interpolation and overrides replace one value."""
    c = {f"sec{i}": data(rng) for i in range(int(rng.randint(1, 4)))}
    ctx.describe(c)
    cfg = Config(c)
    text = cfg.to_str()
    with tempfile.TemporaryDirectory() as d:
        cfg.to_disk(Path(d) / "a.cfg")
        forms = {"text": Config().from_str(text), "bytes": Config().from_bytes(cfg.to_bytes()), "disk": Config().from_disk(Path(d) / "a.cfg"), "copy": cfg.copy(),
                 "again": Config().from_str(Config().from_str(text).to_str()), "deferred": Config().from_str(text, interpolate=False).interpolate()}
    for how, f in forms.items():
        ctx.check(same_data(plain(f), c), f"round-trip:{how}", f"{c} -> {plain(f)}")
    lv = [(p, v) for p, v in leaves(c) if not isinstance(v, dict)]
    if not lv:
        return
    p, v = lv[rng.randint(len(lv))]
    new = value(rng)
    want = plain(c)
    put(want, p, new)
    got = Config().from_str(text, overrides={".".join(p): new})
    ctx.check(same_data(plain(got), want), "override", f"{'.'.join(p)}: {new!r}: {plain(got)} / {want}")
    ctx.sig(type(v).__name__, type(new).__name__, len(p))
    # one value refers to another section's
    q, w = lv[rng.randint(len(lv))]
    if q != p and not (isinstance(w, str)) and len(q) > 1:
        ref = plain(c)
        put(ref, p, "${" + ".".join(q) + "}")
        raw = Config().from_str(Config(ref).to_str(interpolate=False), interpolate=False)
        texts = [v for _, v in leaves(ref) if isinstance(v, str) and not v.startswith("$")]
        if not any(jsonlike(v) for v in texts):
            ctx.check(same_data(plain(raw), ref), "variables-kept", f"{ref} -> {plain(raw)}")
        got = Config().from_str(Config(ref).to_str(interpolate=False))
        want = plain(c)
        put(want, p, w)
        ctx.check(same_data(plain(got), want), "interpolation", f"{ref}: {plain(got)} / {want}")
        ctx.note("interpolated")
