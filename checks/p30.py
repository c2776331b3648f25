"""P30: data validation accepts exactly well-typed samples and changes nothing.

Monitor: an observer with its own matcher for the documented container types
("Floats2d", "List2d", "Ragged", unions, tuples, ...) decides for every sample
whether it fits; the real initialize() must agree (DataValidationError or
success), must leave parameters, dimensions and the sample alone when it
refuses, and must give bit-identically the model that initialising without
validation gives when it accepts.  The conversion and type helpers are called
with values of every kind, rank, dtype and nesting next to independent
definitions of what they return."""
import copy
from typing import Any, Callable, List, Optional, Sequence, Tuple, TypeVar, Union

import numpy as np

import thinc.api as t
import thinc.types as tt
from thinc import util
from thinc.api import Model
from thinc.types import ArgsKwargs, Padded, Ragged
from vlib import cont, snap, zoo
from vlib.core import group

from . import p21

QUICK_X = 10

INT = ("int32", "int64", "uint32", "uint64")


# -- the observer's own notion of the documented types --------------------------------
def A(ndim=None, kind=None):
    return ("A", ndim, kind)


def L(item):
    return ("L", item)


def T(*items):
    return ("T", items)


def U(*opts):
    return ("U", opts)


FX, IX = U(*[A(n, "f") for n in (1, 2, 3, 4)]), U(*[A(n, "i") for n in (1, 2, 3, 4)])
AX = U(FX, IX)
F1, F2, F3, I1, I2 = A(1, "f"), A(2, "f"), A(3, "f"), A(1, "i"), A(2, "i")
A1, A2, A3 = U(F1, I1), U(F2, I2), U(F3, A(3, "i"))


def LN(n):
    return U(L(A(n, "f")), L(A(n, "i")))


LX = U(*[LN(n) for n in (1, 2, 3, 4)])
RG, PD, ANY = ("R",), ("P",), ("any",)
STR = ("str",)


def fits(spec, v):
    """True / False / None (some types are coerced: not the property's business)."""
    k = spec[0]
    if k == "any":
        return True
    if k == "A":
        if not isinstance(v, np.ndarray):
            return False
        if spec[1] is not None and v.ndim != spec[1]:
            return False
        if v.dtype.byteorder == ">":
            return None
        if spec[2] == "f":
            return v.dtype == np.float32
        if spec[2] == "i":
            return v.dtype.name in INT
        return True
    if k in ("L", "seq"):
        if isinstance(v, (list, tuple)):
            # lists are judged by their first items: how many is not promised
            r = all_of([fits(spec[1], x) for x in (v[:5] if isinstance(v, list) else v)])
            if isinstance(v, tuple) and k == "L" and r:
                return None
            if r and not all_of([fits(spec[1], x) for x in v[5:]]):
                return None
            return r
        return None if isinstance(v, (str, dict, set, range)) else False
    if k == "T":
        if isinstance(v, (list, tuple)):
            if isinstance(v, list):
                v2 = v[:5]
                r = False if len(v2) != len(spec[1]) else all_of([fits(s, x) for s, x in zip(spec[1], v2)])
                return None if r else r
            return False if len(v) != len(spec[1]) else all_of([fits(s, x) for s, x in zip(spec[1], v)])
        return None if isinstance(v, (str, dict, set, range)) else False
    if k == "TV":
        return True if isinstance(v, tuple) else None if isinstance(v, (list, str, dict, set, range)) else False
    if k == "U":
        rs = [fits(s, v) for s in spec[1]]
        return True if True in rs else None if None in rs else False
    if k == "R":
        if isinstance(v, Ragged):
            return all_of([fits(A2, v.data), fits(I1, v.lengths)])
        return False
    if k == "P":
        if isinstance(v, Padded):
            return all_of([fits(A3, v.data), fits(I1, v.size_at_t), fits(I1, v.lengths), fits(I1, v.indices)])
        return False
    if k == "AK":
        return True if isinstance(v, ArgsKwargs) else None if isinstance(v, (tuple, list, dict)) else False
    if k == "str":
        return True if isinstance(v, str) else None if isinstance(v, (int, float, bytes, np.generic)) else False
    if k == "hashable":
        try:
            hash(v)
            return True
        except TypeError:
            return None if isinstance(v, tuple) else False
    if k == "none":
        return v is None
    raise ValueError(spec)


def all_of(rs):
    return False if False in rs else None if None in rs else True


# -- values of every kind -----------------------------------------------------------
DT = ["f4", "f4", "f4", "i4", "i8", "u4", "u8", "f8", "f2", "i2", "?", "u1", "c8", "i1"]


def array(rng, nd=None, dt=None):
    nd = int(rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])) if nd is None else nd
    sh = tuple(int(k) for k in rng.choice([1, 2, 3] + ([0] if rng.rand() < 0.2 else []), size=nd))
    a = np.zeros(sh, dt or str(rng.choice(DT)))
    a[...] = rng.randint(0, 3, size=sh)
    r = rng.rand()
    if r < 0.1 and nd > 1:
        a = np.asfortranarray(a)
    elif r < 0.15 and nd:
        a = a[::-1]
    elif r < 0.2:
        a = a.copy()
        a.setflags(write=False)
    return a


def good_dt(rng):
    return str(rng.choice(["f4", "f4", "f4", "i4", "i8", "u8", "u4"]))


def ragged(rng):
    ls = rng.randint(0, 3, size=int(rng.choice([1, 2]))).astype(str(rng.choice(["i4", "i4", "i8", "f4", "i2"])) if rng.rand() < 0.3 else "i4")
    dt = good_dt(rng) if rng.rand() < 0.7 else str(rng.choice(DT))
    sh = (int(ls.sum()), 2) if rng.rand() < 0.7 else (int(ls.sum()), 2, 2) if rng.rand() < 0.5 else (int(ls.sum()),)
    return Ragged(np.zeros(sh, dt), ls)


def padded(rng):
    dt = good_dt(rng) if rng.rand() < 0.7 else str(rng.choice(DT))
    nd = 3 if rng.rand() < 0.7 else int(rng.choice([2, 4]))
    sub = [np.array([2, 1], "i4"), np.array([2, 1], "i4"), np.array([0, 1], "i4")]
    if rng.rand() < 0.3:
        i = rng.randint(3)
        sub[i] = sub[i].astype(str(rng.choice(["f4", "i2", "f8", "i8"]))) if rng.rand() < 0.6 else sub[i].reshape(2, 1)
    return Padded(np.zeros((2, 2) + (3,) * (nd - 2), dt), *sub)


def value(rng, depth=2):
    k = str(rng.choice(["array", "array", "array", "list", "list", "list", "ragged", "ragged", "padded", "padded", "tuple", "odd", "mixed", "nested"]))
    if k == "array":
        return array(rng, None, good_dt(rng) if rng.rand() < 0.6 else None)
    if k in ("list", "tuple"):
        nd, dt = int(rng.choice([1, 2, 2, 3])), good_dt(rng) if rng.rand() < 0.7 else str(rng.choice(DT))
        out = [array(rng, nd, dt) for _ in range(int(rng.choice([0, 1, 2, 3, 4, 7])))]
        return out if k == "list" else tuple(out)
    if k == "mixed":
        out = [array(rng, 2, "f4") for _ in range(int(rng.choice([1, 2, 4, 8])))]
        out[rng.randint(len(out))] = array(rng) if rng.rand() < 0.7 else odd(rng)
        return out if rng.rand() < 0.6 else tuple(out)
    if k == "ragged":
        return ragged(rng)
    if k == "padded":
        return padded(rng)
    if k == "nested":
        return [value(rng, depth - 1) for _ in range(int(rng.choice([0, 1, 2])))] if depth else []
    return odd(rng)


def odd(rng):
    import torch

    return [lambda: 3, lambda: 2.5, lambda: object(), lambda: torch.zeros(2, 3), lambda: np.float32(3),
            lambda: ArgsKwargs(args=(), kwargs={}), lambda: b"xy", lambda: True, lambda: lambda: 0, lambda: np.arange(3).tolist,
            lambda: "text", lambda: {"a": 1}, lambda: ["a", "b"], lambda: [["a"], ["b", "c"]]][rng.randint(14)]()


def kind_of(v):
    if isinstance(v, np.ndarray):
        return f"{v.dtype.str}{v.ndim}d"
    if isinstance(v, (list, tuple)):
        return f"{type(v).__name__}[{','.join(sorted({kind_of(x) for x in v[:5]}))}]"
    if isinstance(v, Ragged):
        return f"Ragged({kind_of(v.data)},{kind_of(v.lengths)})"
    if isinstance(v, Padded):
        return "Padded(" + ",".join(kind_of(x) for x in (v.data, v.size_at_t, v.lengths, v.indices)) + ")"
    return type(v).__name__


def digest(v):
    """Content and identity of everything inside a sample."""
    if isinstance(v, np.ndarray):
        return (id(v), v.dtype.str, v.shape, v.strides, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (id(v), type(v), tuple(digest(x) for x in v))
    if isinstance(v, (Ragged, Padded)):
        fields = ("data", "lengths") if isinstance(v, Ragged) else ("data", "size_at_t", "lengths", "indices")
        extra = (tuple(v.data_shape),) if isinstance(v, Ragged) else ()  # starts_ends is a cache
        return (id(v), type(v), tuple(digest(getattr(v, k)) for k in fields), extra)
    if isinstance(v, dict):
        return (id(v), tuple((k, digest(x)) for k, x in v.items()))
    return (id(v), type(v))


# -- layers and the samples they are documented to take --------------------------------
ROW = {n: (F2, F2) for n in ["Linear", "Relu", "Maxout", "Mish", "Swish", "Gelu", "Dish", "HardSwish", "HardSwishMobilenet", "HardSigmoid",
                             "HardTanh", "ReluK", "ClippedLinear", "Sigmoid", "Softmax", "Softmax_v2", "Logistic", "LayerNorm"]}
WA = U(PD, RG, LX, AX)
WL = U(PD, RG, LN(2))
ARRS = U(AX, L(AX), RG, PD)
RES = U(FX, *[L(A(n, "f")) for n in (1, 2, 3, 4)], RG, PD)
LIST = ("L", ANY)


def layers():
    out = {n: (lambda rng, n=n: getattr(t, n)(), x, y) for n, (x, y) in ROW.items()}
    nest = ("L", ("L", ANY))
    more = {
        "CauchySimilarity": (lambda r: t.CauchySimilarity(), T(F2, F2), F1),
        "Dropout": (lambda r: t.Dropout(0.2), ARRS, ARRS),
        "Embed": (lambda r: t.Embed(2, 3), I1, F2),
        "HashEmbed": (lambda r: t.HashEmbed(2, 3), I1, F2),
        "MultiSoftmax": (lambda r: t.MultiSoftmax((1, 2)), F2, F2),
        "sigmoid_activation": (lambda r: t.sigmoid_activation(), FX, FX),
        "softmax_activation": (lambda r: t.softmax_activation(), F2, F2),
        "ParametricAttention": (lambda r: t.ParametricAttention(), RG, RG),
        "ParametricAttention_v2": (lambda r: t.ParametricAttention_v2(), RG, RG),
        "SparseLinear": (lambda r: t.SparseLinear(2), T(AX, AX, AX), AX),
        "SparseLinear_v2": (lambda r: t.SparseLinear_v2(2), T(AX, AX, AX), AX),
        "expand_window": (lambda r: t.expand_window(1), U(F2, RG), U(F2, RG)),
        "list2array": (lambda r: t.list2array(), L(A2), A2),
        "list2ragged": (lambda r: t.list2ragged(), LX, RG),
        "list2padded": (lambda r: t.list2padded(), LN(2), PD),
        "ragged2list": (lambda r: t.ragged2list(), RG, LX),
        "padded2list": (lambda r: t.padded2list(), PD, LN(2)),
        "strings2arrays": (lambda r: t.strings2arrays(), ("seq", ("seq", STR)), L(I2)),
        "with_array": (lambda r: t.with_array(t.Linear()), WA, WA),
        "with_array2d": (lambda r: t.with_array2d(t.Linear()), U(PD, RG, LN(2), A2), U(PD, RG, LN(2), A2)),
        "with_list": (lambda r: t.with_list(t.map_list(t.Linear())), WL, WL),
        "with_padded": (lambda r: t.with_padded(t.LSTM(2, 2)), U(PD, RG, LN(2), F3, T(F3, I1, I1, I1)), U(PD, RG, LN(2), F3, T(F3, I1, I1, I1))),
        "with_ragged": (lambda r: t.with_ragged(t.ParametricAttention()), U(PD, RG, LX, T(F2, I1)), U(PD, RG, LX, T(F2, I1))),
        "with_flatten": (lambda r: t.with_flatten(t.Linear()), ("seq", ("seq", ANY)), LX),
        "with_flatten_v2": (lambda r: t.with_flatten_v2(t.map_list(t.Linear())), nest, nest),
        "with_getitem": (lambda r: t.with_getitem(0, t.Linear()), ("TV",), ("TV",)),
        "with_reshape": (lambda r: t.with_reshape(t.Linear()), A3, A3),
        "map_list": (lambda r: t.map_list(t.Linear()), LIST, LIST),
        "residual": (lambda r: t.residual(t.Linear()), RES, RES),
        "LSTM": (lambda r: t.LSTM(4, 2), PD, PD),
        "bidirectional": (lambda r: t.bidirectional(t.LSTM(4, 2)), PD, PD),
        "uniqued": (lambda r: t.uniqued(t.Embed(2, 3)), I2, F2),
        "siamese": (lambda r: t.siamese(t.Linear(2, 2), t.CauchySimilarity(2)), T(ANY, ANY), AX),
        "concatenate": (lambda r: t.concatenate(t.Linear(), t.Linear()), ANY, U(A2, L(A2), RG)),
        "add": (lambda r: t.add(t.Linear(), t.Linear()), ANY, AX),
        "remap_ids_v2": (lambda r: t.remap_ids_v2({}), U(("seq", ("hashable",)), I1, I2), I2),
    }
    for name in ("first", "last", "max", "mean", "sum"):
        more["reduce_" + name] = ((lambda r, n=name: getattr(t, "reduce_" + n)()), RG, F2)
    out.update(more)
    return out


LAYERS = layers()


def state(m):
    return [(n.name, tuple((d, n.maybe_get_dim(d)) for d in n.dim_names),
             tuple((p, cont.digest(np.asarray(n.get_param(p))) if n.has_param(p) else None) for p in n.param_names)) for n in m.walk()]


def refused(ctx, m, X, Y, what, names):
    before, dx = state(m), (digest(X), digest(Y))
    got = None
    with t.data_validation(True):
        try:
            m.initialize(X=X, Y=Y)
        except t.DataValidationError as e:
            got = e
        except Exception as e:  # accepted by validation, refused by the layer
            ctx.check(False, f"ill-typed-accepted:{what}", f"X {kind_of(X)} Y {kind_of(Y)} got past validation: {type(e).__name__}: {e}")
            return
    if ctx.check(got is not None, f"ill-typed-accepted:{what}", f"X {kind_of(X)} Y {kind_of(Y)}"):
        ctx.check(isinstance(got, ValueError) and any(n in str(got) for n in names), "error-names-layer", f"{names}: {str(got)[:200]}")
        ctx.check(state(m) == before, f"refused-but-initialised:{what}", f"X {kind_of(X)} Y {kind_of(Y)}: {before} -> {state(m)}")
    ctx.check((digest(X), digest(Y)) == dx, f"sample-changed:{what}", f"{kind_of(X)} {kind_of(Y)}")
    ctx.check(util.DATA_VALIDATION.get() is False, "switch-left-on", what)


@group(160, 20000, 120)
def layer_samples(ctx, rng):
    """Every layer x values of every kind as input or output sample: ill-typed
    ones are refused before anything is allocated; well-typed ones are never
    refused by validation."""
    name = str(rng.choice(sorted(LAYERS)))
    mk, sx, sy = LAYERS[name]
    for _ in range(6):
        as_y = rng.rand() < 0.35
        v = value(rng)
        if as_y and v is None:
            continue
        fit = fits(sy if as_y else sx, v)
        if fit is None:
            ctx.note("coerced")
            continue
        m = mk(rng)
        X, Y = (None, v) if as_y else (v, None)
        ctx.sig(name, as_y, kind_of(v), fit)
        ctx.describe(name, "Y" if as_y else "X", kind_of(v))
        if not fit:
            refused(ctx, m, X, Y, name, [m.name])
            ctx.note("refused:" + name)
            continue
        d = digest(v)
        with t.data_validation(True):
            try:
                m.initialize(X=X, Y=Y)
            except t.DataValidationError as e:
                # only the layer's own samples are well-typed here, not those
                # of the layers inside
                ctx.check(m.name not in str(e).split("'")[1], f"well-typed-refused:{name}", f"{'Y' if as_y else 'X'} {kind_of(v)}: {str(e)[:300]}")
            except Exception:
                pass  # shapes that mean nothing to the layer
            else:
                ctx.check(True, "accepted")
        ctx.check(digest(v) == d, f"sample-changed:{name}", kind_of(v))
        ctx.check(util.DATA_VALIDATION.get() is False, "switch-left-on", name)
        ctx.note("accepted:" + name)


@group(80, 6000, 60)
def same_model(ctx, rng):
    """Validated and unvalidated initialisation of the same construction give
    the same model."""
    s = int(rng.randint(2**31))
    src = str(rng.choice(["leaf", "encoder", "built", "built"]))

    def build():
        r = np.random.RandomState(s)
        t.fix_random_seed(s)
        if src == "built":
            b, kind, m, x, nO, ykind = p21.make(r)
            if "with_flatten" in b.ops or "uniqued" in b.ops:
                # over a layer that returns a list; over rows that are not ids: not their documented use
                return None
            X = x(int(r.choice([1, 2, 4, 7])))
            Y = p21.y_for(r, X, nO, ykind) if ykind and (p21.y_needed(m) or r.rand() < 0.6) else None
            if ykind == "1d" or any("attn" in q.name or "attention" in q.name for q in m.walk()):
                # chain hands Y to the layers inside whose nO is open, attention
                # among them, for which it is not a sample of their type
                Y = None
                if p21.y_needed(m):
                    return None
            return m, X, Y, kind + ":" + ",".join(sorted(set(b.ops)))
        table = zoo.LEAVES if src == "leaf" else zoo.ENCODERS
        name = str(r.choice(sorted(table)))
        c = table[name](r)
        if name == "enc_flatten":
            return None
        X = c.x(r)
        Y = c.init_y(X) if c.init_y else None
        return c.model, X, Y, name

    models = []
    for on in (False, True):
        got = build()
        if got is None:
            return ctx.note("not a documented use")
        m, X, Y, what = got
        d = digest(X), digest(Y)
        t.fix_random_seed(s)
        with t.data_validation(on):
            out = m.initialize(X=X, Y=Y)
        ctx.check(out is m, "initialize-returns", what)
        ctx.check((digest(X), digest(Y)) == d, "sample-changed", f"{what} validation {on}")
        models.append((m, X))
    (a, X), (b, _) = models
    ctx.describe(what, kind_of(X))
    ctx.sig(src, what, kind_of(X), Y is not None)
    dd = snap.diff(snap.snapshot(a, ids=False, attrs=False), snap.snapshot(b, ids=False, attrs=False), skip=("func",))
    ctx.check(dd is None, "validation-changes-model", f"{what}: {dd}")
    if any(q.name.startswith("hashembed") for q in a.walk()):
        return  # its default seed is the id of the node
    ya, yb = a.predict(X), b.predict(X)
    ctx.check(cont.digest(ya) == cont.digest(yb), "validation-changes-predictions", what)
    ctx.note("same:" + src)


# a stage of a pipeline: factory, what it gives for each kind it takes
STAGES = [
    ("Linear", lambda: t.Linear(3), {"rows": "rows"}), ("Relu", lambda: t.Relu(3, normalize=True), {"rows": "rows"}), ("LayerNorm", lambda: t.LayerNorm(), {"rows": "rows"}),
    ("list2ragged", t.list2ragged, {"list": "ragged"}), ("ragged2list", t.ragged2list, {"ragged": "list"}), ("list2padded", t.list2padded, {"list": "padded"}),
    ("padded2list", t.padded2list, {"padded": "list"}), ("list2array", t.list2array, {"list": "rows"}), ("reduce_mean", t.reduce_mean, {"ragged": "rows"}),
    ("attention", t.ParametricAttention, {"ragged": "ragged"}), ("LSTM", lambda: t.LSTM(4, bi=False), {"padded": "padded"}), ("map_list", lambda: t.map_list(t.Linear(2)), {"list": "list"}),
    ("with_array", lambda: t.with_array2d(t.Linear(2)), {k: k for k in ("rows", "list", "ragged", "padded")}),
    ("window", lambda: t.expand_window(1), {"ragged": "ragged", "rows": "rows"}), ("Embed", lambda: t.Embed(3, 5), {"ids": "rows"}),
    ("with_list", lambda: t.with_list(t.map_list(t.Linear(2))), {k: k for k in ("list", "ragged", "padded")}),
]


@group(60, 5000, 50)
def pipelines(ctx, rng):
    """A chain in which one layer's output does not fit the next: the error
    comes up at that layer, which is left uninitialised, as are those after it."""
    kind = str(rng.choice(["rows", "list", "ragged", "padded", "ids"]))
    first = kind
    n = int(rng.choice([2, 3, 4, 5]))
    bad = int(rng.randint(1, n)) if rng.rand() < 0.7 else None
    stages, names = [], []
    for i in range(n):
        opts = [s for s in STAGES if (kind in s[2]) == (i != bad)]
        s = opts[rng.randint(len(opts))]
        stages.append(s[1]())
        names.append(s[0])
        if i == bad:
            break
        kind = s[2][kind]
    rest = [t.Linear(2, 2) for _ in range(int(rng.choice([0, 1])))] if bad is not None else []
    if first == "ids":
        X = rng.randint(0, 5, size=4).astype("i4")
    else:
        seqs = [rng.standard_normal((int(k), 3)).astype("f") for k in rng.randint(1, 4, size=3)]
        X = {"rows": seqs[0], "list": seqs, "ragged": Ragged(np.concatenate(seqs), np.array([len(s) for s in seqs], "i4")), "padded": t.NumpyOps().list2padded(seqs)}[first]
    m = t.chain(*stages, *rest) if len(stages) + len(rest) > 1 else stages[0]
    ctx.describe(first, names, bad)
    ctx.sig(first, tuple(names), bad)
    d = digest(X)
    err = None
    with t.data_validation(True):
        try:
            m.initialize(X=X)
        except t.DataValidationError as e:
            err = e
        except Exception as e:
            ctx.check(False, "pipeline-other-error", f"{first} {names} bad={bad}: {type(e).__name__} {e}")
            return
    if bad is None:
        ctx.check(err is None, "pipeline-refused", f"{first} {names}: {str(err)[:300]}")
        ctx.note("pipeline accepted")
    elif ctx.check(err is not None, "pipeline-accepted", f"{first} {names}, layer {bad} takes another kind"):
        layer = stages[bad]
        ctx.check(any(f"'{q.name}'" in str(err) for q in layer.walk()), "pipeline-error-place", f"{names} bad={bad} ({layer.name}): {str(err)[:200]}")
        for q in [layer]:
            for node in q.walk():
                ctx.check(not any(node.has_param(p) for p in node.param_names), "parameters-before-validation", f"{names} {bad}: {node.name}")
        ctx.note("pipeline refused")
    ctx.check(digest(X) == d, "sample-changed:pipeline", f"{first} {names}")


# -- annotations ----------------------------------------------------------------------
TV1 = TypeVar("TV1", bound=Union[tt.Floats2d, tt.Ragged])
TV2 = TypeVar("TV2")
TV3 = TypeVar("TV3", tt.Floats1d, tt.Ints2d)


def base_annotations():
    out = {}
    for n in (1, 2, 3, 4):
        out[f"Floats{n}d"] = A(n, "f")
        out[f"Ints{n}d"] = A(n, "i")
        out[f"Array{n}d"] = U(A(n, "f"), A(n, "i"))
        out[f"List{n}d"] = LN(n)
        out[f"_Array{n}d"] = A(n)
    out.update(FloatsXd=FX, IntsXd=IX, ArrayXd=AX, ListXd=LX, Ragged=RG, Padded=PD, ArgsKwargs=("AK",))
    return out


BASE = base_annotations()


def annotation(rng, depth=2):
    """A random annotation and the observer's spec for it."""
    r = rng.randint(10) if depth else rng.randint(4)
    if r < 4:
        n = str(rng.choice(sorted(BASE)))
        return getattr(tt, n), BASE[n], n
    if r == 4:
        return [(Any, ANY, "Any"), (TV1, U(F2, RG), "TypeVar(bound)"), (TV2, ANY, "TypeVar"), (TV3, U(F1, I2), "TypeVar(constraints)")][rng.randint(4)]
    a, s, n = annotation(rng, depth - 1)
    if r in (5, 6):
        return List[a], L(s), f"List[{n}]"
    if r == 7:
        return Sequence[a], ("seq", s), f"Sequence[{n}]"
    b, s2, n2 = annotation(rng, depth - 1)
    if r == 8:
        return Union[a, b], U(s, s2), f"Union[{n},{n2}]"
    if rng.rand() < 0.3:
        return Optional[a], U(s, ("none",)), f"Optional[{n}]"
    return Tuple[a, b], T(s, s2), f"Tuple[{n},{n2}]"


def matching(rng, spec):
    """A value made to fit the specification."""
    k = spec[0]
    if k == "any":
        return value(rng)
    if k == "A":
        dt = "f4" if spec[2] == "f" else str(rng.choice(["i4", "i8", "u4", "u8"])) if spec[2] == "i" else str(rng.choice(DT))
        return array(rng, spec[1] if spec[1] is not None else None, dt)
    if k in ("L", "seq"):
        return [matching(rng, spec[1]) for _ in range(int(rng.choice([0, 1, 2, 6])))]
    if k == "T":
        return tuple(matching(rng, s) for s in spec[1])
    if k == "U":
        opts = [s for s in spec[1] if s[0] != "none"]
        return matching(rng, opts[rng.randint(len(opts))])
    if k == "R":
        return Ragged(array(rng, 2, "f4"), np.array([1], "i4"))
    if k == "P":
        return Padded(array(rng, 3, "f4"), *[np.array([1], "i4") for _ in range(3)])
    if k == "AK":
        return ArgsKwargs(args=(1, 2), kwargs={"a": 3})
    raise ValueError(spec)


def spoil(rng, v):
    """Change one thing somewhere inside a value."""
    if isinstance(v, (list, tuple)) and len(v) and rng.rand() < 0.8:
        i = rng.randint(min(len(v), 5))
        w = list(v)
        w[i] = spoil(rng, w[i])
        return type(v)(w)
    if isinstance(v, np.ndarray) and rng.rand() < 0.7:
        return v.astype(str(rng.choice(DT))) if rng.rand() < 0.5 else v[None] if v.ndim < 4 or rng.rand() < 0.3 else v.reshape(-1)
    return value(rng)


@group(150, 20000, 120)
def annotations(ctx, rng):
    """Forward functions with arbitrary annotations over the array types."""
    a, sa, na = annotation(rng)
    b, sb, nb = annotation(rng)
    text = rng.rand() < 0.15 and na in BASE and nb in BASE
    bare = rng.randint(6)

    def forward(model, X, is_train):
        return X, lambda dY: dY

    ann = {}
    if bare != 0:
        ann["X"] = na if text else a
    else:
        sa = ANY
    if bare != 1:
        ann["return"] = f"Tuple[{nb}, Callable]" if text else Tuple[b, Callable]
    else:
        sb = ANY
    forward.__annotations__ = ann
    log = []
    m = Model("layer-x", forward, init=lambda model, X=None, Y=None: log.append((X, Y)) or model.set_param("W", np.zeros(1, "f")), params={"W": None})
    ctx.describe(na, nb, text, bare)
    for _ in range(6):
        X = Y = None
        which = rng.randint(4)
        if which != 0:
            X = matching(rng, sa)
            if rng.rand() < 0.5:
                X = spoil(rng, X)
        if which != 1:
            Y = matching(rng, sb)
            if rng.rand() < 0.5:
                Y = spoil(rng, Y)
        if X is None and Y is None:
            continue
        fit = all_of([fits(sa, X) if X is not None else True, fits(sb, Y) if Y is not None else True])
        if fit is None:
            ctx.note("coerced")
            continue
        ctx.sig(na, nb, kind_of(X), kind_of(Y), fit)
        m.set_param("W", None) if m.has_param("W") else None
        log.clear()
        if not fit:
            refused(ctx, m, X, Y, "annotated", ["layer-x"])
            ctx.check(not log, "init-called", f"{na} {nb}: the init function ran although the sample was refused")
            ctx.note("annotated refused")
        else:
            d = digest(X), digest(Y)
            with t.data_validation(True):
                try:
                    m.initialize(X=X, Y=Y)
                except t.DataValidationError as e:
                    ctx.check(False, "annotated-refused", f"X: {na} <- {kind_of(X)}; Y: {nb} <- {kind_of(Y)}: {str(e)[:300]}")
                    continue
            ctx.check(len(log) == 1 and log[0][0] is X and log[0][1] is Y, "init-gets-samples", f"{na} {nb}: init got {[(kind_of(x), kind_of(y)) for x, y in log]}")
            ctx.check((digest(X), digest(Y)) == d, "sample-changed:annotated", f"{kind_of(X)} {kind_of(Y)}")
            ctx.note("annotated accepted")
        # without validation nothing is refused
        log.clear()
        m.initialize(X=X, Y=Y)
        ctx.check(len(log) == 1 and log[0][0] is X and log[0][1] is Y, "off-passes-everything", f"{na} {nb}")


@group(10, 500, 8)
def signatures(ctx, rng):
    """Forward functions of another arity are refused under validation."""
    n = int(rng.choice([1, 2, 3, 4]))
    fns = {1: lambda model: None, 2: lambda model, X: None, 3: lambda model, X, is_train: (X, None), 4: lambda model, X, is_train, extra: None}
    called = []
    m = Model("odd-forward", fns[n], init=lambda model, X=None, Y=None: called.append(1))
    X = value(rng) if rng.rand() < 0.7 else None
    ok = True
    with t.data_validation(True):
        try:
            m.initialize(X=X)
        except t.DataValidationError as e:
            ok = False
            ctx.check("odd-forward" in str(e), "error-names-layer", str(e)[:100])
    ctx.check(ok == (n == 3), "arity", f"forward with {n} arguments {'accepted' if ok else 'refused'}")
    ctx.check(bool(called) == (n == 3), "init-called", f"{n} arguments")
    ctx.sig(n, kind_of(X))


@group(25, 4000, 20)
def switch(ctx, rng):
    """Nested and interleaved switching, threads included: each block sees its
    own setting."""
    import threading

    def ill():
        m = t.Linear(2)
        try:
            m.initialize(X=np.zeros((2, 3, 1), "f"))
        except t.DataValidationError:
            return True
        except Exception:
            return False
        return False

    want = [False]
    trace = []

    def walk(depth):
        ctx.check(ill() == want[-1], "switch-value", f"{trace}")
        ctx.check(util.DATA_VALIDATION.get() is want[-1], "switch-variable", f"{trace}")
        if depth == 0:
            return
        for _ in range(int(rng.choice([1, 1, 2]))):
            v = bool(rng.rand() < 0.5)
            trace.append(v)
            want.append(v)
            boom = rng.rand() < 0.3
            try:
                with t.data_validation(v):
                    walk(depth - 1)
                    if boom:
                        raise KeyError("planted")
            except KeyError:
                pass
            want.pop()
            trace.append("out")
            ctx.check(util.DATA_VALIDATION.get() is want[-1], "switch-restored", f"{trace}")

    walk(int(rng.choice([1, 2, 3])))
    seen = []
    with t.data_validation(True):
        th = threading.Thread(target=lambda: seen.append(ill()))
        th.start()
        th.join()
    ctx.check(seen == [False], "switch-leaks-to-thread", "validation switched on in another thread")
    ctx.sig(str(trace))


# -- helpers --------------------------------------------------------------------------
@group(80, 8000, 60)
def widths(ctx, rng):
    v = value(rng)
    dim = int(rng.choice([-1, -1, -1, 0, 1, -2, 2]))

    def want(v):
        import torch

        if isinstance(v, (Ragged, Padded)):
            v = v.data
        if isinstance(v, np.generic):
            return 0
        if isinstance(v, (np.ndarray, torch.Tensor)):
            if v.ndim == 0:
                return 0
            if v.ndim == 1:
                return None if v.shape[0] == 0 or v.dtype.kind not in "iuf" else int(v.max()) + 1
            return v.shape[dim] if -v.ndim <= dim < v.ndim else "refuse"
        if isinstance(v, (list, tuple)):
            return 0 if len(v) == 0 else want(v[0])
        return "refuse"

    w = want(v)
    d = digest(v)
    ctx.describe(kind_of(v), dim)
    ctx.sig(kind_of(v), dim, w)
    if isinstance(w, str):
        ctx.raises(lambda: t.get_width(v, dim=dim), "width-of-anything", f"{kind_of(v)} dim={dim}", (ValueError, IndexError))
    elif w is not None:
        g = t.get_width(v, dim=dim) if dim != -1 or rng.rand() < 0.5 else t.get_width(v)
        ctx.check(g == w and isinstance(g, int), "width", f"{kind_of(v)} dim={dim}: {g!r} expected {w!r}")
    ctx.check(digest(v) == d, "width-changes-data", kind_of(v))


@group(80, 8000, 60)
def categories(ctx, rng):
    nd = int(rng.choice([0, 1, 1, 2, 3]))
    n = int(rng.choice([1, 2, 3, 5, 12] if rng.rand() < 0.9 else [127, 128, 129, 200, 255]))
    sh = tuple(int(k) for k in rng.choice([0, 1, 2, 4] if rng.rand() < 0.3 else [1, 2, 4], size=nd))
    Y = rng.randint(0, n, size=sh)
    Y = np.asarray(Y).astype(str(rng.choice(["i4", "i8", "u4", "u8", "u1", "i2"])))
    give = n if rng.rand() < 0.6 else int(rng.choice([1, 2, 3, 6])) if rng.rand() < 0.5 else None
    top = int(Y.max()) if Y.size else -1
    nc = give if give is not None else top + 1
    sm = float(rng.choice([0, 0, 0.1, 0.3, 0.49, 0.5, 0.66, 0.9, 1.0, -0.1]))
    near = nc > 1 and rng.rand() < 0.15
    if near:
        sm = (nc - 1) / nc - float(rng.choice([0, 1e-3, -1e-3]))
    desc = f"labels {Y.dtype}{Y.shape} max {top}, n_classes={give}, smoothing={sm}"
    ctx.describe(desc)
    ctx.sig(Y.dtype.str, Y.shape, give, round(sm, 4), top)
    before = Y.copy()
    call = lambda: t.to_categorical(Y, **({} if give is None else {"n_classes": give}), **({"label_smoothing": sm} if sm or rng.rand() < 0.5 else {}))
    if Y.size == 0 and give is None:
        ctx.raises(call, "categories-of-nothing", desc)
        return
    bad = sm < 0 or (sm > 0 and nc < 2) or (nc > 1 and sm >= (nc - 1) / nc) or top >= nc or nc < 1
    if bad:
        ctx.raises(call, "categories-accepted", desc, (ValueError, IndexError))
        ctx.note("refused")
    else:
        out = call()
        want = np.full(Y.shape + (nc,), sm / (nc - 1) if nc > 1 else 0.0)
        for i in np.ndindex(*Y.shape):
            want[i + (int(Y[i]),)] = 1 - sm
        ctx.check(isinstance(out, np.ndarray) and out.dtype == np.float32 and out.shape == want.shape, "categories-type", f"{desc}: {getattr(out, 'dtype', None)} {np.shape(out)}")
        ctx.close(out, want, "categories", desc, 1e-6, 1e-7)
        if out.size:
            ctx.check(np.allclose(out.sum(-1), 1, atol=1e-5), "categories-sum", desc)
            if sm == 0:
                ctx.check(set(np.unique(out)) <= {0.0, 1.0}, "categories-binary", desc)
            o = out.reshape(-1, nc)
            if len(o) > 1:  # rows are independent of each other and of later calls
                o[0] = 7
                ctx.check(not (o[1:] == 7).any() and not (call() == 7).any(), "categories-aliased", desc)
    ctx.check(np.array_equal(Y, before), "categories-change-labels", desc)


class Leaf:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"L{self.n}"


class Key:
    def __init__(self, n):
        self.n = n


def tree(rng, depth, counter):
    r = rng.rand()
    if depth == 0 or r < 0.35:
        counter[0] += 1
        k = rng.randint(8)
        return [lambda: Leaf(counter[0]), lambda: Leaf(counter[0]), lambda: np.zeros(2), lambda: counter[0], lambda: f"s{counter[0]}", lambda: None,
                lambda: Ragged(np.zeros((1, 1), "f"), np.ones(1, "i4")), lambda: {1, 2}][k]()
    n = int(rng.choice([0, 1, 2, 3]))
    if r < 0.55:
        return [tree(rng, depth - 1, counter) for _ in range(n)]
    if r < 0.72:
        return tuple(tree(rng, depth - 1, counter) for _ in range(n))
    if r < 0.9:
        out = {}
        for i in range(n):
            k = [lambda: f"k{i}", lambda: i, lambda: Key(i), lambda: Leaf(-i), lambda: ("t", Leaf(i))][rng.randint(5)]()
            out[k] = tree(rng, depth - 1, counter)
        return out
    return ArgsKwargs(args=tuple(tree(rng, depth - 1, counter) for _ in range(n)), kwargs={f"k{i}": tree(rng, depth - 1, counter) for i in range(int(rng.choice([0, 1, 2])))})


def listing(v):
    """Everything convert_recursive may be asked about, in documented order."""
    yield v
    if isinstance(v, ArgsKwargs):
        for x in list(v.args) + list(v.kwargs.values()):
            yield from listing(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from listing(k)
            yield from listing(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from listing(x)


@group(80, 10000, 60)
def conversions(ctx, rng):
    """convert_recursive / iterate_recursive over nested structures."""
    obj = tree(rng, int(rng.choice([1, 2, 3, 4])), [0])
    kind = str(rng.choice(["leaf", "leaf", "array", "none", "ragged", "list2"]))
    match = {"leaf": lambda x: isinstance(x, Leaf), "array": lambda x: isinstance(x, np.ndarray), "none": lambda x: x is None,
             "ragged": lambda x: isinstance(x, Ragged), "list2": lambda x: isinstance(x, list) and len(x) == 2}[kind]
    before = deep_ids(obj)
    made = {}

    def conv(x):
        made.setdefault(id(x), []).append(("converted", x))
        return made[id(x)][-1]

    out = util.convert_recursive(match, conv, obj)
    ctx.describe(kind, repr(obj)[:300])
    ctx.sig(kind, shape_of(obj))
    n = compare_trees(ctx, match, obj, out, "root")
    ctx.check(sum(len(v) for v in made.values()) == n, "converted-times", f"{sum(len(v) for v in made.values())} conversions for {n} matching values")
    ctx.check(deep_ids(obj) == before, "conversion-changes-input", kind)
    got = list(util.iterate_recursive(match, obj))
    want = matches(match, obj)
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "iterate", f"{kind}: {len(got)} values, expected {len(want)}")
    ctx.note("matches", n)


def matches(match, v):
    if match(v):
        return [v]
    out = []
    if isinstance(v, ArgsKwargs):
        for x in list(v.args) + list(v.kwargs.values()):
            out += matches(match, x)
    elif isinstance(v, dict):
        for k, x in v.items():
            out += matches(match, k) + matches(match, x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            out += matches(match, x)
    return out


def deep_ids(v):
    if isinstance(v, ArgsKwargs):
        return (id(v), tuple(deep_ids(x) for x in v.args), tuple((k, deep_ids(x)) for k, x in v.kwargs.items()))
    if isinstance(v, dict):
        return (id(v), tuple((deep_ids(k), deep_ids(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (id(v), tuple(deep_ids(x) for x in v))
    return id(v)


def shape_of(v):
    if isinstance(v, ArgsKwargs):
        return ("AK", tuple(shape_of(x) for x in v.args), tuple(shape_of(x) for x in v.kwargs.values()))
    if isinstance(v, dict):
        return ("d", tuple((type(k).__name__, shape_of(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(shape_of(x) for x in v))
    return type(v).__name__


def compare_trees(ctx, match, a, b, path):
    """b must be a with every matching value (outermost first) converted."""
    if match(a):
        ctx.check(isinstance(b, tuple) and len(b) == 2 and b[0] == "converted" and b[1] is a, "match-not-converted", path)
        return 1
    if isinstance(a, ArgsKwargs):
        if ctx.check(type(b) is ArgsKwargs and type(b.args) is tuple and type(b.kwargs) is dict and len(a.args) == len(b.args) and list(a.kwargs) == list(b.kwargs),
                     "structure", f"{path}: {type(b).__name__}"):
            return sum(compare_trees(ctx, match, x, y, f"{path}.args") for x, y in zip(a.args, b.args)) + sum(
                compare_trees(ctx, match, a.kwargs[k], b.kwargs[k], f"{path}.{k}") for k in a.kwargs)
    elif isinstance(a, dict):
        if ctx.check(type(b) is dict and len(a) == len(b), "structure", f"{path}: {type(b).__name__}"):
            return sum(compare_trees(ctx, match, k, q, f"{path}.key") + compare_trees(ctx, match, x, y, f"{path}[{k}]")
                       for (k, x), (q, y) in zip(a.items(), b.items()))
    elif isinstance(a, (list, tuple)):
        if ctx.check(type(b) is type(a) and len(a) == len(b), "structure", f"{path}: {type(b).__name__} of {len(b) if hasattr(b, '__len__') else '?'}"):
            return sum(compare_trees(ctx, match, x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b)))
    else:
        ctx.check(a is b, "non-match-changed", f"{path}: {a!r} -> {b!r}")
    return 0


@group(20, 3000, 15)
def args_kwargs(ctx, rng):
    """ArgsKwargs as a mapping: keys, values, items and the way back."""
    args = [object() for _ in range(int(rng.choice([0, 1, 2, 4])))]
    kwargs = {str(k): object() for k in rng.permutation(["a", "b", "c", "d", "args"])[: int(rng.choice([0, 1, 3]))]}
    ak = ArgsKwargs(args=tuple(args), kwargs=dict(kwargs))
    ctx.check(list(ak.keys()) == list(range(len(args))) + list(kwargs), "argskwargs-keys")
    ctx.check(all(a is b for a, b in zip(ak.values(), args + list(kwargs.values()))) and len(list(ak.values())) == len(args) + len(kwargs), "argskwargs-values")
    items = list(ak.items())
    ctx.check([k for k, _ in items] == list(ak.keys()) and all(a is b for (_, a), b in zip(items, ak.values())), "argskwargs-items")
    back = ArgsKwargs.from_items(items)
    ctx.check(back == ak and type(back.args) is tuple and list(back.kwargs) == list(kwargs), "argskwargs-round-trip")
    order = [items[i] for i in rng.permutation(len(items))]
    mixed = ArgsKwargs.from_items(order)
    ctx.check(list(mixed.args) == [v for k, v in order if isinstance(k, int)] and mixed.kwargs == {k: v for k, v in order if isinstance(k, str)}, "argskwargs-order")
    got = (lambda *a, **k: (a, k))(*ak.args, **ak.kwargs)
    ctx.check(got == (tuple(args), kwargs), "argskwargs-spread")
    ctx.sig(len(args), tuple(kwargs))


@group(60, 5000, 50)
def type_checks(ctx, rng):
    """is_*_array, get_array_module, to_numpy, copy_array, ArrayInfo."""
    import torch

    v = value(rng) if rng.rand() < 0.8 else torch.zeros(2, 2)
    isnp = isinstance(v, np.ndarray)
    ctx.describe(kind_of(v))
    ctx.sig(kind_of(v))
    for name, want in (("is_numpy_array", isnp), ("is_xp_array", isnp), ("is_cupy_array", False), ("is_torch_array", isinstance(v, torch.Tensor)), ("is_torch_cuda_array", False),
                       ("is_torch_gpu_array", False), ("is_torch_mps_array", False), ("is_tensorflow_array", False), ("is_mxnet_array", False),
                       ("is_tensorflow_gpu_array", False), ("is_mxnet_gpu_array", False)):
        got = getattr(util, name)(v)
        ctx.check(got is want or (got == want and isinstance(got, bool)), f"type-check:{name}", f"{kind_of(v)}: {got!r}")
    if isnp:
        ctx.check(util.get_array_module(v) is np, "array-module", kind_of(v))
        ctx.check(util.to_numpy(v) is v, "to-numpy", kind_of(v))
        # copy_array writes the values, and only there
        dst = np.full(v.shape, 9, v.dtype)
        util.copy_array(dst, v)
        ctx.check(dst.tobytes() == np.ascontiguousarray(v).tobytes() and not np.may_share_memory(dst, v) or v.size == 0, "copy-array", kind_of(v))
        info = util.ArrayInfo.from_array(v)
        ctx.check(info.shape == v.shape and info.dtype == v.dtype, "array-info", kind_of(v))
        ctx.check(info.check_consistency(v.copy()) is None, "array-info-same", kind_of(v))
        w = array(rng)
        if w.shape != v.shape or w.dtype != v.dtype:
            ctx.raises(lambda: info.check_consistency(w), "array-info-differs", f"{kind_of(v)}{v.shape} / {kind_of(w)}{w.shape}", ValueError)
        else:
            ctx.check(info.check_consistency(w) is None, "array-info-same", kind_of(v))
    else:
        ctx.raises(lambda: util.get_array_module(v), "array-module-of-anything", kind_of(v), ValueError)
    if isinstance(v, list) and all(isinstance(x, np.ndarray) and x.dtype == v[0].dtype and x.shape == v[0].shape for x in v):
        ctx.check(np.array_equal(util.to_numpy(v), np.array(v)), "to-numpy-list", kind_of(v))
    if isinstance(v, torch.Tensor):
        ctx.check(np.array_equal(util.to_numpy(v), v.numpy()), "to-numpy-torch")


@group(6, 200, 5)
def small_helpers(ctx, rng):
    """partial, Generator, SizedGenerator, missing backends."""
    def f(a, b=1, *args, **kw):
        "docs of f"
        return (a, b, args, kw)

    n = int(rng.randint(0, 4))
    args = tuple(rng.randint(0, 9, size=n))
    kw = {"c": 3} if rng.rand() < 0.5 else {}
    g = t.util.partial(f, *args, **kw) if hasattr(t, "util") else util.partial(f, *args, **kw)
    ctx.check(g.__doc__ == "docs of f" and g(5) == f(*args, 5, **kw), "partial", f"{args} {kw}")
    calls = []

    def items():
        calls.append(1)
        yield from range(n)

    s = tt.SizedGenerator(items, n)
    ctx.check(len(s) == n and list(s) == list(range(n)) and list(s) == list(range(n)) and len(calls) == 2, "sized-generator", str(n))
    ok = [iter([1]), [1], (1,), "ab", (x for x in "ab"), {1: 2}]
    for v in ok:
        ctx.check(tt.Generator.validate(v) is v, "generator-type", type(v).__name__)
    for v in (3, None, 2.5, object()):
        ctx.raises(lambda: tt.Generator.validate(v), "generator-type", type(v).__name__, TypeError)
    a = np.zeros((2, 2), "f")
    for name in ("xp2tensorflow", "tensorflow2xp"):
        ctx.raises(lambda: getattr(util, name)(a), f"missing-backend:{name}", name, ImportError)
    for name in ("xp2mxnet", "mxnet2xp"):
        ctx.raises(lambda: getattr(util, name)(a), f"missing-backend:{name}", name, ImportError)
    ops = t.get_current_ops()
    ctx.check(t.prefer_gpu() is False and t.get_current_ops() is ops, "prefer-gpu", "no GPU here")
    ctx.raises(lambda: t.require_gpu(), "require-gpu", "no GPU here", ValueError)
    ctx.check(t.get_current_ops() is ops, "require-gpu-changes-ops", "")
    ctx.sig(n, bool(kw))
