"""P28: layers compute their documented function.

Monitor: every built-in layer is run in prediction and training mode after a
random history (parameters assigned, trained with an optimizer, loaded from
bytes, swapped by use_params, copied, rate attributes changed) and on batches
of every size and style; each output is compared with an independent float64
reference of the documented formula evaluated on the parameters the layer
holds at that moment.  Prediction and training output must agree when no
dropout is active."""
import numpy as np

from thinc.api import Adam, SGD, Model
from thinc.types import Padded, Ragged
from vlib import cont, layout, zoo
from vlib.core import group

QUICK_X = 12


def tolerance(case, X, P):
    big = 1.0
    for a in list(cont.data(X)) + list(P.values()):
        if a.size:
            big = max(big, float(np.max(np.abs(a))))
    amp = amplify(case, X, P)
    return dict(rtol=2e-4, atol=3e-6 * big * big * amp)


def amplify(case, X, P):
    if case.name == "LayerNorm":
        pre = np.asarray(X, dtype="f8")
    elif hasattr(case, "prenorm"):
        pre = case.prenorm(P, np.asarray(X, dtype="f8"))
    else:
        return 1.0
    if not pre.size:
        return 1.0
    return float(1 / np.sqrt(pre.var(axis=1).min() + 1e-8))


def compare(ctx, case, got, want, mech, X, P, how=""):
    t = tolerance(case, X, P)
    name = case.name.split(":")[0]
    gs, ws = cont.structure(got), cont.structure(want)
    if gs != ws:
        return ctx.check(False, f"{mech}-structure:{name}", f"{case.name} {how}: {gs} expected {ws}")
    ok = True
    for g, w in zip(cont.data(got), cont.data(want)):
        ok = ctx.close(g, w, f"{mech}:{name}", f"{case.name} {how}", X=repr(X)[:600], **t) and ok
    for g in cont.data(got):
        ctx.check(g.dtype == np.float32, f"{mech}-dtype:{name}", f"{case.name} {how}: output dtype {g.dtype}")
    return ok


def observe(ctx, case, X, how):
    m = case.model
    P = case.P()
    X8 = cont.cast(X, "f8")
    want = case.ref(P, X8)
    predict_ref = getattr(case, "predict_ref", case.ref)
    name = case.name.split(":")[0]
    if amplify(case, X, P) > 300:
        ctx.note("ill_conditioned_skipped")
        return
    compare(ctx, case, m.predict(X), predict_ref(P, X8), "predict", X, P, how)
    Y, _ = m(X, True)
    compare(ctx, case, Y, want, "training-output", X, P, how)
    Y, _ = m(X, False)
    compare(ctx, case, Y, predict_ref(P, X8), "forward-predict-mode", X, P, how)


def h_assign(ctx, case, rng):
    case.randomise(rng)


def h_train(ctx, case, rng):
    m = case.model
    opt = Adam(0.05) if rng.rand() < 0.5 else SGD(0.1)
    for _ in range(rng.randint(1, 4)):
        X = case.x(rng)
        Y, bp = m(X, True)
        bp(cont.rand_like(rng, Y, 0.3))
        m.finish_update(opt)
        opt.step_schedules()
    if "HC0" in case.P():
        pass


def h_load(ctx, case, rng):
    data = case.model.to_bytes()
    case.randomise(rng)
    case.model.from_bytes(data)


def h_copy(ctx, case, rng):
    case.model = case.model.copy()
    case.P_model = case.model


def h_scale(ctx, case, rng):
    for _, n, name in zoo.params(case.model):
        v = n.get_param(name) * float(rng.choice([0.0, 10.0, -1.0]))
        n.set_param(name, case.fix(name, v) if case.fix else v)


def h_predict(ctx, case, rng):
    for _ in range(3):
        case.model.predict(case.x(rng))


def h_inplace(ctx, case, rng):
    """A parameter array edited in place is what the layer uses."""
    for _, n, name in zoo.params(case.model):
        p = n.get_param(name)
        if name != "HC0" and p.size:
            p.reshape(-1)[rng.randint(p.size)] += 1.0


def h_layout(ctx, case, rng):
    for _, n, name in zoo.params(case.model):
        n.set_param(name, layout.pick(rng, n.get_param(name), 0.2)[0])


HIST = [h_assign, h_train, h_load, h_copy, h_scale, h_predict, h_inplace, h_layout]


def bind(case):
    """P() must read the model the case holds now (it may be a copy)."""
    names = {}
    norm = hasattr(case, "prenorm")

    def P():
        return zoo._norm_params(case.model) if norm else {
            name: np.asarray(n.get_param(name), dtype="f8") for _, n, name in zoo.params(case.model)
        }

    case.P = P


def make_group(name):
    def g(ctx, rng):
        case = zoo.LEAVES[name](rng)
        if case.ref is None:
            if name == "list2padded":
                case.ref = lambda P, X: ref_padded(X)
            else:
                return
        case.initialize(rng, randomise=bool(rng.rand() < 0.8))
        if any((n.get_param(nm).dtype.kind == "f" and not np.isfinite(n.get_param(nm)).all()) for _, n, nm in zoo.params(case.model)):
            return
        bind(case)
        log = []
        for i in range(rng.randint(1, 4)):
            if rng.rand() < 0.6:
                h = HIST[rng.randint(len(HIST))]
                if h is h_train and not case.grads:
                    continue
                if h is h_layout and name in ("lstm",):
                    continue
                if h in (h_scale, h_inplace) and case.fix:
                    h = h_assign
                try:
                    h(ctx, case, rng)
                except ValueError:  # optimizers want contiguous parameters
                    if "h_layout" in log:
                        return
                    raise
                log.append(h.__name__)
                ctx.note(h.__name__)
                if case.fix:
                    for _, n, nm in zoo.params(case.model):
                        n.set_param(nm, case.fix(nm, np.asarray(n.get_param(nm))))
            X = case.x(rng)
            ctx.describe(case.name, history=log)
            ctx.sig(case.name, tuple(log), cont.structure(X))
            try:
                observe(ctx, case, X, "+".join(log))
            except (ValueError, TypeError, BufferError) as e:
                if "h_layout" in log:
                    ctx.note("layouts_refused")
                    return
                raise

    g.__name__ = name
    g.__module__ = __name__
    return group(12 if name != "lstm" else 4, 4000 if name != "lstm" else 800, 10)(g)


def ref_padded(seqs):
    class W:  # compare through the canonical order: descending length, later first on ties
        pass

    lens = [len(s) for s in seqs]
    order = sorted(range(len(seqs)), key=lambda i: (lens[i], i), reverse=True)
    nS = max(lens) if lens else 0
    data = np.zeros((nS, len(seqs)) + seqs[0].shape[1:])
    for j, i in enumerate(order):
        data[: lens[i], j] = seqs[i]
    L = np.array([lens[i] for i in order], dtype="i")
    return Padded(data, np.array([(L > t).sum() for t in range(nS)], dtype="i"), L, np.array(order, dtype="i"))


for _n in zoo.LEAVES:
    if _n not in ("hashembed", "sparse_linear", "list2padded"):
        make_group(_n)


@group(40, 2000, 100)
def softmax_v2_attributes(ctx, rng):
    """Temperature and normalisation changed after construction by
    set_softmax_* style attribute assignment take effect on the next call."""
    case = zoo.softmax_v2(rng).initialize(rng)
    m = case.model
    X = case.x(rng)
    ctx.describe(case.name)
    for _ in range(3):
        T = float(rng.choice([0.25, 1.0, 3.0, 0.05]))
        norm = bool(rng.rand() < 0.5)
        m.attrs["softmax_temperature"] = T
        m.attrs["softmax_normalize"] = norm
        P = {k: v for k, v in case.P().items()}
        logits = X.astype("f8") @ P["W"].T + P["b"]
        want = zoo.softmax(logits, T)
        t = tolerance(case, X, P)
        ctx.close(m.predict(X), want if norm else logits, "softmax-attrs-predict", f"T={T} norm={norm}", **t)
        ctx.close(m(X, True)[0], want, "softmax-attrs-train", f"T={T} norm={norm}", **t)
        ctx.sig(T, norm, X.shape)
    m.attrs["softmax_temperature"] = float(rng.choice([0.0, -1.0]))
    ctx.raises(lambda: m.predict(X), "softmax-temperature-refused", "temperature <= 0", ValueError)
    Y, bp = (None, None)
    m.attrs["softmax_temperature"] = 1.0
    m.attrs["softmax_normalize"] = False
    _, bp = m(X, False)
    ctx.raises(lambda: bp(np.zeros((X.shape[0], m.get_dim("nO")), "f")), "softmax-unnormalized-backprop", "backprop of unnormalised softmax", ValueError)


@group(20, 1500, 40)
def far_from_zero(ctx, rng):
    """Normalisation takes the mean away before it looks at the spread: rows far
    from zero come out as well as others, up to what their own rounding costs."""
    from thinc.api import LayerNorm

    n, w = int(rng.randint(1, 5)), int(rng.choice([2, 3, 8, 64]))
    c, s = float(rng.choice([30, 300, 2000])) * (1 if rng.rand() < 0.7 else -1), float(rng.choice([0.5, 1, 4]))
    X = (c + s * rng.standard_normal((n, w))).astype("f")
    X[:, 0] = c + s
    X[:, -1] = c - s
    m = LayerNorm(w).initialize()
    G, b = rng.standard_normal(w).astype("f"), rng.standard_normal(w).astype("f")
    m.set_param("G", G)
    m.set_param("b", b)
    X8 = X.astype("f8")
    Z = (X8 - X8.mean(axis=1, keepdims=True)) / np.sqrt(X8.var(axis=1, keepdims=True) + 1e-8)
    tol = 2e-5 + 1e-6 * abs(c) / s * np.sqrt(w)
    ctx.describe(n=n, w=w, c=c, s=s)
    ctx.sig(n, w, c, s)
    for is_train in (False, True):
        Y = m(X, is_train)[0]
        ctx.close(Y, Z * G + b, "reference:LayerNorm", f"mean {c}, spread {s}", rtol=1e-4, atol=tol * (1 + float(np.abs(G).max())))


@group(30, 1500, 60)
def strings(ctx, rng):
    """strings2arrays: one column of (sign-extended) murmur3 hashes per sequence."""
    from thinc.api import strings2arrays
    from vlib.hashref import murmur3_32

    def want(w):
        h = murmur3_32(w.encode("utf8"))
        return h if h < 2**31 else h + 2**64 - 2**32  # sign-extended

    words = ["", "a", "hello", "ünï", "日本", "x" * 40, "A", "hello "]
    X = [[words[rng.randint(len(words))] for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(1, 4))]
    m = strings2arrays()
    Y, bp = m(X, False)
    ctx.describe("strings2arrays", X=X)
    ctx.check(isinstance(Y, list) and len(Y) == len(X), "strings2arrays-structure", str(type(Y)))
    for y, seq in zip(Y, X):
        ctx.check(y.dtype == np.uint64 and y.shape == (len(seq), 1), "strings2arrays-shape", f"{y.dtype} {y.shape} for {seq}")
        for v, w in zip(y.ravel(), seq):
            ctx.check(int(v) == want(w), "strings2arrays-hash", f"{w!r}: {int(v)} != {want(w)}")
    ctx.sig(str(X))
