"""P05: serialisation round-trips and rejects incompatible data.

Monitor: a model is brought into a state by a random history, saved (bytes,
dict, disk), and loaded into another model of the same structure that was built
afresh and is in a random state of its own.  A snapshot oracle that does not use
thinc's serialisation compares everything, an aliasing monitor looks for shared
memory, and both models are then used and trained side by side.  For
compatibility, pairs of models are drawn and the answer is compared with an
independent decision from their snapshots and with what loading then does."""
import shutil
import tempfile
from pathlib import Path

import numpy as np

from thinc.api import Model, Shim
from vlib import compose, cont, snap, zoo
from vlib.core import group

QUICK_X = 16
FACTORIES = {**zoo.LEAVES, **zoo.ENCODERS}


class Fam:
    """A family of equally built models: build() gives a fresh one."""

    def __init__(self, name, build, make, pre=None, init=None):
        self.name, self.build, self.make, self.pre = name, build, make, pre
        self.init = init


def family(rng, name=None):
    """A reproducible recipe."""
    k = rng.rand()
    seed = int(rng.randint(2**31))
    if name is None and k < 0.5:
        name = str(rng.choice(sorted(FACTORIES)))
    if name is not None:
        def build():
            return FACTORIES[name](np.random.RandomState(seed))

        case = build()
        return Fam(name, lambda: build().model, lambda r: case.x(r, int(r.choice([1, 2, 4]))), case.pre)
    if k < 0.85:
        def build():
            return compose.program(np.random.RandomState(seed), None, share=0.35)

        prog = build()
        return Fam("composed", lambda: build().model, lambda r: prog.batch(r))
    return graph_family(rng, seed)


def _fwd(model, X, is_train):
    Y = X
    for layer in model.layers:
        Y, _ = layer(Y, is_train)
    for name in model.param_names:
        if model.has_param(name):
            Y = Y + model.get_param(name).sum()
    return Y, lambda dY: dY


def graph_family(rng, seed):
    """Arbitrary graphs: shared nodes, references (set, unset), params of
    different kinds, attributes of many types."""

    def build():
        r = np.random.RandomState(seed)
        nodes = []
        for i in range(int(r.randint(1, 7))):
            kids = [nodes[j] for j in r.randint(0, len(nodes), size=int(r.randint(0, 4)))] if nodes else []
            m = Model(f"n{r.randint(3)}", _fwd, layers=kids,
                      dims={d: (None if r.rand() < 0.4 else int(r.randint(0, 5))) for d in list("abc")[: r.randint(4)]},
                      params={p: None for p in list("WbQ")[: r.randint(4)]},
                      attrs={k: attr_value(r) for k in list("xyz")[: r.randint(4)]},
                      refs={f: None for f in list("rs")[: r.randint(3)]})
            for f in m.ref_names:
                if r.rand() < 0.7:
                    tree = list(m.walk())
                    m.set_ref(f, tree[r.randint(len(tree))])
            nodes.append(m)
        root = Model("root", _fwd, layers=nodes[-int(r.randint(1, 3)):], refs={"top": nodes[-1] if r.rand() < 0.5 else None, "me": None})
        if r.rand() < 0.6:
            root.set_ref("me", root)
        if r.rand() < 0.5:  # states outside of the parameters, some held by two nodes
            tree, made = list(root.walk()), []
            for _ in range(int(r.randint(1, 5))):
                s = made[r.randint(len(made))] if made and r.rand() < 0.25 else Extra({"v": 0})
                made.append(s)
                tree[r.randint(len(tree))].shims.append(s)
        return root

    return Fam("graph", build, lambda r: r.standard_normal((int(r.randint(1, 4)), 2)).astype("f"))


def attr_value(r):
    k = r.randint(14)
    return [
        lambda: int(r.randint(-(2**40), 2**40)), lambda: float(r.standard_normal()), lambda: str(r.choice(["", "abc", "ü€"])),
        lambda: bool(r.rand() < 0.5), lambda: None, lambda: b"\x00\xff", lambda: [1, "a", None],
        lambda: {"k": [1, 2], "l": {"m": 0.5}}, lambda: {1: 2, 5: 7}, lambda: r.standard_normal(3).astype("f"),
        lambda: r.randint(0, 9, size=(2, 2)), lambda: (1, 2), lambda: np.float32(1.5), lambda: float("inf"),
    ][k]()


def bring(rng, fam, m, X, histories=True):
    """Bring a model of the family into a state."""
    if fam.name == "graph":
        for node in m.walk():
            for d in node.dim_names:
                if node.has_dim(d) is None and rng.rand() < 0.5:
                    node.set_dim(d, int(rng.randint(1, 5)))
            for p in node.param_names:
                if rng.rand() < 0.75:
                    shape = tuple(rng.randint(0, 4, size=rng.randint(0, 4)))
                    a = rng.standard_normal(shape).astype(rng.choice(["f", "d", "f"]))
                    if a.ndim > 1 and rng.rand() < 0.3:
                        a = np.asfortranarray(a)
                    elif a.ndim and rng.rand() < 0.2:
                        a = a[::-1]
                    node.set_param(p, np.asarray(a))
            for s in node.shims:
                s._model["v"] = int(rng.randint(1, 99))
        return
    m.initialize(X=X)
    for _, node, name in zoo.params(m):
        v = (rng.standard_normal(node.get_param(name).shape) * 0.5).astype("f")
        if node.name == "cauchy_similarity":
            v = np.abs(v) + 0.1
        node.set_param(name, v)
    for node in m.walk():
        for s in node.shims:
            import torch

            with torch.no_grad():
                for p in s._model.parameters():
                    p.copy_(torch.tensor(np.asarray(rng.standard_normal(tuple(p.shape)), "f") * 0.5))
    if histories and rng.rand() < 0.6:
        from thinc.api import SGD

        Y, bp = m(X, True)
        bp(dy(fam, m, X, Y, rng))
        if rng.rand() < 0.6:
            m.finish_update(SGD(0.01))


def dy(fam, m, X, Y, rng):
    d = cont.rand_like(rng, Y)
    return fam.pre(m, X, Y, d) if fam.pre else d


def route(rng, tmp):
    k = str(rng.choice(["bytes", "bytes", "dict", "disk-str", "disk-path"]))
    path = Path(tmp) / f"m{rng.randint(10**9)}"

    def save(m):
        if k == "bytes":
            return m.to_bytes()
        if k == "dict":
            return m.to_dict()
        m.to_disk(str(path) if k == "disk-str" else path)
        return path

    def load(m, data):
        if k == "bytes":
            return m.from_bytes(data)
        if k == "dict":
            return m.from_dict(data)
        return m.from_disk(str(data) if k == "disk-str" else data)

    def can(m, data, strict):
        f = {"b": m.can_from_bytes, "d": m.can_from_dict}.get(k[0] if k != "disk-str" and k != "disk-path" else "", m.can_from_disk)
        return f(data, strict=strict)

    return k, save, load, can


def outputs(fam, m, X, seed):
    np.random.seed(seed)
    return m.predict(X)


def close(ctx, a, b, mech, msg):
    la, lb = cont.leaves(a), cont.leaves(b)
    if not ctx.check(len(la) == len(lb), mech, f"{msg}: number of arrays"):
        return
    for x, y in zip(la, lb):
        if x.dtype.kind == "f":
            s = float(np.abs(x).max()) if x.size else 1.0
            ctx.close(y, x, mech, msg, rtol=1e-5, atol=1e-6 * max(s, 1e-2))
        else:
            ctx.check(x.shape == y.shape and np.array_equal(x, y), mech, msg)


@group(120, 30000, 100)
def round_trip(ctx, rng):
    fam = family(rng)
    tmp = tempfile.mkdtemp(prefix="p05-")
    try:
        _round_trip(ctx, rng, fam, tmp)
    finally:
        shutil.rmtree(tmp)


def _round_trip(ctx, rng, fam, tmp):
    A, B = fam.build(), fam.build()
    X = fam.make(rng)
    bring(rng, fam, A, X)
    if rng.rand() < 0.5 and fam.name != "graph":
        bring(rng, fam, B, fam.make(rng))
    elif rng.rand() < 0.3:
        B.initialize() if False else None
    changed_attr = False
    if rng.rand() < 0.3:
        nodes = list(A.walk())
        n = nodes[rng.randint(len(nodes))]
        v = attr_value(rng)
        n.attrs["extra"] = list(v) if isinstance(v, tuple) else v
    if rng.rand() < 0.3:
        cands = [n for n in A.walk() if "dropout_rate" in n.attrs]
        if cands:
            cands[0].attrs["dropout_rate"] = 0.25
            changed_attr = True
    k, save, load, can = route(rng, tmp)
    ctx.describe(fam.name, route=k, nodes=len(list(A.walk())))
    ctx.sig(fam.name, k, A.name, len(list(A.walk())), repr(cont.structure(X)))
    ctx.note(f"route_{k}")
    before = snap.snapshot(A)
    data = save(A)
    ctx.check(snap.diff(before, snap.snapshot(A)) is None, "saving-changes-model", f"{fam.name} {k}: {snap.diff(before, snap.snapshot(A))}")
    bytes1 = A.to_bytes()
    bB = snap.snapshot(B)
    for strict in (True, False):
        r = can(B, data, strict)
        ctx.check(isinstance(r, bool), "compatible-type", str(type(r)))
        if not (strict and changed_attr):
            ctx.check(r is True, "compatible-refused", f"{fam.name} {k} strict={strict}")
        else:
            ctx.check(r is False, "attribute-difference-accepted", f"{fam.name} {k}: a changed attribute is accepted strictly")
    ctx.check(snap.diff(bB, snap.snapshot(B)) is None, "compatible-changes-model", f"{snap.diff(bB, snap.snapshot(B))}")
    ret = load(B, data)
    ctx.check(ret is B, "load-returns-model", f"{type(ret)}")
    d = snap.diff(snap.snapshot(A, grads=False, ids=False), snap.snapshot(B, grads=False, ids=False), skip=("func",))
    if d is not None and "attrs" in d and ("'object'" in d or "slice" in d):
        d = snap.diff(snap.snapshot(A, grads=False, ids=False, attrs=False), snap.snapshot(B, grads=False, ids=False, attrs=False), skip=("func",))
    mech = "loaded-differs" if d is None or "attrs" not in d else "loaded-attribute-differs"
    ctx.check(d is None, mech, f"{fam.name} {k}: {d}")
    ctx.check(snap.diff(before, snap.snapshot(A)) is None, "loading-changes-source", f"{fam.name} {k}")
    sh = snap.shared(A, B)
    ctx.check(not sh, "loaded-shares-arrays", f"{fam.name} {k}: {sh[:3]}")
    sc = snap.shared_containers(A, B) if k == "dict" else []
    ctx.check(not sc, "loaded-shares-attributes", f"{fam.name} {k}: {sc[:3]}")
    bytes2 = B.to_bytes()
    ctx.check(bytes1 == bytes2, "bytes-not-stable", f"{fam.name} {k}: {len(bytes1)} and {len(bytes2)} bytes")
    ctx.check(A.to_bytes() == bytes1, "bytes-not-deterministic", fam.name)
    ctx.check(B.can_from_bytes(bytes2) is True, "own-bytes-refused", fam.name)
    if k == "dict" and rng.rand() < 0.5:
        C = fam.build()
        C.from_dict(data)
        sh = snap.shared(C, B)
        ctx.check(not sh, "loaded-shares-arrays", f"{fam.name} two models loaded from one dict: {sh[:3]}")
    if fam.name == "graph":
        close(ctx, A.predict(X), B.predict(X), "prediction-differs", f"{fam.name} {k}")
        return
    close(ctx, A.predict(X), B.predict(X), "prediction-differs", f"{fam.name} {k}")
    # train both
    for m in (A, B):
        snap.clear_grads(m)
    if changed_attr:
        return
    from thinc.api import Adam

    oa, ob = Adam(0.01), Adam(0.01)
    for step in range(2):
        X = fam.make(rng)
        s = int(rng.randint(10**6))
        np.random.seed(s)
        Ya, ba = A(X, True)
        np.random.seed(s)
        Yb, bb = B(X, True)
        close(ctx, Ya, Yb, "training-differs", f"{fam.name} step {step}")
        d = dy(fam, A, X, Ya, rng)
        close(ctx, ba(cont.copy(d)), bb(cont.copy(d)), "training-gradient-differs", f"{fam.name} step {step}")
        keep = snap.snapshot(A)
        B.finish_update(ob)
        ctx.check(snap.diff(keep, snap.snapshot(A)) is None, "loaded-not-independent", f"{fam.name}: {snap.diff(keep, snap.snapshot(A))}")
        A.finish_update(oa)
    for (_, na, p), (_, nb, q) in zip(zoo.params(A), zoo.params(B)):
        ctx.close(nb.get_param(q), na.get_param(p), "training-parameters-differ", f"{fam.name} {p}", rtol=1e-3, atol=2e-3)


def expected(A, B, strict):
    """Is A's data compatible with B? True / False / None (either)."""
    na, nb = list(A.walk()), list(B.walk())
    if len(na) != len(nb):
        return False
    unsure = False
    for x, y in zip(na, nb):
        if len(x.shims) != len(y.shims):
            return False
        if strict and x.name != y.name:
            return False
        for d in x.dim_names:
            if y.has_dim(d) is False:
                return False
            if y.has_dim(d) and x.has_dim(d) and x.get_dim(d) != y.get_dim(d):
                return False
            if y.has_dim(d) and not x.has_dim(d):
                unsure = True
        for p in x.param_names:
            if y.has_param(p) is False:
                return False
            if y.has_param(p) and x.has_param(p) and x.get_param(p).shape != y.get_param(p).shape:
                return False
        if set(x.ref_names) - set(y.ref_names):
            unsure = True
        if set(y.dim_names) - set(x.dim_names) or set(y.param_names) - set(x.param_names):
            unsure = True
        if strict:
            for k, v in x.attrs.items():
                if k in y.attrs:
                    a, b = snap.attr_repr(v), snap.attr_repr(y.attrs[k])
                    if a != b:
                        if "object" in (a[0], b[0]) or "slice" in str(a) + str(b):
                            unsure = True
                        elif norm(v) == norm(y.attrs[k]):
                            unsure = True
                        else:
                            return False
    # a different arrangement of the same nodes cannot be told from the data
    pa = {id(n): i for i, n in enumerate(na)}
    pb = {id(n): i for i, n in enumerate(nb)}
    if [[pa[id(c)] for c in n.layers] for n in na] != [[pb[id(c)] for c in n.layers] for n in nb]:
        return None
    return None if unsure else True


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    return v


class Extra(Shim):
    """Something outside of the parameters that a node keeps and saves."""

    def to_bytes(self):
        return repr(self._model).encode()

    def from_bytes(self, data):
        self._model = eval(bytes(data).decode(), {})
        return self


def perturb(rng, A, B):
    """Make B (or A) incompatible (or not) in one place."""
    nodes = list(B.walk())
    i = int(rng.randint(len(nodes)))
    n = nodes[i]
    k = rng.randint(8)
    if k >= 6:
        side = [[A], [B], [A, B]][rng.randint(3)]
        for m in side:
            list(m.walk())[i].shims.append(Extra({"v": int(rng.randint(9))}))
        return "shim"
    if k == 0:
        n.name = n.name + "x"
        return "renamed"
    if k == 1 and n.dim_names:
        d = str(rng.choice(sorted(n.dim_names)))
        snap.put_dim(n, d, int(rng.randint(0, 6)))
        return f"dim {d}"
    if k == 2 and n.param_names:
        p = str(rng.choice(sorted(n.param_names)))
        n.set_param(p, np.zeros(tuple(rng.randint(1, 4, size=rng.randint(1, 3))), "f"))
        return f"param {p}"
    if k == 3 and n.attrs:
        cands = [a for a, v in n.attrs.items() if isinstance(v, (int, float, bool, str))]
        if cands:
            a = str(rng.choice(cands))
            n.attrs[a] = "other" if isinstance(n.attrs[a], str) else (not n.attrs[a] if isinstance(n.attrs[a], bool) else n.attrs[a] + 1)
            return f"attr {a}"
    if k == 4:
        n.layers.append(Model("added", _fwd))
        return "node added"
    if k == 5:
        cands = [m for m in nodes if m.layers]
        if cands:
            cands[rng.randint(len(cands))].layers.pop()
            return "node removed"
    return "same"


@group(80, 20000, 80)
def compatibility(ctx, rng):
    fam = family(rng)
    A = fam.build()
    X = fam.make(rng)
    bring(rng, fam, A, X)
    other = rng.rand() < 0.3
    fam2 = family(rng, fam.name if fam.name in FACTORIES else None) if other else fam
    B = fam2.build()
    if rng.rand() < 0.5 and fam2.name != "graph":
        bring(rng, fam2, B, fam2.make(rng), histories=False)
    what = "other" if other else perturb(rng, A, B)
    tmp = tempfile.mkdtemp(prefix="p05-")
    try:
        k, save, load, can = route(rng, tmp)
        data = save(A)
        strict = bool(rng.rand() < 0.5)
        want = expected(A, B, strict)
        ctx.describe(fam.name, fam2.name, what=what, strict=strict, route=k, want=want)
        ctx.sig(fam.name, fam2.name, what, strict, k, A.name)
        keep = snap.snapshot(B)
        got = can(B, data, strict)
        ctx.note(f"expected_{want}")
        ctx.check(snap.diff(keep, snap.snapshot(B)) is None, "compatible-changes-model", f"{snap.diff(keep, snap.snapshot(B))}")
        ctx.check(isinstance(got, bool), "compatible-type", str(type(got)))
        if want is False:
            ctx.check(got is False, f"incompatible-accepted:{what.split()[0]}", f"{fam.name}/{fam2.name}: {what}, strict={strict}")
        elif want is True:
            ctx.check(got is True, f"compatible-refused:{what.split()[0]}", f"{fam.name}/{fam2.name}: {what}, strict={strict}")
        if got and want is not None:
            try:
                load(B, data)
            except Exception as e:
                if isinstance(e, RuntimeError) and torch_layout(A) != torch_layout(B):
                    # the known finding: wrapped weights are not looked at
                    return ctx.check(False, "torch-weights-not-checked", f"{fam.name}: {what}: {e}")
                return ctx.check(False, f"compatible-but-load-fails:{what.split()[0]}", f"{fam.name}: {what}, strict={strict}: {type(e).__name__} {e}")
            d = snap.diff(snap.snapshot(A, grads=False, ids=False, attrs=False), snap.snapshot(B, grads=False, ids=False, attrs=False), skip=("func",))
            ctx.check(d is None, "compatible-load-differs", f"{fam.name}: {what} {d}")
            if fam2 is fam and want:
                close(ctx, A.predict(X), B.predict(X), "compatible-load-prediction", f"{fam.name} {what}")
    finally:
        shutil.rmtree(tmp)


class Plain:
    """A value no serialiser knows."""


@group(30, 8000, 30)
def one_difference(ctx, rng):
    """Two trees that agree but for one thing at one place: the answer depends on
    that thing alone, wherever it is and whatever stands beside it."""

    def build():
        r = np.random.RandomState(seed)
        nodes = []
        for i in range(int(r.randint(1, 7))):
            kids = [nodes[j] for j in r.randint(0, len(nodes), size=int(r.randint(0, 3)))] if nodes else []
            names = ["a", "b", "c", "d", "e"][: r.randint(2, 6)]
            attrs = {k: (Plain() if r.rand() < 0.3 else int(r.randint(50))) for k in names}
            nodes.append(Model(f"n{i}", _fwd, layers=kids, dims={d: int(r.randint(1, 6)) for d in list("xyz")[: r.randint(1, 4)]},
                               params={p: np.zeros(tuple(r.randint(1, 4, size=r.randint(1, 3))), "f") for p in list("WbQ")[: r.randint(1, 4)]}, attrs=attrs))
        return Model("root", _fwd, layers=nodes[-int(r.randint(1, 3)):], dims={"x": 3}, params={"W": np.zeros((2, 3), "f")}, attrs={"f": Plain(), "v": 1})

    seed = int(rng.randint(2**31))
    A, B = build(), build()
    nodes = list(B.walk())
    i = int(rng.randint(len(nodes)))
    n = nodes[i]
    k = int(rng.randint(6))
    strict = bool(rng.rand() < 0.6)
    want = False
    if k == 0:
        n.name, want = n.name + "'", not strict
    elif k == 1:
        d = str(rng.choice(sorted(n.dim_names)))
        snap.put_dim(n, d, n.get_dim(d) + 1)
    elif k == 2:
        p = str(rng.choice(sorted(n.param_names)))
        v = n.get_param(p)
        n.set_param(p, [np.zeros(v.shape + (1,), "f"), np.zeros((v.shape[0] + 1,) + v.shape[1:], "f"), np.zeros((0,) + v.shape[1:], "f")][rng.randint(3)])
    elif k == 3:
        names = [a for a, v in n.attrs.items() if not isinstance(v, Plain)]
        if not names:
            return ctx.skip("no plain attribute")
        a = names[rng.randint(len(names))]
        n.attrs[a], want = n.attrs[a] + 1, not strict
        for b in names:  # beside it, values here that are saved there only
            if b != a and rng.rand() < 0.3:
                n.attrs[b] = Plain()
    elif k == 4:
        for a, v in n.attrs.items():  # values that are not saved do not count
            if isinstance(v, Plain):
                n.attrs[a] = Plain()
        want = True
    else:
        for p in n.param_names:
            n.set_param(p, n.get_param(p) + 1)
        want = True
    tmp = tempfile.mkdtemp(prefix="p05-")
    try:
        r, save, load, can = route(rng, tmp)
        data = save(A)
        ctx.describe(k=k, node=i, of=len(nodes), strict=strict, want=want, route=r)
        ctx.sig(k, i, len(nodes), bool(n.layers), strict, r)
        got = can(B, data, strict)
        ctx.check(got is want, f"one-difference:{['name', 'dim', 'param', 'attr', 'unsaved', 'values'][k]}", f"node {i} ({n.name}) of {len(nodes)}, strict={strict}: {got}")
        if want:
            load(B, data)
            d = snap.diff(snap.snapshot(A, ids=False, attrs=False), snap.snapshot(B, ids=False, attrs=False), skip=("func",))
            ctx.check(d is None, "compatible-load-differs", f"{d}")
            for x, y in zip(A.walk(), B.walk()):
                for a, v in x.attrs.items():
                    if not isinstance(v, Plain):
                        ctx.check(y.attrs[a] == v, "loaded-attribute-differs", f"{x.name}.{a}: {y.attrs[a]} for {v}")
    finally:
        shutil.rmtree(tmp)


def torch_layout(m):
    return [[{k: tuple(v.shape) for k, v in s._model.state_dict().items()} for s in n.shims if not isinstance(s, Extra)] for n in m.walk()]


@group(1, 10, 1)
def torch_compatibility(ctx, rng):
    """The known finding, deterministically: data of a wrapped torch module with
    weights of other shapes."""
    import torch

    from thinc.api import PyTorchWrapper

    A, B = PyTorchWrapper(torch.nn.Linear(2, 3)), PyTorchWrapper(torch.nn.Linear(2, 4))
    got = B.can_from_bytes(A.to_bytes())
    failed = None
    try:
        B.from_bytes(A.to_bytes())
    except Exception as e:
        failed = e
    ctx.check(bool(got) == (failed is None), "torch-weights-not-checked", f"can_from_bytes says {got}, loading: {failed}")
    C, D = PyTorchWrapper(torch.nn.Linear(2, 3)), PyTorchWrapper(torch.nn.Linear(2, 3))
    ctx.check(D.can_from_bytes(C.to_bytes()) is True, "compatible-refused:torch", "same torch module")


@group(30, 8000, 30)
def malformed(ctx, rng):
    """Data that is no saved model is answered no."""
    import srsly

    fam = family(rng)
    A = fam.build()
    X = fam.make(rng)
    bring(rng, fam, A, X, histories=False)
    data = A.to_bytes()
    B = fam.build()
    k = rng.randint(5)
    if k == 0:
        bad = data[: rng.randint(0, len(data))]
    elif k == 1:
        bad = srsly.msgpack_dumps([None, 3, [1], "abc", {"a": 1}, 2.5, True][rng.randint(7)])
    elif k == 2:
        bad = bytes(rng.randint(0, 256, size=int(rng.randint(0, 20))).astype("uint8"))
    elif k == 3:
        bad = data + b"\x00"
    else:
        bad = b"{}"
    ctx.describe(fam.name, kind=int(k), n=len(bad))
    ctx.sig(fam.name, int(k), bad[:60])
    keep = snap.snapshot(B)
    try:
        got = B.can_from_bytes(bad)
    except Exception as e:
        ctx.check(False, "malformed-raises", f"kind {k}: {type(e).__name__}: {e}")
        return
    ctx.check(got is False, "malformed-accepted", f"kind {k}: {bad[:40]!r}")
    ctx.check(snap.diff(keep, snap.snapshot(B)) is None, "compatible-changes-model")
    tmp = tempfile.mkdtemp(prefix="p05-")
    try:
        p = Path(tmp) / "x"
        ctx.check(B.can_from_disk(p) is False, "missing-file-accepted")
        ctx.check(B.can_from_disk(Path(tmp)) is False, "directory-accepted")
        ctx.check(B.can_from_disk(str(p)) is False, "missing-file-accepted")
        p.write_bytes(bad)
        ctx.check(B.can_from_disk(p) is False, "malformed-accepted")
    finally:
        shutil.rmtree(tmp)


class Custom:
    def __init__(self, v):
        self.v = v


@group(10, 2000, 10)
def custom_attributes(ctx, rng):
    """Registered attribute (de)serialisers are used, with the model at hand;
    attributes that cannot be serialised are left alone."""
    import srsly

    from thinc.model import deserialize_attr, serialize_attr

    calls = []

    @serialize_attr.register(Custom)
    def ser(_, value, name, model):
        calls.append(("ser", name, model))
        return srsly.msgpack_dumps(value.v)

    @deserialize_attr.register(Custom)
    def des(_, value, name, model):
        calls.append(("des", name, model))
        return Custom(srsly.msgpack_loads(value))

    v = attr_value(np.random.RandomState(rng.randint(11)))
    while isinstance(v, tuple):
        v = 3
    fn = lambda x: x
    A = Model("m", _fwd, attrs={"c": Custom(v), "f": fn, "n": 1}, layers=[Model("k", _fwd, attrs={"c": Custom(7)})])
    g = lambda x: -x
    B = Model("m", _fwd, attrs={"c": Custom(None), "f": g, "n": 2}, layers=[Model("k", _fwd, attrs={"c": Custom(0)})])
    ctx.describe(v=str(v))
    ctx.sig(repr(v))
    data = A.to_bytes() if rng.rand() < 0.5 else A.to_dict()
    (B.from_bytes if isinstance(data, bytes) else B.from_dict)(data)
    ctx.check(isinstance(B.attrs["c"], Custom) and snap.attr_repr(B.attrs["c"].v) == snap.attr_repr(v), "custom-attribute", f"{B.attrs['c']} for {v!r}")
    ctx.check(B.layers[0].attrs["c"].v == 7, "custom-attribute", "child")
    ctx.check(B.attrs["f"] is g and A.attrs["f"] is fn, "unserialisable-attribute", "function attribute changed")
    ctx.check(B.attrs["n"] == 1, "custom-attribute", "plain attribute beside it")
    ctx.check(("ser", "c", A) in calls and ("des", "c", B) in calls, "custom-attribute-model", "wrong model or name handed over")


@group(20, 4000, 20)
def torch_models(ctx, rng):
    """Wrapped torch state survives all routes, also buffers."""
    import torch

    from thinc.api import Linear, PyTorchWrapper_v2, PyTorchWrapper_v3, chain

    nI, nO = int(rng.choice([1, 3])), int(rng.choice([2, 4]))
    bn = bool(rng.rand() < 0.5)
    wrap = [PyTorchWrapper_v2, PyTorchWrapper_v3][rng.randint(2)]
    two = bool(rng.rand() < 0.4)

    def net():
        parts = [torch.nn.Linear(nI, nO)]
        if bn:
            parts.append(torch.nn.BatchNorm1d(nO))
        return torch.nn.Sequential(*parts)

    def build():
        parts = [wrap(net()), Linear(2, nO)]
        if two:
            parts.append(wrap(torch.nn.Linear(2, 2)))
        m = chain(*parts)
        m.initialize(X=np.zeros((3, nI), "f"))
        return m

    A, B = build(), build()
    X = rng.standard_normal((5, nI)).astype("f")
    for _ in range(int(rng.randint(0, 3))):
        Y, bp = A(X, True)
        bp(np.ones_like(Y))
        A.finish_update(lambda k, w, g, **kw: (w - 0.1 * g, g * 0))
    configs = [{}, {"a": 1}, {"a": [1, "x"], "b": None}, {"c": {"d": 2.5}}]
    for m in (A, B):
        for node in m.walk():
            for shim in node.shims:
                if rng.rand() < 0.5:
                    shim.cfg = configs[rng.randint(len(configs))]
    tmp = tempfile.mkdtemp(prefix="p05-")
    try:
        k, save, load, can = route(rng, tmp)
        ctx.describe(k, bn=bn, two=two)
        ctx.sig(k, bn, two, nI, nO, wrap.__name__)
        keep = snap.snapshot(A)
        data = save(A)
        ctx.check(can(B, data, True), "compatible-refused", "torch")
        load(B, data)
        ctx.check(snap.diff(keep, snap.snapshot(A)) is None, "saving-changes-model", f"torch {k}: {snap.diff(keep, snap.snapshot(A))}")
        d = snap.diff(snap.snapshot(A, grads=False, ids=False, attrs=False), snap.snapshot(B, grads=False, ids=False, attrs=False), skip=("func",))
        ctx.check(d is None, "loaded-differs", f"torch {k}: {d}")
        ctx.check(not snap.shared(A, B), "loaded-shares-arrays", f"torch {k} {snap.shared(A, B)[:2]}")
        cfgs = [[s.cfg for n in m.walk() for s in n.shims] for m in (A, B)]
        ctx.check(cfgs[0] == cfgs[1], "loaded-differs", f"torch {k}: shim configuration {cfgs}")
        ctx.close(B.predict(X), A.predict(X), "prediction-differs", f"torch {k}")
        ctx.check(A.to_bytes() == B.to_bytes(), "bytes-not-stable", f"torch {k}")
    finally:
        shutil.rmtree(tmp)
