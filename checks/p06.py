"""P06: a copy of a model is equivalent to and independent of the original.

Monitor: models in arbitrary states (any layer, compositions with shared nodes,
graphs with references and unset values, wrapped torch modules) are copied -
also copies of copies, and copies of subtrees; a snapshot oracle compares the
two, an aliasing monitor looks for shared memory and shared containers, and
then random operations are applied to one side while the other's snapshot must
not move."""
import copy as pycopy

import numpy as np

from checks import p05
from thinc.api import Model
from vlib import cont, snap, zoo
from vlib.core import group

QUICK_X = 20


def identity_structure(m):
    """Which child slots hold the same object."""
    nodes = list(m.walk())
    pos = {id(n): i for i, n in enumerate(nodes)}
    return [[pos[id(c)] for c in n.layers] for n in nodes], [[id(s) for s in n.shims] for n in nodes]


def shim_structure(m):
    seen = {}
    return [[seen.setdefault(id(s), len(seen)) for s in n.shims] for n in m.walk()]


def random_operation(rng, fam, m, X):
    """Do something to m; returns what."""
    nodes = list(m.walk())
    n = nodes[rng.randint(len(nodes))]
    k = rng.randint(9)
    if k == 0:
        for node in nodes:
            for p in node.param_names:
                if node.has_param(p):
                    node.get_param(p)[...] = 3.0
        return "params-in-place"
    if k == 1:
        for node in nodes:
            for p in node.param_names:
                if node.has_param(p):
                    node.set_param(p, np.ones_like(node.get_param(p)))
        return "params-set"
    if k == 2:
        for node in nodes:
            for p in node.param_names:
                if node.has_param(p):
                    node.inc_grad(p, np.ones_like(node.get_param(p)))
                    node.get_grad(p)[...] += 2
        return "grads"
    if k == 3:
        for d in n.dim_names:
            snap.put_dim(n, d, 99)
        n.name = "changed"
        return "dims"
    if k == 4:
        for node in nodes:
            for name, v in list(node.attrs.items()):
                mutate(v)
            node.attrs["new"] = 1
            if "dropout_rate" in node.attrs:
                node.attrs["dropout_rate"] = 0.77
        return "attrs"
    if k == 5:
        n.layers.append(Model("x", p05._fwd))
        return "append"
    if k == 6 and len(nodes) > 1:
        m.remove_node(nodes[-1])
        return "remove"
    if k == 7 and len(nodes) > 1:
        m.replace_node(nodes[-1], Model("y", p05._fwd))
        return "replace"
    if k == 8 and fam.name != "graph":
        from thinc.api import Adam

        Y, bp = m(X, True)
        bp(p05.dy(fam, m, X, Y, rng))
        m.finish_update(Adam(0.1))
        return "train"
    for node in nodes:
        for s in node.shims:
            import torch

            if isinstance(s, p05.Extra):
                s._model["v"] = -1
                continue
            with torch.no_grad():
                for q in s._model.parameters():
                    q.add_(1.0)
    return "torch"


def mutate(v):
    if isinstance(v, np.ndarray) and v.size:
        v[...] = 0 if v.dtype.kind != "U" else ""
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["__new__"] = 1
    elif isinstance(v, list):
        for x in v:
            mutate(x)
        v.append(1)
    elif isinstance(v, tuple):
        for x in v:
            mutate(x)


@group(150, 40000, 100)
def copies(ctx, rng):
    fam = p05.family(rng)
    A = fam.build()
    X = fam.make(rng)
    if fam.name == "graph" or rng.rand() < 0.9:
        p05.bring(rng, fam, A, X)
    if rng.rand() < 0.5:  # pending gradients
        for node in A.walk():
            for p in node.param_names:
                if node.has_param(p) and rng.rand() < 0.6:
                    node.set_grad(p, rng.standard_normal(node.get_param(p).shape).astype(node.get_param(p).dtype))
    if rng.rand() < 0.3:
        nodes = list(A.walk())
        nodes[rng.randint(len(nodes))].attrs["extra"] = p05.attr_value(rng)
    if rng.rand() < 0.3:
        for node in A.walk():
            for p in node.param_names:
                if rng.rand() < 0.1 and fam.name == "graph":
                    node.set_param(p, None)
    depth = int(rng.choice([1, 1, 2]))
    ctx.describe(fam.name, nodes=len(list(A.walk())), depth=depth)
    before = snap.snapshot(A)
    B = A
    for _ in range(depth):
        prev = B
        B = B.copy()
        ctx.check(snap.diff(before, snap.snapshot(A)) is None, "copying-changes-original", f"{fam.name}: {snap.diff(before, snap.snapshot(A))}")
        ida, idb = {n.id for n in prev.walk()}, [n.id for n in B.walk()]
        ctx.check(not ida & set(idb), "ids-repeated", f"{fam.name}: {sorted(ida & set(idb))[:4]}")
        ctx.check(len(set(idb)) == len(idb), "ids-not-unique", fam.name)
        sa, sb = [s.id for n in prev.walk() for s in n.shims], [s.id for n in B.walk() for s in n.shims]
        ctx.check(not set(sa) & set(sb), "shim-ids-repeated", f"{sa} {sb}")
    sA, sB = snap.snapshot(A, ids=False), snap.snapshot(B, ids=False)
    skip = []
    for s in (sA, sB):
        for n in s:
            n["attrs"] = {k: v for k, v in n["attrs"].items() if "'object'" not in repr(v) and v[0] != "object"}
    d = snap.diff(sA, sB)
    ctx.check(d is None, "copy-differs", f"{fam.name}: {d}")
    ctx.check(set().union(*[set(n.attrs) for n in A.walk()]) == set().union(*[set(n.attrs) for n in B.walk()]), "copy-attributes", fam.name)
    ctx.check([n.param_names for n in A.walk()] == [n.param_names for n in B.walk()], "copy-params", fam.name)
    ctx.check([[n.has_param(p) for p in n.param_names] for n in A.walk()] == [[n.has_param(p) for p in n.param_names] for n in B.walk()], "copy-unset-params", fam.name)
    ctx.check([type(n.ops) for n in A.walk()] == [type(n.ops) for n in B.walk()], "copy-ops", fam.name)
    ctx.check(shim_structure(A) == shim_structure(B), "copy-shared-shims", fam.name)
    ctx.check(all(a is not b for a, b in zip(A.walk(), B.walk())), "copy-shares-node", fam.name)
    sh = snap.shared(A, B)
    ctx.check(not sh, "copy-shares-arrays", f"{fam.name}: {sh[:3]}")
    sc = snap.shared_containers(A, B)
    ctx.check(not sc, "copy-shares-attributes", f"{fam.name}: {sc[:3]}")
    run = fam.name == "graph" or all(n.has_param(p) for n in A.walk() for p in n.param_names)
    if run:
        p05.close(ctx, A.predict(X), B.predict(X), "copy-prediction", fam.name)
        if fam.name != "graph":
            s = int(rng.randint(10**6))
            np.random.seed(s)
            Ya, ba = A(X, True)
            np.random.seed(s)
            Yb, bb = B(X, True)
            dY = p05.dy(fam, A, X, Ya, rng)
            ga = {k: np.array(v) for k, v in zoo.grads(A).items()}
            p05.close(ctx, ba(cont.copy(dY)), bb(cont.copy(dY)), "copy-callback", fam.name)
            for k, v in zoo.grads(A).items():
                ctx.close(zoo.grads(B).get(k, np.zeros(0)), v, "copy-gradients", f"{fam.name} {k}", rtol=1e-4, atol=1e-4 * max(1.0, float(np.abs(v).max()) if v.size else 1.0))
    # one side changes, the other must not
    first, second = (A, B) if rng.rand() < 0.5 else (B, A)
    keep = snap.snapshot(second)
    ops = []
    for _ in range(int(rng.randint(1, 4))):
        try:
            ops.append(random_operation(rng, fam if run else p05.Fam("graph", None, None), first, X))
        except Exception:  # the edited model need not run
            ops.append("failed")
        d = snap.diff(keep, snap.snapshot(second))
        ctx.check(d is None, f"not-independent:{ops[-1]}", f"{fam.name}: after {ops}: {d}")
        ctx.note(f"op_{ops[-1]}")
    if run:
        try:
            Y = second.predict(X)
        except Exception as e:
            ctx.check(False, "not-independent:prediction", f"{fam.name}: after {ops} on the other: {type(e).__name__} {e}")
    ctx.sig(fam.name, A.name, tuple(ops), depth)


@group(40, 8000, 40)
def subtree_copies(ctx, rng):
    """Copying one node of a tree (used inside clone, bidirectional) leaves the
    tree alone and is independent of it."""
    fam = p05.family(rng)
    A = fam.build()
    X = fam.make(rng)
    p05.bring(rng, fam, A, X)
    nodes = list(A.walk())
    n = nodes[rng.randint(len(nodes))]
    before = snap.snapshot(A)
    part = snap.snapshot(n, ids=False, attrs=False)
    c = n.copy()
    ctx.describe(fam.name, node=n.name)
    ctx.sig(fam.name, n.name, A.name)
    d = snap.diff(part, snap.snapshot(c, ids=False, attrs=False))
    ctx.check(d is None, "copy-differs", f"{fam.name}/{n.name}: {d}")
    ctx.check(snap.diff(before, snap.snapshot(A)) is None, "copying-changes-original", fam.name)
    ctx.check(not snap.shared(n, c), "copy-shares-arrays", f"{fam.name}/{n.name}")
    ctx.check(not snap.shared_containers(n, c), "copy-shares-attributes", f"{fam.name}/{n.name}")
    for node in c.walk():
        for p in node.param_names:
            if node.has_param(p):
                node.get_param(p)[...] = 9
    ctx.check(snap.diff(before, snap.snapshot(A)) is None, "not-independent:params-in-place", fam.name)


@group(30, 6000, 30)
def surroundings(ctx, rng):
    """A copy keeps the operations of every node and holds on to nothing outside
    of itself, whatever operations are current when it is made."""
    from thinc.api import NumpyOps, use_ops

    class Other(NumpyOps):
        pass

    kinds = [NumpyOps(), NumpyOps(use_blis=False), Other(), Other()]
    r = rng
    nodes = []
    for i in range(int(r.randint(2, 7))):
        kids = [nodes[j] for j in r.randint(0, len(nodes), size=int(r.randint(0, 3)))] if nodes else []
        nodes.append(Model(f"n{i}", p05._fwd, layers=kids, params={"W": np.full(2, i, "f")}, refs={"r": None, "s": None}, ops=kinds[r.randint(4)]))
    root = Model("root", p05._fwd, layers=nodes[-2:], refs={"top": None}, ops=kinds[r.randint(4)])
    tree = list(root.walk())
    for n in tree:
        for f in n.ref_names:
            sub = list(n.walk())
            if r.rand() < 0.7:
                n.set_ref(f, sub[r.randint(len(sub))])
    cut = None
    if r.rand() < 0.6:  # a node that is referred to leaves the tree
        held = [(n, f) for n in tree for f in n.ref_names if n.maybe_get_ref(f) is not None]
        if held:
            n, f = held[r.randint(len(held))]
            cut = n.get_ref(f)
            for x in tree:
                x.layers[:] = [c for c in x.layers if c is not cut]
    old = list(root.walk())
    before = snap.snapshot(root)
    with use_ops("numpy", use_blis=bool(r.rand() < 0.5)):
        c = root.copy()
    new = list(c.walk())
    ctx.describe(nodes=len(old), cut=cut is not None)
    ctx.sig(len(old), cut is not None, tuple(kinds.index(n.ops) for n in old))
    ctx.check(len(old) == len(new), "copy-differs", f"{len(old)} nodes, {len(new)}")
    for a, b in zip(old, new):
        ctx.check(type(a.ops) is type(b.ops) and getattr(a.ops, "use_blis", None) == getattr(b.ops, "use_blis", None), "copy-ops", f"{a.name}: {a.ops} and {b.ops}")
        for f in a.ref_names:
            x, y = a.maybe_get_ref(f), b.maybe_get_ref(f)
            ctx.check(y is None or any(y is n for n in new), "copy-refers-outside", f"{a.name}.{f}")
            if x is not None and any(x is n for n in a.walk()):
                ctx.check(y is not None and old.index(x) == [i for i, n in enumerate(new) if n is y][0], "copy-differs", f"reference {a.name}.{f}")
    ctx.check(snap.diff(before, snap.snapshot(root)) is None, "copying-changes-original", "surroundings")


@group(30, 6000, 30)
def wrapped_copies(ctx, rng):
    """Copies of models with replaced callbacks (debug, range wrappers) run their
    own layers."""
    import thinc.api as t

    nI, nO = int(rng.choice([1, 3])), int(rng.choice([2, 4]))
    log = []
    m = t.chain(t.Linear(nO, nI), t.Relu(2, nO))
    m.initialize(X=np.zeros((2, nI), "f"))
    k = int(rng.randint(3))
    w = [lambda x: t.with_debug(x, on_forward=lambda mm, X, tr: log.append(mm.id)), t.with_nvtx_range,
         lambda x: t.with_signpost_interval(x, Stub())][k]
    if k == 2:
        from thinc import compat

        if not compat.has_os_signpost:
            k, w = 1, t.with_nvtx_range
    which = rng.randint(2)
    m = w(m) if which else t.chain(w(m.layers[0]), m.layers[1])
    for _, node, name in zoo.params(m):
        node.set_param(name, rng.standard_normal(node.get_param(name).shape).astype("f"))
    X = rng.standard_normal((3, nI)).astype("f")
    c = m.copy()
    ctx.describe(k=k, which=which)
    ctx.sig(k, which, nI, nO)
    y0 = m.predict(X)
    ctx.close(c.predict(X), y0, "copy-prediction", "wrapped")
    for node in c.walk():
        for p in node.param_names:
            if node.has_param(p):
                node.set_param(p, np.zeros_like(node.get_param(p)))
    ctx.close(m.predict(X), y0, "not-independent:params-set", "wrapped")
    ctx.check(not np.any(c.predict(X)), "copy-runs-original", "the copy uses parameters of the original")
    Y, bp = c(X, True)
    bp(np.ones_like(Y))
    ctx.check(all(not node.has_grad(p) for node in m.walk() for p in node.param_names), "copy-trains-original", "gradients arrive in the original")


class Stub:
    pass
