"""P08: tree traversal and editing keep the model graph consistent.

Monitor: random DAG-shaped models with shared nodes, references and attributes
are edited by random sequences of operations (append, replace, remove, set
reference, wrap recursively, change attributes or dropout rates, copy); a plain
graph kept by the harness receives the same edits by their documented meaning,
and after every step an observer compares every node: identity of children,
references, attributes, walks in the three orders, and the reported result.
Ids are watched for uniqueness over the whole run, also under threads."""
import sys
import threading

import numpy as np

from checks import p05
from thinc.api import Model, chain, noop, wrap_model_recursive
from thinc.model import change_attr_values, set_dropout_rate
from vlib import compose, snap, zoo
from vlib.core import group

QUICK_X = 8
IDS = {}  # id -> weak description of the first owner (strong refs kept: ids are for the process)
KEEP = []


def fwd(model, X, is_train):
    Y = X
    for layer in model.layers:
        Y, _ = layer(Y, is_train)
    return Y + 1, lambda dY: dY


class G:
    """The graph as it should be: children, references, attributes by node."""

    def __init__(self):
        self.kids, self.refs, self.attrs, self.names = {}, {}, {}, {}
        self.nodes = {}

    def add(self, m, kids=(), refs=None, attrs=None):
        k = id(m)
        self.nodes[k] = m
        self.kids[k] = [id(c) for c in kids]
        self.refs[k] = dict(refs or {})
        self.attrs[k] = dict(attrs or {})
        self.names[k] = m.name

    def learn(self, m):
        """Adopt a subtree the library built (wrappers)."""
        if id(m) in self.nodes:
            return
        self.add(m, m.layers, {r: (None if m.maybe_get_ref(r) is None else id(m.get_ref(r))) for r in m.ref_names}, m.attrs)
        for c in m.layers:
            self.learn(c)

    def reach(self, root):
        out, todo = [], [root]
        while todo:
            k = todo.pop(0)
            if k in out:
                continue
            out.append(k)
            todo.extend(self.kids[k])
        return out

    def dfs(self, root, post):
        out, seen = [], set()

        def go(k):
            if k in seen:
                return
            seen.add(k)
            if not post:
                out.append(k)
            for c in self.kids[k]:
                go(c)
            if post:
                out.append(k)

        go(root)
        return out


def observe(ctx, g, root, where):
    m = g.nodes[root]
    for order, want in [("bfs", g.reach(root)), ("dfs_pre", g.dfs(root, False)), ("dfs_post", g.dfs(root, True))]:
        got = [id(n) for n in m.walk(order=order)]
        ctx.check(sorted(got) == sorted(want), "walk-nodes", f"{where}: walk({order}) visits {[g.names.get(k) for k in got]}, reachable {[g.names[k] for k in want]}")
        ctx.check(got == want, f"walk-order-{order}", f"{where}: walk({order}) gives {[g.names.get(k) for k in got]}, documented order {[g.names[k] for k in want]}")
    ctx.check([id(n) for n in m.walk()] == g.reach(root), "walk-default", f"{where}: the default walk is not breadth-first")
    # every node the harness ever had is checked, also those outside the tree now
    for k, n in g.nodes.items():
        ctx.check([id(c) for c in n.layers] == g.kids[k], "children", f"{where}: children of {n.name} are {[c.name for c in n.layers]}, expected {[g.names[c] for c in g.kids[k]]}")
        refs = {r: (None if n.maybe_get_ref(r) is None else id(n.get_ref(r))) for r in n.ref_names}
        ctx.check(refs == g.refs[k], "references", f"{where}: references of {n.name}: {named(g, refs)}, expected {named(g, g.refs[k])}")
        ctx.check(dict(n.attrs) == g.attrs[k], "attributes", f"{where}: attributes of {n.name}: {n.attrs}, expected {g.attrs[k]}")
        ctx.check(n.name == g.names[k], "name", f"{where}: name of {n.name}")
        for r, v in refs.items():
            ctx.check(n.has_ref(r) is (True if v is not None else None), "has_ref", f"{where}: has_ref({r})")
    ids(ctx, g.nodes.values(), where)


def named(g, refs):
    return {r: g.names.get(v, "?") for r, v in refs.items()}


def ids(ctx, nodes, where):
    for n in nodes:
        owner = IDS.setdefault(n.id, n)
        ctx.check(owner is n, "id-not-unique", f"{where}: node {n.name} has the id {n.id} of another node ({owner.name})")


ATTRS = ["dropout_rate", "a", "b", "dropout_rate_2"]


def new_node(rng, g, kids=()):
    attrs = {str(a): float(rng.randint(5)) for a in rng.choice(ATTRS, size=rng.randint(0, 4), replace=False)}
    names = [str(r) for r in rng.choice(["r", "s", "t"], size=rng.randint(0, 3), replace=False)]
    m = Model(f"n{rng.randint(6)}", fwd, layers=list(kids), attrs=attrs, refs={r: None for r in names})
    g.add(m, kids, {r: None for r in names}, attrs)
    for r in names:
        if rng.rand() < 0.7:
            tree = g.reach(id(m))
            t = tree[rng.randint(len(tree))]
            m.set_ref(r, g.nodes[t])
            g.refs[id(m)][r] = t
    return m


def random_graph(rng, g, n=None):
    nodes = []
    for _ in range(int(n or (rng.randint(2, 9) if rng.rand() < 0.95 else rng.randint(9, 30)))):
        kids = [nodes[j] for j in rng.randint(0, len(nodes), size=int(rng.randint(0, 4) if rng.rand() < 0.9 else rng.randint(4, 40)))] if nodes else []
        nodes.append(new_node(rng, g, kids))
    root = new_node(rng, g, [nodes[-1]] + [nodes[j] for j in rng.randint(0, len(nodes), size=int(rng.randint(0, 3)))])
    return id(root)


def replace_in(g, root, old, new):
    """What replacing means."""
    for k in g.reach(root):
        if k == old:
            continue
        g.kids[k] = [new if c == old else c for c in g.kids[k]]
        for r, v in g.refs[k].items():
            if v == old:
                g.refs[k][r] = new


def clear_dangling(g, root, real=True):
    tree = g.reach(root)
    for k in tree:
        inside = set(g.reach(k))
        for r, v in g.refs[k].items():
            if v is not None and v not in inside:
                g.refs[k][r] = None
                if real:
                    g.nodes[k].set_ref(r, None)


@group(120, 40000, 100)
def edits(ctx, rng):
    g = G()
    root = random_graph(rng, g)
    log = []
    observe(ctx, g, root, "built")
    for _ in range(int(rng.randint(1, 7))):
        m = g.nodes[root]
        tree = g.reach(root)
        pick = tree[rng.randint(len(tree))]
        k = str(rng.choice(["append", "replace", "replace", "remove", "ref", "ref", "wrap", "attrs", "dropout", "absent"]))
        log.append(k)
        where = " ".join(log)
        if k == "append":
            n = new_node(rng, g)
            g.nodes[pick].layers.append(n)
            g.kids[pick].append(id(n))
        elif k == "replace":
            how = str(rng.choice(["leaf", "tree", "wrap", "existing"]))
            log[-1] += "-" + how
            if how == "leaf":
                new = new_node(rng, g)
            elif how == "tree":
                h = random_graph(rng, g, 3)
                new = g.nodes[h]
            elif how == "wrap":
                new = new_node(rng, g, [g.nodes[pick]])
            else:
                parents = [p for p in tree if pick in g.kids[p]]
                ok = [t for t in tree if t != pick and pick not in g.reach(t) and not any(p in g.reach(t) for p in parents)]
                if not ok:
                    continue
                new = g.nodes[ok[rng.randint(len(ok))]]
            got = m.replace_node(g.nodes[pick], new)
            ctx.check(got is (pick != root), "replace-report", f"{where}: replace_node returned {got} for {'the root' if pick == root else 'a node of the tree'}")
            replace_in(g, root, pick, id(new))
            observe(ctx, g, root, where)
            clear_dangling(g, root)
        elif k == "remove":
            if pick == root:
                continue
            m.remove_node(g.nodes[pick])
            for t in tree:
                g.kids[t] = [c for c in g.kids[t] if c != pick]
            # references of the tree that point outside it are unset
            inside = set(g.reach(root))
            for t in inside:
                for r, v in g.refs[t].items():
                    if v is not None and v not in inside:
                        g.refs[t][r] = None
            observe(ctx, g, root, where)
            for t in g.reach(root):
                for r in g.nodes[t].ref_names:
                    v = g.nodes[t].maybe_get_ref(r)
                    ctx.check(v is None or id(v) in inside, "dangling-reference", f"{where}: reference {r} of {g.names[t]} points outside the tree")
            clear_dangling(g, root)
        elif k == "ref":
            name = str(rng.choice(["r", "s", "t"]))
            inside = g.reach(pick)
            if rng.rand() < 0.5:
                t = inside[rng.randint(len(inside))]
                g.nodes[pick].set_ref(name, g.nodes[t])
                g.refs[pick][name] = t
                ctx.check(g.nodes[pick].get_ref(name) is g.nodes[t], "get_ref", f"{where}: get_ref does not return the node set")
            elif rng.rand() < 0.3:
                g.nodes[pick].set_ref(name, None)
                g.refs[pick][name] = None
            else:
                outside = [t for t in g.nodes if t not in inside]
                if outside:
                    t = outside[rng.randint(len(outside))]
                    ctx.raises(lambda: g.nodes[pick].set_ref(name, g.nodes[t]), "outside-reference-accepted", f"{where}: reference to a node outside the tree accepted", exc=ValueError)
        elif k == "wrap":
            calls = []

            def wrapper(n):
                w = Model(f"w({n.name})"[:30], fwd, layers=[n])
                calls.append((id(n), w))
                return w

            want_nodes = g.reach(root)
            out = wrap_model_recursive(m, wrapper)
            ctx.check(sorted(c for c, _ in calls) == sorted(want_nodes), "wrap-calls", f"{where}: nodes wrapped {sorted(g.names[c] for c, _ in calls)}, in the tree {sorted(g.names[c] for c in want_nodes)}")
            w_of = {}
            for n, w in calls:
                w_of[n] = w
                g.add(w, [g.nodes[n]])
            for t in want_nodes:
                g.kids[t] = [id(w_of[c]) if c in w_of else c for c in g.kids[t]]
                g.refs[t] = {r: (id(w_of[v]) if v in w_of and v not in (root, t) else v) for r, v in g.refs[t].items()}
            ctx.check(out is w_of.get(root), "wrap-result", f"{where}: wrap_model_recursive does not return the wrapped root")
            root = id(out)
            if len(g.nodes) > 60:
                break
        elif k == "attrs":
            names = sorted({g.names[t] for t in tree})
            mapping = {str(n): {str(a): float(rng.randint(10, 20)) for a in rng.choice(ATTRS + ["zz"], size=2, replace=False)} for n in rng.choice(names + ["nobody"], size=min(2, len(names)), replace=False)}
            out = change_attr_values(m, mapping)
            ctx.check(out is m, "returned", f"{where}: change_attr_values does not return the model")
            for t in tree:
                for a, v in mapping.get(g.names[t], {}).items():
                    if a in g.attrs[t]:
                        g.attrs[t][a] = v
        elif k == "dropout":
            v = float(rng.rand())
            names = [str(a) for a in rng.choice(ATTRS, size=rng.randint(1, 3), replace=False)]
            if rng.rand() < 0.6:
                out = set_dropout_rate(m, v)
                names = ["dropout_rate"]
            else:
                out = set_dropout_rate(m, v, names)
            ctx.check(out is m, "returned", f"{where}: set_dropout_rate does not return the model")
            for t in tree:
                for a in names:
                    if a in g.attrs[t]:
                        g.attrs[t][a] = v
        elif k == "absent":
            other, new = Model("other", fwd), Model("new", fwd)
            got = m.replace_node(other, new)
            ctx.check(got is False, "replace-absent-report", f"{where}: replace_node of a node outside the tree returned {got}")
            m.remove_node(other)
            clear_dangling(g, root, real=False)
        observe(ctx, g, root, where)
    ctx.note("edits", len(log))
    ctx.sig(tuple(log), len(g.nodes))
    ctx.describe("edits", log=log, nodes=len(g.nodes))


@group(30, 6000, 25)
def real_models(ctx, rng):
    """Compositions of real layers: removing a wrapper's layer, swapping layers
    for equal ones, wrapping everything in pass-through wrappers."""
    prog = compose.program(np.random.RandomState(rng.randint(2**31)), None, share=0.4)
    m = prog.model
    X = prog.batch(rng)
    m.initialize(X=X)
    prog.randomise(rng)
    ids(ctx, m.walk(), "built")
    np.random.seed(1)
    want = m.predict(X)
    nodes = list(m.walk())
    ctx.check(len(set(map(id, nodes))) == len(nodes), "walk-twice", "walk visits a node twice")
    if rng.rand() < 0.3:
        # a null operation keeps the layers it is given
        ops = [noop() for _ in range(int(rng.randint(1, 3)))] + [m]
        null = noop(*ops)
        ctx.check(len(null.layers) == len(ops) and all(a is b for a, b in zip(null.layers, ops)), "noop-layers", "noop(*layers) without its layers")
        ctx.check(len(list(null.walk())) == len(ops) + len(nodes), "noop-walk", "walk over noop(*layers)")

    def through(model, X, is_train):
        return model.layers[0](X, is_train)

    k = int(rng.randint(3))
    where = ["wrapped", "copies", "debug"][k]
    if k == 0:
        out = wrap_model_recursive(m, lambda n: Model(f"t>{n.name}"[:40], through, layers=[n]))
        inner = [n for n in out.walk() if n._func is not through]
        ctx.check(len(inner) == len(nodes) and len(list(out.walk())) == 2 * len(nodes), "wrap-count", f"{len(nodes)} nodes, after wrapping {len(list(out.walk()))}")
        for n in inner:
            for c in n.layers:
                ctx.check(c._func is through, "not-wrapped", f"{c.name} inside {n.name} is not wrapped")
        direct = any(getattr(n, "name", "").startswith("with_getitem") for n in nodes)
        m = out
    elif k == 1:
        # replace leaf nodes by copies of themselves: nothing else may change
        for n in nodes[1:]:
            if n.layers or rng.rand() < 0.5 or not any(n is x for x in m.walk()):
                continue
            c = n.copy()
            ctx.check(m.replace_node(n, c) is True, "replace-report", "replace_node of a node of the tree")
            ctx.check(not any(x is n for x in m.walk()), "still-there", "the replaced node is still in the tree")
    else:
        n = nodes[rng.randint(len(nodes))]
        if n is not m:
            w = Model("dbg", through, layers=[n])
            ctx.check(m.replace_node(n, w) is True, "replace-report", "replace_node of a node of the tree")
    ids(ctx, m.walk(), where)
    np.random.seed(1)
    try:
        got = m.predict(X)
    except Exception as e:
        if k == 1:
            raise
        # wrappers without the wrapped layer's dimensions: layers that read a
        # dimension of their child refuse, which is documented behaviour of get_dim
        if not isinstance(e, (KeyError, ValueError)):
            raise
        ctx.note("wrapper_without_dims")
        ctx.sig(where, "refused")
        return
    p05.close(ctx, want, got, "prediction-after-edit", f"{where}: {prog!r} predicts something else")
    ctx.sig(where, repr(prog)[:200])
    ctx.describe(where, prog=repr(prog))


@group(4, 400, 3)
def ids_threads(ctx, rng):
    """Ids of models and wrapped modules created and copied concurrently."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5])))
    out = [[] for _ in range(6)]
    shims = [[] for _ in range(6)]
    try:
        def work(i):
            import torch

            from thinc.api import PyTorchWrapper

            m = Model("a", fwd, layers=[Model("b", fwd)])
            if i % 2:
                m = chain(m, PyTorchWrapper(torch.nn.Linear(1, 1)))
            out[i].append(m)
            for _ in range(60):
                c = m.copy()
                out[i].append(c)
                out[i].append(Model("c", fwd))

        ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    nodes, sh = [], []
    for o in out:
        for m in o:
            for n in m.walk():
                if all(n is not x for x in ()):
                    nodes.append(n)
                    sh.extend(n.shims)
    uniq = {id(n): n for n in nodes}
    ctx.check(len({n.id for n in uniq.values()}) == len(uniq), "id-not-unique", f"{len(uniq)} nodes created concurrently have {len({n.id for n in uniq.values()})} ids")
    us = {id(s): s for s in sh}
    both = {n.id for n in uniq.values()} | {s.id for s in us.values()}
    ctx.check(len(both) == len(uniq) + len(us), "id-not-unique", "ids of nodes and wrapped modules created concurrently collide")
    ids(ctx, uniq.values(), "threads")
    ctx.note("concurrent_nodes", len(uniq))
    ctx.sig(len(uniq))
    ctx.describe("threads")
