"""P07: temporary settings are restored exactly, however the block ends.

Monitor: random nested programs of blocks (swapped parameters, active backend,
operator bindings, validation switch) run over models with shared nodes and
wrapped torch modules; bodies predict, train, query and raise at random points.
A state recorder that does not use the code under test is read before, inside
and after every block and compared with a model of the settings kept by the
harness; a block that ends in any way must leave the recorded state as it was."""
import asyncio
import contextlib
import threading
from pathlib import Path

import numpy as np

from checks import p05
from thinc.api import Model, NumpyOps, get_current_ops, use_ops
from thinc.backends import context_ops
from thinc.model import context_operators
from thinc.util import DATA_VALIDATION, data_validation, make_tempfile
from vlib import cont, snap, zoo
from vlib.core import group

QUICK_X = 8
OPERATORS = ["+", "-", "*", "@", "/", "//", "%", "**", "<<", ">>", "&", "^", "|"]
APPLY = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "@": lambda a, b: a @ b,
    "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b,
    "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b,
    "|": lambda a, b: a | b,
}


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def shims_of(m):
    out = []
    for n in m.walk():
        for s in n.shims:
            if all(s is not x for x in out) and not isinstance(s, p05.Extra):
                out.append(s)
    return out


def scalars(rng):
    """A wrapped module with parameters and buffers that have no axes."""
    import torch
    from thinc.api import PyTorchWrapper, chain, Linear

    w, after = int(rng.choice([1, 3])), bool(rng.rand() < 0.4)

    class Scaled(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.a = torch.nn.Parameter(torch.tensor(0.7))
            self.c = torch.nn.Parameter(torch.ones(w))
            self.z = torch.nn.Parameter(torch.tensor(-0.2))
            self.register_buffer("k", torch.tensor(1.5))

        def forward(self, x):
            return torch.tanh(x * self.a * self.c + self.z) * self.k

    build = lambda: chain(PyTorchWrapper(Scaled()), Linear(2, w)) if after else PyTorchWrapper(Scaled())
    return p05.Fam("torch_scalars", build, lambda r: r.standard_normal((int(r.choice([1, 3])), w)).astype("f"))


def params_state(m):
    """What the model's parameters are: which array objects, and their bytes."""
    out = {}
    for i, n in enumerate(m.walk()):
        for p in n.param_names:
            a = n.get_param(p) if n.has_param(p) else None
            out[(i, n.name, p)] = None if a is None else (id(a), cont.digest(np.asarray(a)))
    for j, s in enumerate(shims_of(m)):
        for k, v in snap.shim_state(s).items():
            out[("shim", j, k)] = v
    return out


def settings():
    return (id(context_ops.get()), id(context_operators.get()), tuple(sorted((k, id(v)) for k, v in context_operators.get().items())), DATA_VALIDATION.get())


def first_diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return k
    return None if len(a) == len(b) else "number of entries"


# ---------------------------------------------------------------------------
# use_params: what a swap has to do

def random_entries(rng, m):
    """A dict for use_params, and what it must make of each (node, param)."""
    entries, expect = {}, {}
    p = float(rng.choice([0.0, 0.3, 0.7, 1.0]))
    for n in m.walk():
        for name in n.param_names:
            if n.has_param(name) and rng.rand() < p:
                old = n.get_param(name)
                v = (rng.standard_normal(old.shape) * 0.5).astype(old.dtype)
                if n.name == "cauchy_similarity":
                    v = np.abs(v) + 0.1
                entries[(n.id, name)] = v
                expect[("node", id(n), name)] = v
    for s in shims_of(m):
        for name, t in s._model.named_parameters():
            if rng.rand() < p:
                v = np.asarray(rng.standard_normal(tuple(t.shape)), "f") * np.float32(0.5)
                v = np.asarray(v, "f")
                if v.ndim > 1 and rng.rand() < 0.2:
                    v = np.asfortranarray(v)
                key = (s.id, name) if rng.rand() < 0.6 else f"pytorch_{s.id}_{name}"
                entries[key] = v
                expect[("shim", id(s), name)] = v
    # entries of other models
    other = max([n.id for n in m.walk()] + [s.id for s in shims_of(m)]) + 1000
    if rng.rand() < 0.5:
        entries[(other, "W")] = np.ones((2, 2), dtype="f")
        entries[(other, "b")] = np.ones((2,), dtype="f")
    if rng.rand() < 0.3:
        entries[f"pytorch_{other}_weight"] = np.ones((2, 2), dtype="f")
    items = list(entries.items())
    rng.shuffle(items)
    return dict(items), expect


def check_swapped(ctx, m, expect, before, where):
    for i, n in enumerate(m.walk()):
        for p in n.param_names:
            want = expect.get(("node", id(n), p))
            if want is not None:
                ctx.check(n.has_param(p) and np.array_equal(np.asarray(n.get_param(p)), want), "entry-not-applied",
                          f"{where}: {n.name}.{p} has an entry but not its value inside the block")
            else:
                got = (id(n.get_param(p)), cont.digest(np.asarray(n.get_param(p)))) if n.has_param(p) else None
                ctx.check(got == before[(i, n.name, p)], "other-parameter-changed", f"{where}: {n.name}.{p} has no entry but changed inside the block")
    for j, s in enumerate(shims_of(m)):
        for k, v in snap.shim_state(s).items():
            want = expect.get(("shim", id(s), k))
            if want is not None:
                got = s._model.state_dict()[k].detach().numpy()
                ctx.check(np.array_equal(got, want), "torch-entry-not-applied", f"{where}: torch parameter {k} has an entry but not its value inside the block")
            else:
                ctx.check(v == before[("shim", j, k)], "other-torch-parameter-changed", f"{where}: torch {k} has no entry but changed")


def fresh_with(fam, m, expect):
    """A separate model that simply has the swapped values (via a deep copy
    made by the harness), for comparing predictions."""
    twin = m.copy()
    for a, b in zip(m.walk(), twin.walk()):
        for p in a.param_names:
            v = expect.get(("node", id(a), p))
            if v is not None:
                b.set_param(p, v.copy())
        for s, t in zip(a.shims, b.shims):
            import torch

            with torch.no_grad():
                for k, q in t._model.named_parameters():
                    v = expect.get(("shim", id(s), k))
                    if v is not None:
                        q.copy_(torch.tensor(np.array(v, order="C")))
    return twin


def throw(rng):
    k = rng.randint(4)
    raise [Boom("body"), Hard("body"), KeyboardInterrupt(), ValueError("body")][k]


THROWN = (Boom, Hard, KeyboardInterrupt, ValueError)


@group(110, 30000, 100)
def swapped_parameters(ctx, rng):
    fam = scalars(rng) if rng.rand() < 0.1 else p05.family(rng, None if rng.rand() < 0.75 else "enc_torch")
    m = fam.build()
    X = fam.make(rng)
    p05.bring(rng, fam, m, X)
    pred = fam.name != "graph"
    log = []
    raised = 0

    def run(depth, inherited):
        nonlocal raised
        entries, expect = random_entries(rng, m)
        supplied = {k: (v, cont.digest(v)) for k, v in entries.items()}
        before = params_state(m)
        root = m
        if rng.rand() < 0.25:  # a subtree only
            nodes = list(m.walk())
            root = nodes[rng.randint(len(nodes))]
            inside = {("node", id(n)) for n in root.walk()} | {("shim", id(s)) for s in shims_of(root)}
            expect = {k: v for k, v in expect.items() if k[:2] in inside}
        trained = False
        fail = rng.rand() < 0.4
        try:
            twin = None
            if pred and rng.rand() < 0.5:
                twin = fresh_with(fam, m, expect)
            with root.use_params(entries):
                log.append(f"swap{len(entries)}")
                check_swapped(ctx, m, expect, before, f"{fam.name} depth {depth}")
                if twin is not None:
                    np.random.seed(3)
                    want = twin.predict(X)
                    np.random.seed(3)
                    p05.close(ctx, want, m.predict(X), "prediction-inside", f"{fam.name}: prediction inside the block is not the swapped parameters'")
                for _ in range(int(rng.randint(0, 3))):
                    if depth < 3 and rng.rand() < 0.5:
                        mid = params_state(m)
                        run(depth + 1, expect)
                        now = params_state(m)
                        d = first_diff(mid, now)
                        ctx.check(d is None, "nested-not-restored", f"{fam.name}: after an inner block {d} differs from before it")
                if pred and depth == 0 and rng.rand() < 0.25:
                    from thinc.api import SGD

                    Y, bp = m(X, True)
                    bp(p05.dy(fam, m, X, Y, rng))
                    trained = True
                    if rng.rand() < 0.5 and not fail:
                        pass
                    log.append("train")
                if fail:
                    log.append("raise")
                    throw(rng)
        except THROWN as e:
            if not fail or (e.args and e.args[0] != "body" and not isinstance(e, KeyboardInterrupt)):
                raise
            raised += 1
        after = params_state(m)
        d = first_diff(before, after)
        ctx.check(d is None, "not-restored", f"{fam.name}: after the block ({log}) {d} is not what it was")
        bad = [k for k, (v, h) in supplied.items() if cont.digest(v) != h]
        ctx.check(not bad, "supplied-array-modified", f"{fam.name}: the swap modified the supplied array {bad[:1]}")

    run(0, {})
    ctx.note("blocks_left_by_exception", raised)
    ctx.note("blocks", sum(x.startswith("swap") for x in log))
    ctx.sig(fam.name, tuple(log))
    ctx.describe(fam.name, log=log)


@group(40, 8000, 30)
def training_inside(ctx, rng):
    """An update inside the block works on the swapped parameters; the originals
    come back exactly."""
    from thinc.api import SGD

    name = str(rng.choice(sorted(p05.FACTORIES)))
    fam = scalars(rng) if rng.rand() < 0.1 else p05.family(rng, name)
    m = fam.build()
    X = fam.make(rng)
    p05.bring(rng, fam, m, X, histories=False)
    before = params_state(m)
    arrays = {(n.id, p): n.get_param(p) for n in m.walk() for p in n.param_names if n.has_param(p)}
    entries, expect = random_entries(rng, m)
    full = all(("node", id(n), p) in expect for n in m.walk() for p in n.param_names) and all(
        ("shim", id(s), k) in expect for s in shims_of(m) for k, _ in s._model.named_parameters())
    fail = rng.rand() < 0.5
    try:
        with m.use_params(entries):
            Y, bp = m(X, True)
            bp(p05.dy(fam, m, X, Y, rng))
            m.finish_update(SGD(0.01))
            if fail:
                throw(rng)
    except THROWN as e:
        if not fail or (e.args and e.args[0] != "body" and not isinstance(e, KeyboardInterrupt)):
            raise
    after = params_state(m)
    pos = {("node", i, n.name): id(n) for i, n in enumerate(m.walk())}
    ss = shims_of(m)
    for k in before:
        if k[0] == "shim":
            if any(e[0] == "shim" and e[1] == id(ss[k[1]]) for e in expect):
                ctx.check(after[k] == before[k], "trained-torch-not-restored", f"{name}: torch parameter {k[2]} not restored after an update inside the block")
        elif ("node", pos[("node", k[0], k[1])], k[2]) in expect:
            ctx.check(after[k] == before[k], "trained-not-restored", f"{name}: parameter {k[2]} of {k[1]} not restored after an update inside the block")
    ctx.check(True, "ran")
    ctx.sig(name, fail, len(entries), full)
    ctx.describe(name, fail=fail)


@group(25, 4000, 20)
def bad_entries(ctx, rng):
    """Entering fails: nothing stays swapped."""
    name = str(rng.choice(sorted(p05.FACTORIES) + ["enc_torch"] * 15))
    try:
        fam = p05.family(rng, name)
    except KeyError:
        ctx.skip("no such layer")
    m = fam.build()
    X = fam.make(rng)
    p05.bring(rng, fam, m, X, histories=False)
    entries, expect = random_entries(rng, m)
    # a framework entry of an impossible shape, or an entry for an unset parameter
    unset = Model("unset", p05._fwd, params={"U": None})
    kind = "unset"
    if shims_of(m) and rng.rand() < 0.8:
        s = shims_of(m)[0]
        k = sorted(s._model.state_dict())[0]
        entries[f"pytorch_{s.id}_{k}"] = np.ones((17, 3, 2), dtype="f")
        kind = "torch-shape"
        top = m
    else:
        at = int(rng.randint(2))
        top = Model("top", p05._fwd, layers=[m, unset] if at else [unset, m])
        entries[(unset.id, "U")] = np.ones((2,), dtype="f")
    before = params_state(top)
    entered = False
    try:
        with top.use_params(entries):
            entered = True
    except (KeyError, RuntimeError, ValueError, AttributeError) as e:
        ctx.note("refused_entries")
    d = first_diff(before, params_state(top))
    ctx.check(d is None, "not-restored-after-refusal", f"{name}/{kind}: {d} is not what it was (entered={entered})")
    ctx.sig(name, kind, entered)
    ctx.describe(name, kind=kind)


# ---------------------------------------------------------------------------
# programs of all four kinds of blocks


class Own(NumpyOps):
    """An ops class with a name of its own."""


class Tracker:
    """The settings as they should be."""

    def __init__(self):
        self.ops = get_current_ops()
        self.operators = context_operators.get()
        self.validation = DATA_VALIDATION.get()


OPNAMES = [("numpy", {}), ("cpu", {}), ("numpy", {"use_blis": True}), ("cupy", {}), ("mps", {})]


def inspect(ctx, rng, t, kind_of_ops, bound, validation, where):
    """Does the code see the settings it should?"""
    ops = get_current_ops()
    ctx.check(type(ops).name == kind_of_ops, "backend-inside", f"{where}: active backend {type(ops).name}, expected {kind_of_ops}")
    a, b = Model("a", p05._fwd), Model("b", p05._fwd)
    ctx.check(type(a.ops).name == kind_of_ops, "new-model-backend", f"{where}: a new model has backend {type(a.ops).name}, expected {kind_of_ops}")
    for op in rng.choice(OPERATORS, size=3, replace=False):
        op = str(op)
        if op in bound:
            ctx.check(APPLY[op](a, b) == (bound[op], a, b), "operator-inside", f"{where}: {op} does not apply the function bound to it")
        elif not bound.get("__partial__"):
            try:
                got = APPLY[op](a, b)
            except TypeError:
                got = None
            ctx.check(got is None, "operator-unbound", f"{where}: {op} is not bound here but gives {got}")
    refused = None
    w = Model("w", _typed_forward)
    if kind_of_ops in ("numpy", "cpu"):
        try:
            w.initialize(X="not an array")
            refused = False
        except Exception:
            refused = True
        ctx.check(refused == validation, "validation-inside", f"{where}: validation should be {validation}, wrong input refused: {refused}")


def _typed_forward(model, X, is_train):
    return X, lambda dY: dY


from thinc.types import Floats2d  # noqa: E402

_typed_forward.__annotations__.update(model=Model, X=Floats2d, is_train=bool)


def make_operators(rng, tag):
    ops = [str(o) for o in rng.choice(OPERATORS, size=int(rng.randint(0, 5)), replace=False)]
    return {o: (lambda name: lambda a, b: (name, a, b))(f"{tag}{o}") for o in ops}, {o: f"{tag}{o}" for o in ops}


def blocks(ctx, rng, log, depth, st, raised, step=None):
    """Run a random block and everything in it; st = (backend, bound, validation).
    A generator: yields between steps so that it can be interleaved."""
    kind = str(rng.choice(["ops", "operators", "validation"]))
    before = settings()
    fail = rng.rand() < 0.35
    if kind == "ops":
        name, kw = OPNAMES[rng.randint(len(OPNAMES))]
        cm = lambda: use_ops(name, **kw)
        new = ("numpy" if name == "cpu" else name, st[1], st[2])
    elif kind == "operators":
        d, bound = make_operators(rng, f"{depth}.{len(log)}")
        given = dict(d)
        cm = lambda: Model.define_operators(d)
        new = (st[0], bound, st[2])
    else:
        v = bool(rng.rand() < 0.5)
        cm = lambda: data_validation(v)
        new = (st[0], st[1], v)
    log.append(f"{depth}{kind[:3]}")
    thrown = None
    c = cm()
    c.__enter__()
    try:
        inspect(ctx, rng, None, *new, where=f"{log[-6:]}")
        yield
        if kind == "operators" and rng.rand() < 0.3:
            d.clear()  # the caller's own dict
            inspect(ctx, rng, None, *new, where=f"{log[-6:]} after the caller changed the dict it gave")
        for _ in range(int(rng.randint(0, 3))):
            if depth < 4:
                yield from blocks(ctx, rng, log, depth + 1, new, raised)
                inspect(ctx, rng, None, *new, where=f"after an inner block {log[-6:]}")
                yield
        if kind == "ops" and rng.rand() < 0.2:
            from thinc.api import set_current_ops

            set_current_ops(Own())
        if fail:
            raise [Boom("body"), Hard("body"), KeyboardInterrupt(), StopIteration("body")][rng.randint(4)]
    except (Boom, Hard, KeyboardInterrupt, StopIteration) as e:
        if not fail:
            raise
        thrown = e
    try:
        swallowed = c.__exit__(type(thrown) if thrown is not None else None, thrown, None)
    except (Boom, Hard, KeyboardInterrupt, StopIteration) as e:
        swallowed = False
        ctx.check(e is thrown, "other-exception", f"the block ended with {e!r} instead of {thrown!r}")
    ctx.check(not swallowed, "exception-swallowed", f"the {kind} block swallowed {thrown!r}")
    raised[0] += thrown is not None
    now = settings()
    ctx.check(now == before, f"{kind}-not-restored", f"after {log} (ended by {thrown!r}): {kind} settings {now}, before {before}")
    yield


def base_state():
    get_current_ops()
    v = DATA_VALIDATION.get()
    return (type(get_current_ops()).name, {}, v)


@group(60, 20000, 50)
def nested(ctx, rng):
    log, raised = [], [0]
    for _ in range(int(rng.randint(1, 4))):
        for _ in blocks(ctx, rng, log, 0, base_state(), raised):
            pass
    ctx.note("blocks", len(log))
    ctx.note("blocks_left_by_exception", raised[0])
    ctx.sig(tuple(log), raised[0])
    ctx.describe("nested", log=log)


@group(15, 4000, 10)
def asynchronous(ctx, rng):
    """Interleaved asyncio tasks, each with blocks of its own."""
    n = int(rng.choice([2, 3, 4]))
    logs = [[] for _ in range(n)]
    raised = [0]
    order = []
    base = base_state()
    seeds = rng.randint(2**31, size=n)

    async def task(i):
        r = np.random.RandomState(seeds[i])
        for _ in range(int(r.randint(1, 3))):
            for _ in blocks(ctx, r, logs[i], 0, base, raised):
                order.append(i)
                for _ in range(int(r.randint(0, 3))):
                    await asyncio.sleep(0)

    async def main():
        await asyncio.gather(*[task(i) for i in range(n)])

    before = settings()
    asyncio.run(main())
    ctx.check(settings() == before, "tasks-leak", "the settings after the tasks are not those before")
    ctx.note("task_switches", sum(a != b for a, b in zip(order, order[1:])))
    ctx.sig(tuple(order))
    ctx.describe("async", tasks=n, log=[l[:8] for l in logs])


@group(6, 1200, 5)
def threads(ctx, rng):
    """A block in one thread is not seen by another one."""
    n = 3
    out = []
    seeds = rng.randint(2**31, size=n)
    lock = threading.Lock()
    turn = threading.Barrier(n)

    def work(i):
        r = np.random.RandomState(seeds[i])
        try:
            base = base_state()
            log, raised = [], [0]
            for _ in blocks(_Locked(ctx, lock), r, log, 0, base, raised):
                try:
                    turn.wait(timeout=0.005)
                except threading.BrokenBarrierError:
                    pass
            out.append((i, tuple(log)))
        except BaseException as e:  # noqa: B902
            out.append((i, e))

    before = settings()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for _, e in out:
        if isinstance(e, BaseException):
            raise e
    ctx.check(settings() == before, "threads-leak", "blocks of other threads changed this thread's settings")
    ctx.sig(tuple(sorted(out)))
    ctx.describe("threads")


class _Locked:
    def __init__(self, ctx, lock):
        self.ctx, self.lock = ctx, lock

    def check(self, *a, **k):
        with self.lock:
            return self.ctx.check(*a, **k)


@group(10, 1500, 8)
def temporary_files(ctx, rng):
    mode = str(rng.choice(["r", "w", "wb", "r+"]))
    fail = rng.rand() < 0.5
    path = None
    try:
        with make_tempfile(mode) as f:
            path = Path(f.name)
            ctx.check(path.exists() and not f.closed, "no-file", "no open file inside the block")
            if "w" in mode:
                f.write(b"x" if "b" in mode else "x")
                f.flush()
                ctx.check(path.read_bytes() == b"x", "file-content", "what was written is not in the file")
            if rng.rand() < 0.3:
                f.close()
            if fail:
                throw(rng)
    except THROWN as e:
        if not fail:
            raise
    ctx.check(path is not None and not path.exists(), "file-left", f"the temporary file is left behind (exception: {fail})")
    ctx.check(f.closed, "file-open", "the temporary file is left open")
    ctx.sig(mode, fail)
