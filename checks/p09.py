"""P09: threads do not disturb each other.

Monitor: the workloads are first run one after another and every result is
recorded (digests); then the same work is done by several threads at once under
a hostile scheduler - a tracer that gives up the interpreter at random lines
inside thinc, and a tiny switch interval - and every result is compared with
the sequential one.  The tracer records the interleaving it produced, so that
the evidence shows how many different ones were observed."""
import hashlib
import sys
import threading
import time

import numpy as np

from checks import p05
from thinc.api import Adam, Model, NumpyOps, SGD, chain, get_current_ops, set_current_ops, use_ops
from thinc.util import DATA_VALIDATION, data_validation
from thinc.model import context_operators
from vlib import cont, snap, zoo
from vlib.core import REPO, group

QUICK_X = 6
ROOT = str(REPO / "thinc")


class Noise:
    """Run functions in threads; give up the interpreter at random places."""

    def __init__(self, rng, p=0.05):
        self.seed = int(rng.randint(2**31))
        self.p = p
        self.order = []
        self.switches = 0
        self.interval = float(rng.choice([1e-6, 1e-5, 1e-4]))

    def run(self, fns):
        results = [None] * len(fns)
        gate = threading.Barrier(len(fns))
        order = self.order

        def tracer(i):
            r = np.random.RandomState(self.seed + i)
            draws = r.rand(4096)
            lines = [0]
            p = self.p

            def local(frame, event, arg):
                if event == "line":
                    lines[0] += 1
                    if draws[lines[0] % 4096] < p:
                        order.append((i, frame.f_lineno))
                        time.sleep(0)
                return local

            def outer(frame, event, arg):
                fn = frame.f_code.co_filename
                if fn.startswith(ROOT):
                    return local
                return None

            return outer

        def work(i):
            gate.wait()
            sys.settrace(tracer(i))
            try:
                results[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: B902
                results[i] = ("error", e)
            finally:
                sys.settrace(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(fns))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        ids = [i for i, _ in order]
        self.switches = sum(a != b for a, b in zip(ids, ids[1:]))
        return results

    def digest(self):
        return hashlib.md5(repr(self.order).encode()).hexdigest()[:12]


def value(y):
    return [cont.digest(np.asarray(a)) for a in cont.leaves(y)], str(cont.structure(y))


def torch_dropout(rng):
    """A wrapped module that behaves differently in training."""
    import torch

    from thinc.api import PyTorchWrapper

    n = int(rng.choice([2, 5]))
    torch.manual_seed(int(rng.randint(1000)))
    layers = [torch.nn.Linear(n, n), torch.nn.Dropout(0.5), torch.nn.Linear(n, 3)]
    if rng.rand() < 0.4:
        layers.insert(1, torch.nn.BatchNorm1d(n))
    m = PyTorchWrapper(torch.nn.Sequential(*layers))
    if rng.rand() < 0.5:
        from thinc.api import Linear

        m = chain(Linear(n, n, init_W=_normal), m)
    return p05.Fam("torch-dropout", lambda: m, lambda r: r.standard_normal((4, n)).astype("f"))


def _normal(ops, shape):
    return np.ones(shape, dtype="f") * np.float32(0.3)


@group(90, 6000, 60)
def predicting_together(ctx, rng):
    """One model, many threads predicting."""
    fam = torch_dropout(rng) if rng.rand() < 0.2 else p05.family(rng)
    if fam.name == "graph":
        ctx.skip("graph")
    m = fam.build()
    batches = [fam.make(rng) for _ in range(4)]
    p05.bring(rng, fam, m, batches[0])
    if rng.rand() < 0.5:  # dropout in the model: predictions have none
        from thinc.api import set_dropout_rate

        set_dropout_rate(m, 0.5)
    want = [value(m.predict(X)) for X in batches]
    want2 = [value(m.predict(X)) for X in batches]
    if want != want2:
        ctx.skip("predicting is not repeatable sequentially")
    before = snap.snapshot(m)
    inputs = [value(X) for X in batches]
    n = int(rng.choice([2, 3, 4, 6]))
    seeds = rng.randint(2**31, size=n)

    def work(i):
        r = np.random.RandomState(seeds[i])
        out = []
        for _ in range(int(r.choice([2, 4]))):
            for k in r.permutation(len(batches)):
                out.append((int(k), value(m.predict(batches[k]))))
        return out

    noise = Noise(rng)
    for i, (st, res) in enumerate(noise.run([lambda i=i: work(i) for i in range(n)])):
        if st == "error":
            raise res
        for k, y in res:
            ctx.check(y == want[k], "prediction-differs", f"{fam.name}: thread {i} of {n} predicts something else than the sequential run")
    ctx.check(snap.diff(before, snap.snapshot(m)) is None, "model-changed", f"{fam.name}: predicting in threads changed the model: {snap.diff(before, snap.snapshot(m))}")
    ctx.check([value(X) for X in batches] == inputs, "input-changed", f"{fam.name}: predicting in threads changed the inputs")
    ctx.note("switches_in_thinc", noise.switches)
    ctx.note("threads", n)
    ctx.sig(fam.name, noise.digest())
    ctx.describe(fam.name, threads=n, switches=noise.switches)


def job(seed):
    """A deterministic life of a model of one's own: build, train, save, load,
    copy, configure; returns a record of everything observed."""
    rng = np.random.RandomState(seed)
    out = []
    fam = p05.family(rng)
    while fam.name == "graph":
        fam = p05.family(rng)
    ops = get_current_ops()
    m = fam.build()
    out.append([type(n.ops).name for n in m.walk()])
    X = fam.make(rng)
    p05.bring(rng, fam, m, X, histories=False)
    opt = Adam(0.01) if rng.rand() < 0.5 else SGD(0.01, L2=0.1)
    if rng.rand() < 0.3:
        opt = Adam(0.01, use_averages=True)
    for _ in range(2):
        Y, bp = m(X, True)
        d = p05.dy(fam, m, X, Y, np.random.RandomState(1))
        dX = bp(d)
        out.append((value(Y), value(dX) if dX is not None else None))
        m.finish_update(opt)
    data = m.to_bytes()
    twin = fam.build()
    twin.initialize(X=X)
    twin.from_bytes(data)
    out.append(value(twin.predict(X)))
    c = m.copy()
    out.append(value(c.predict(X)))
    with m.use_params(opt.averages or {}):
        out.append(value(m.predict(X)))
    out.append(value(m.predict(X)))
    out.append([{k: v for k, v in n.items() if k in ("params", "dims", "shims")} for n in snap.snapshot(m)])
    return out


def job_config(seed):
    from thinc.api import Config, registry

    rng = np.random.RandomState(seed)
    n = int(rng.randint(1, 6))
    text = f"""
[model]
@layers = "chain.v1"

[model.*.a]
@layers = "Relu.v1"
nO = {n}
nI = 3
init_W = {{"@initializers": "zero_init.v1"}}

[model.*.b]
@layers = "Linear.v1"
nO = {int(rng.randint(1, 5))}
nI = {n}

[optimizer]
@optimizers = "Adam.v1"
beta1 = {float(rng.choice([0.5, 0.9]))}
learn_rate = {{"@schedules": "decaying.v1", "base_rate": 0.1, "decay": {float(rng.choice([0.1, 0.2]))}}}
"""
    cfg = Config().from_str(text)
    r = registry.resolve(cfg)
    m = r["model"].initialize()
    return [cfg.to_str(), [(x.name, {d: x.maybe_get_dim(d) for d in x.dim_names}) for x in m.walk()], r["optimizer"].b1, r["optimizer"].learn_rate]


def _typed(model, X, is_train):
    return X, lambda d: d


def job_settings(seed):
    """Blocks of temporary settings, with what is seen in them."""
    from thinc.types import Floats2d

    rng = np.random.RandomState(seed)
    out = []

    def fwd(model, X: Floats2d, is_train: bool):
        return X, lambda d: d

    def see():
        a, b = Model("a", fwd), Model("b", fwd)
        try:
            a >> b
            op = (a >> b)[0]
        except TypeError:
            op = None
        try:
            a.initialize(X="no")
            ok = True
        except Exception:
            ok = False
        out.append((type(get_current_ops()).name, type(a.ops).name, op, ok, DATA_VALIDATION.get()))

    see()
    for k in range(5):
        r = rng.randint(4)
        if r == 0:
            with use_ops(str(rng.choice(["cupy", "numpy", "mps"]))):
                see()
        elif r == 1:
            with Model.define_operators({">>": lambda a, b, k=k: (k, a, b)}):
                see()
        elif r == 2:
            with data_validation(bool(rng.rand() < 0.5)):
                see()
        else:
            try:
                with data_validation(False), use_ops("mps"):
                    see()
                    raise ValueError("x")
            except ValueError:
                pass
        see()
    return out


@group(60, 5000, 40)
def own_models(ctx, rng):
    """Every thread does its own work."""
    n = int(rng.choice([2, 3, 4]))
    seeds = [int(s) for s in rng.randint(2**31, size=n)]
    kinds = [[job, job, job_config, job_settings][rng.randint(4)] for _ in range(n)]
    want = [run_alone(k, s) for k, s in zip(kinds, seeds)]
    again = [run_alone(k, s) for k, s in zip(kinds, seeds)]
    if repr(want) != repr(again):
        ctx.skip("not repeatable sequentially")
    state = (id(get_current_ops()), id(context_operators.get()), DATA_VALIDATION.get())
    noise = Noise(rng, 0.02)
    for i, (st, res) in enumerate(noise.run([lambda k=k, s=s: k(s) for k, s in zip(kinds, seeds)])):
        if st == "error":
            raise res
        ctx.check(repr(res) == repr(want[i]), "result-differs", f"thread {i} of {[k.__name__ for k in kinds]} gets something else than the sequential run: {first(res, want[i])}")
    ctx.check((id(get_current_ops()), id(context_operators.get()), DATA_VALIDATION.get()) == state, "settings-leak", "settings of this thread changed by others")
    ctx.note("switches_in_thinc", noise.switches)
    ctx.note("threads", n)
    ctx.sig(tuple(k.__name__ for k in kinds), noise.digest())
    ctx.describe("own", kinds=[k.__name__ for k in kinds], switches=noise.switches)


def first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if repr(x) != repr(y):
            return f"record {i}: {repr(x)[:200]} / {repr(y)[:200]}"
    return "length"


def run_alone(k, s):
    """In a thread of its own, like the real run, but alone."""
    box = []

    def go():
        try:
            box.append(k(s))
        except BaseException as e:  # noqa: B902
            box.append(e)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if isinstance(box[0], BaseException):
        raise box[0]
    return box[0]


class Mine(NumpyOps):
    name = "mine"


@group(40, 3000, 30)
def settings_invisible(ctx, rng):
    """One thread changes settings (also without a block); the others, and
    threads they start, do not see it at any moment."""
    n = int(rng.choice([2, 3]))
    stop = threading.Event()
    seen = []
    main_ops = get_current_ops()
    base = (type(main_ops).name, DATA_VALIDATION.get(), dict(context_operators.get()))

    def changer():
        for k in range(30):
            set_current_ops(Mine())
            assert type(get_current_ops()).name == "mine"
            DATA_VALIDATION.set(bool(k % 2))
            with Model.define_operators({"+": lambda a, b: 1}):
                with use_ops("mps"):
                    time.sleep(0)
        stop.set()

    def watcher():
        out = set()
        while True:
            a = Model("a", zoo_fwd)
            try:
                op = a + a
            except TypeError:
                op = None
            out.add((type(get_current_ops()).name, type(a.ops).name, DATA_VALIDATION.get(), op))
            if stop.is_set():
                return out

    noise = Noise(rng, 0.2)
    res = noise.run([changer] + [watcher] * n)
    for st, r in res:
        if st == "error":
            raise r
    for _, out in res[1:]:
        ctx.check(out == {("numpy", "numpy", base[1], None)}, "settings-visible", f"a thread saw {out} while another one changed its own settings")
    ctx.check(get_current_ops() is main_ops and DATA_VALIDATION.get() == base[1] and context_operators.get() == base[2],
              "settings-visible", "the main thread's settings were changed by another thread")
    ctx.note("switches_in_thinc", noise.switches)
    ctx.sig(noise.digest())
    ctx.describe("settings", switches=noise.switches)


def zoo_fwd(model, X, is_train):
    return X, lambda d: d


@group(10, 800, 8)
def ids(ctx, rng):
    """Ids of nodes and shims created concurrently."""
    from thinc.shims.shim import Shim

    n = 4

    def work():
        out = []
        for _ in range(25):
            a = Model("a", zoo_fwd)
            out.append(a)
            out.append(Shim(None))
            out.append(a.copy())
        return out

    noise = Noise(rng, 0.3)
    objs = []
    for st, r in noise.run([work] * n):
        if st == "error":
            raise r
        objs += r
    ids = [o.id for o in objs]
    ctx.check(len(set(ids)) == len(ids), "id-not-unique", f"{len(ids)} nodes and shims created by {n} threads have {len(set(ids))} different ids")
    ctx.note("concurrent_nodes", len(ids))
    ctx.note("switches_in_thinc", noise.switches)
    ctx.sig(noise.digest())
    ctx.describe("ids", switches=noise.switches)
