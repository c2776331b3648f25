"""Wrapped PyTorch models against PyTorch itself: for random modules (dense,
normalising, dropping, convolutional, recurrent, embedding, several inputs and
outputs, tied and frozen parameters) a deep copy of the module is run by hand -
eval/train mode, autograd, and the thinc optimizer's rule applied to each named
parameter - next to the wrapped one, over random histories of predictions,
updates, saves, loads, copies and temporary parameters.  Converters are checked
for values, dtypes and structure both ways.  Distinct = module family, input
structure, history."""
import contextlib
import copy
import os
import tempfile
from pathlib import Path

import numpy as np
import torch
from torch import nn

import thinc.api as T
from thinc.api import (
    ArgsKwargs,
    Linear,
    Optimizer,
    PyTorchRNNWrapper,
    PyTorchWrapper,
    PyTorchWrapper_v2,
    PyTorchWrapper_v3,
    Relu,
    TorchScriptWrapper_v1,
    chain,
    concatenate,
    pytorch_to_torchscript_wrapper,
    residual,
    torch2xp,
    with_array,
    xp2torch,
)
from thinc.api import Model, PyTorchShim
from thinc.shims.shim import Shim
from thinc.types import Padded

from checks.p16 import foreign_padded
from vlib import cont
from vlib.core import group

torch.set_num_threads(1)
QUICK_X = 10
ASSUMPTIONS = [
    "CPU only: mixed precision needs a GPU and stays off; the gradient scaler, which refuses CPU tensors, is made to take them for CUDA tensors",
    "integer inputs, and inputs the module does not use, have no gradient (None)",
    "a list of inputs gets a tuple of gradients (asserted by thinc's own tests)",
    "modules whose outputs are dictionaries are only predicted with (training is documented for tensors and tuples)",
]


# -- module families -----------------------------------------------------------
class TwoIn(nn.Module):
    def __init__(s, a, b, o):
        super().__init__()
        s.x, s.y = nn.Linear(a, o), nn.Linear(b, o)

    def forward(s, x, y=None, *, scale=1.0, mask=None):
        out = torch.tanh(s.x(x)) * scale
        if y is not None:
            out = out + s.y(y)
        return out if mask is None else out * mask


class Deep(nn.Module):
    """Takes arrays within tuples, lists and dicts."""

    def __init__(s, a, b, o):
        super().__init__()
        s.x, s.y = nn.Linear(a, o), nn.Linear(b, o)

    def forward(s, x, state, rest=None):
        h, more = state
        out = torch.tanh(s.x(x)) * torch.sigmoid(s.y(h))
        for m in more:
            out = out + m["v"] * m["w"]
        if rest:
            out = out - s.y(rest["h"][0])
        return out


class TwoOut(nn.Module):
    def __init__(s, i, o, kind):
        super().__init__()
        s.a, s.b, s.kind = nn.Linear(i, o), nn.Linear(i, o + 1), kind

    def forward(s, x):
        out = [torch.tanh(s.a(x)), s.b(x), s.a(x) * 2]
        return tuple(out) if s.kind == "tuple" else out


class Embed(nn.Module):
    def __init__(s, v, o, extra):
        super().__init__()
        s.e = nn.Embedding(v, o)
        s.l = nn.Linear(extra, o) if extra else None

    def forward(s, ids, x=None):
        out = s.e(ids)
        return out if s.l is None else out + s.l(x)


class Tied(nn.Module):
    def __init__(s, w):
        super().__init__()
        s.a = nn.Linear(w, w)
        s.b = nn.Linear(w, w)
        s.b.weight = s.a.weight
        s.c = nn.Linear(w, w)
        for p in s.c.parameters():
            p.requires_grad = False

    def forward(s, x):
        return s.c(torch.tanh(s.b(torch.relu(s.a(x)))))


class Counter(nn.Module):
    def __init__(s, w):
        super().__init__()
        s.l = nn.Linear(w, w)
        s.register_buffer("seen", torch.zeros(()))
        s.register_buffer("mean", torch.zeros(w))

    def forward(s, x):
        if s.training:
            with torch.no_grad():
                s.seen = s.seen + 1
                s.mean = 0.9 * s.mean + 0.1 * x.mean(0)
        return s.l(x - s.mean)


class Nested(nn.Module):
    def __init__(s, i):
        super().__init__()
        s.a = nn.Linear(i, 2)

    def forward(s, x):
        return {"a": s.a(x), "b": [x, (s.a(x), 3)], "c": "text", "d": None}


class Odd(nn.Module):
    """A scalar parameter, an input it ignores, and one output in a container."""

    def __init__(s, i, o, kind):
        super().__init__()
        s.l, s.kind = nn.Linear(i, o), kind
        s.drop = nn.Sequential(nn.Dropout(0.5))
        s.scale = nn.Parameter(torch.tensor(1.5))

    def forward(s, x, ignored):
        out = s.drop(torch.tanh(s.l(x))) * s.scale
        return (out,) if s.kind == "tuple" else [out] if s.kind == "list" else out


class Times(nn.Module):
    """One parameter without dimensions."""

    def __init__(s):
        super().__init__()
        s.v = nn.Parameter(torch.tensor(0.75))

    def forward(s, x):
        return x * s.v


class Fam:
    """make() -> module;  x(rng) -> (X in thinc's form, args, kwargs as arrays)"""

    def __init__(self, name, make, x, struct="array", f64=False, script=True):
        self.name, self.make, self.x, self.struct, self.f64, self.script = name, make, x, struct, f64, script


def f4(rng, *shape, dt="f"):
    a = rng.standard_normal(shape).astype(dt)
    k = rng.rand()
    if k < 0.15 and a.ndim > 1:
        return np.asfortranarray(a)
    if k < 0.25:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k < 0.3 and a.ndim > 1:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if k < 0.4:
        b = np.zeros((2 * shape[0],) + shape[1:], dt)
        b[::2] = a
        return b[::2]
    return a


def family(rng, name=None):
    name = name or str(rng.choice(["dense", "dense", "conv", "two", "two", "deep", "kwargs", "outs", "embed", "tied", "counter", "f64", "odd"]))
    n = lambda: int(rng.randint(2, 6))  # noqa: E731
    i, o, h = int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 5))
    if name in ("dense", "f64"):
        act = [nn.Tanh, nn.ReLU, nn.GELU, nn.Sigmoid][rng.randint(4)]
        norm = rng.randint(3)
        drop = float(rng.choice([0.0, 0.3, 0.6]))
        f64 = name == "f64"

        def make():
            ls = [nn.Linear(i, h), act()]
            if norm == 1:
                ls.append(nn.LayerNorm(h))
            elif norm == 2:
                ls.append(nn.BatchNorm1d(h))
            ls += [nn.Dropout(drop), nn.Linear(h, o)]
            m = nn.Sequential(*ls)
            return m.double() if f64 else m

        def x(rng):
            X = f4(rng, n(), i, dt="d" if f64 else "f")
            return X, (X,), {}

        return Fam(f"{name}:{act.__name__}:{norm}", make, x, f64=f64)
    if name == "conv":
        def x(rng):
            X = f4(rng, n(), i, 5)
            return X, (X,), {}

        return Fam("conv", lambda: nn.Sequential(nn.Conv1d(i, h, 3, padding=1), nn.ReLU(), nn.Conv1d(h, o, 1)), x)
    if name == "two":
        struct = str(rng.choice(["tuple", "list", "dict", "ArgsKwargs"]))

        def x(rng):
            k = n()
            a, b = f4(rng, k, i), f4(rng, k, h)
            if struct == "tuple":
                return (a, b), (a, b), {}
            if struct == "list":
                return [a, b], (a, b), {}
            if struct == "dict":
                return {"x": a, "y": b}, (), {"x": a, "y": b}
            return ArgsKwargs(args=(a,), kwargs={"y": b}), (a,), {"y": b}

        return Fam("two", lambda: TwoIn(i, h, o), x, struct, script=False)
    if name == "deep":
        struct = str(rng.choice(["tuple", "list", "dict", "ArgsKwargs"]))

        def x(rng):
            k = n()
            a = f4(rng, k, i)
            state = (f4(rng, k, h), [{"v": f4(rng, k, o), "w": 0.5 + j} for j in range(int(rng.randint(0, 3)))])
            rest = {"h": (f4(rng, k, h), "text", None)} if rng.rand() < 0.5 else {}
            if struct == "tuple":
                return (a, state, rest), (a, state, rest), {}
            if struct == "list":
                return [a, state, rest], (a, state, rest), {}
            if struct == "dict":
                return {"x": a, "state": state, "rest": rest}, (), {"x": a, "state": state, "rest": rest}
            return ArgsKwargs(args=(a, state), kwargs={"rest": rest}), (a, state), {"rest": rest}

        return Fam("deep", lambda: Deep(i, h, o), x, struct, script=False)
    if name == "kwargs":
        def x(rng):
            k = n()
            a, b, mask = f4(rng, k, i), f4(rng, k, h), rng.randint(0, 2, (k, o)).astype("i8")
            kw = {"scale": 2.5, "mask": mask}
            if rng.rand() < 0.5:
                kw["y"] = b
            return ArgsKwargs(args=(a,), kwargs=dict(kw)), (a,), kw

        return Fam("kwargs", lambda: TwoIn(i, h, o), x, "ArgsKwargs", script=False)
    if name == "outs":
        kind = str(rng.choice(["tuple", "list"]))

        def x(rng):
            X = f4(rng, n(), i)
            return X, (X,), {}

        return Fam(f"outs:{kind}", lambda: TwoOut(i, o, kind), x, script=False)
    if name == "embed":
        extra = int(rng.randint(0, 3))
        dt = str(rng.choice(["i4", "i8"]))

        def x(rng):
            ids = rng.randint(0, 7, n()).astype(dt)
            if not extra:
                return ids, (ids,), {}
            b = f4(rng, len(ids), extra)
            return (ids, b), (ids, b), {}

        return Fam(f"embed:{extra}:{dt}", lambda: Embed(7, o, extra), x, "tuple" if extra else "array", script=False)
    if name == "odd":
        kind = str(rng.choice(["tuple", "list", "tensor"]))

        def x(rng):
            k = n()
            a, b = f4(rng, k, i), f4(rng, k, h)
            return (a, b), (a, b), {}

        return Fam(f"odd:{kind}", lambda: Odd(i, o, kind), x, "tuple", script=False)
    w = i

    def x(rng):
        X = f4(rng, n(), w)
        return X, (X,), {}

    if name == "tied":
        return Fam("tied", lambda: Tied(w), x)
    return Fam("counter", lambda: Counter(w), x, script=False)


# -- the hand-run twin ------------------------------------------------------------
def nested(f, a):
    if isinstance(a, dict):
        return {k: nested(f, v) for k, v in a.items()}
    if isinstance(a, (list, tuple)):
        return type(a)(nested(f, v) for v in a)
    return f(a)


def leaves(*vs):
    out = []
    nested(out.append, vs)
    return out


def arrays(args, kw):
    return [a for a in leaves(*args, *kw.values()) if isinstance(a, np.ndarray)]


def tens(a, grad):
    if isinstance(a, (dict, list, tuple)):
        return nested(lambda v: tens(v, grad), a)
    if not isinstance(a, np.ndarray):
        return a
    t = torch.tensor(np.array(a))
    if grad and a.dtype.kind == "f":
        t.requires_grad_()
    return t


def outs(y):
    return [v.detach().numpy() for v in y] if isinstance(y, (tuple, list)) else [y.detach().numpy()]


class Twin:
    def __init__(self, module):
        self.m = copy.deepcopy(module)

    def predict(self, args, kw):
        self.m.eval()
        with torch.no_grad():
            return outs(self.m(*[tens(a, False) for a in args], **{k: tens(v, False) for k, v in kw.items()}))

    def train(self, args, kw, seed):
        self.m.train()
        a = [tens(v, True) for v in args]
        k = {n: tens(v, True) for n, v in kw.items()}
        torch.manual_seed(seed)
        y = self.m(*a, **k)

        def back(ds):
            ys = list(y) if isinstance(y, (tuple, list)) else [y]
            torch.autograd.backward(ys, [torch.tensor(np.array(d)) for d in ds])
            g = lambda t: t.grad.numpy() if isinstance(t, torch.Tensor) and t.grad is not None else None  # noqa: E731
            return [nested(g, t) for t in a], {n: nested(g, t) for n, t in k.items()}

        return outs(y), back

    def update(self, opt, key):
        for name, p in self.m.named_parameters():
            if p.grad is not None:
                w, g = opt((key, name), p.data.numpy().copy(), p.grad.numpy().copy())
                p.data = torch.tensor(np.array(w))
                p.grad.zero_()


def state(m):
    return {k: v.detach().numpy().copy() for k, v in m.state_dict().items()}


def grads(m):
    return {n: None if p.grad is None else p.grad.numpy().copy() for n, p in m.named_parameters()}


def same_state(ctx, got, want, mech, msg, tol=1e-5):
    if not ctx.check(list(got) == list(want), mech, f"{msg}: {list(got)} instead of {list(want)}"):
        return
    for k in want:
        if want[k] is None or got[k] is None:
            none = lambda v: v is None or not v.any()  # noqa: E731
            ctx.check(none(want[k]) and none(got[k]), mech, f"{msg}: {k} has {'a' if want[k] is None else 'no'} gradient")
            continue
        ctx.check(got[k].dtype == want[k].dtype and got[k].shape == want[k].shape, mech, f"{msg}: {k}: {got[k].dtype}{got[k].shape} instead of {want[k].dtype}{want[k].shape}")
        ctx.close(got[k], want[k], mech, f"{msg}: {k}", rtol=tol, atol=tol)


def same_out(ctx, Y, want, mech, msg):
    ys = list(Y) if isinstance(Y, (tuple, list)) else [Y]
    ctx.check(len(ys) == len(want), mech, f"{msg}: {len(ys)} outputs")
    for y, w in zip(ys, want):
        ctx.check(isinstance(y, np.ndarray) and y.dtype == w.dtype and y.shape == w.shape, mech, f"{msg}: {type(y).__name__}")
        ctx.close(y, w, mech, msg, rtol=1e-5, atol=1e-6)


def same_gradient(ctx, dX, struct, args, kw, mech):
    """dX has the structure of the input and torch's gradients in it."""
    if struct == "array":
        got_a, got_k = [dX], {}
    elif struct in ("tuple", "list"):
        ctx.check(isinstance(dX, tuple), mech, f"gradient of a {struct} is a {type(dX).__name__}")
        got_a, got_k = list(dX), {}
    elif struct == "dict":
        ctx.check(isinstance(dX, dict), mech, f"gradient of a dict is a {type(dX).__name__}")
        got_a, got_k = [], dict(dX)
    else:
        ctx.check(isinstance(dX, ArgsKwargs), mech, f"gradient of ArgsKwargs is {type(dX).__name__}")
        got_a, got_k = list(dX.args), dict(dX.kwargs)
    ctx.check(len(got_a) == len(args) and set(got_k) == set(kw), mech, f"{len(got_a)} positional gradients, keywords {sorted(got_k)}")
    pairs = [*zip(got_a, args), *((got_k[k], kw[k]) for k in kw if k in got_k)]
    if any(isinstance(w, (dict, list, tuple)) for _, w in pairs):
        kinds = lambda v: {k: kinds(x) for k, x in v.items()} if isinstance(v, dict) else [type(v)] + [kinds(x) for x in v] if isinstance(v, (list, tuple)) else 0  # noqa: E731
        ctx.check(kinds([g for g, _ in pairs]) == kinds([w for _, w in pairs]), mech, "the gradients of nested inputs have another structure")
        pairs = list(zip(leaves(*[g for g, _ in pairs]), leaves(*[w for _, w in pairs])))
    for g, w in pairs:
        if w is None:
            ctx.check(not isinstance(g, np.ndarray), mech, "a gradient for an input that has none")
        elif ctx.check(isinstance(g, np.ndarray), mech, f"gradient is {type(g).__name__}"):
            ctx.close(g, w, mech, "input gradient", rtol=1e-4, atol=1e-5)


WRAP = {"v1": PyTorchWrapper, "v2": PyTorchWrapper_v2, "v3": PyTorchWrapper_v3}


def optimizer(rng, f64):
    kind = "sgd" if f64 else str(rng.choice(["sgd", "adam", "radam"]))
    kw = dict(
        beta1=0.0 if kind == "sgd" else 0.9, beta2=0.0 if kind == "sgd" else 0.99, eps=1e-4,
        L2=float(rng.choice([0, 0.1])), L2_is_weight_decay=bool(rng.rand() < 0.5),
        grad_clip=float(rng.choice([0.0, 1.0])), use_radam=kind == "radam",
        use_averages=bool(rng.rand() < 0.7),
    )
    lr = float(rng.choice([0.01, 0.1]))
    return kind, lambda: Optimizer(lr, **kw)


def module_of(model):
    """The torch module behind a wrapper (through its public state)."""
    return model.shims[0]._model


@group(50, 2500, 40)
def histories(ctx, rng):
    fam = family(rng)
    version = str(rng.choice(list(WRAP)))
    torch.manual_seed(int(rng.randint(2**31)))
    model = WRAP[version](fam.make())
    kind, mk = optimizer(rng, fam.f64)
    opt, shadow_opt = mk(), mk()
    twin = Twin(module_of(model))
    ctx.describe(fam.name, version=version, struct=fam.struct, optimizer=kind)
    left = []  # copies left behind: (model, state)
    log = []
    for _ in range(int(rng.randint(3, 9))):
        act = str(rng.choice(["predict", "train", "train", "train", "save", "copy", "params"]))
        log.append(act)
        X, args, kw = fam.x(rng)
        keep = cont.digest(arrays(args, kw))
        if rng.rand() < 0.4:  # the mode somebody else left a part of the module in
            parts = list(module_of(model).modules())
            parts[rng.randint(len(parts))].train(bool(rng.randint(2)))
        if act == "predict":
            before = state(module_of(model))
            how = rng.randint(3)
            Y = model.predict(X) if how == 0 else model(X, is_train=False)[0] if how == 1 else model(X, False)[0]
            same_out(ctx, Y, twin.predict(args, kw), "predict", f"{fam.name} after {log}")
            same_state(ctx, state(module_of(model)), before, "predict:state", "state changed by a prediction", 0)
        elif act == "train":
            pend = []
            for more in range(int(rng.choice([1, 1, 2, 3]))):
                if more:
                    X, a_, k_ = fam.x(rng)
                    args, kw = (*args, *a_), {**kw, **{f"{n}/{more}": v for n, v in k_.items()}}
                    keep = cont.digest(arrays(args, kw))
                    used = a_, k_
                else:
                    used = args, kw
                seed = int(rng.randint(2**31))
                wY, wback = twin.train(*used, seed)
                torch.manual_seed(seed)
                Y, bp = model.begin_update(X) if rng.rand() < 0.5 else model(X, is_train=True)
                same_out(ctx, Y, wY, "train", f"{fam.name} after {log}")
                if "outs" in fam.name:
                    ctx.check(isinstance(Y, tuple if fam.name == "outs:tuple" else list), "train:structure", f"{type(Y).__name__} of outputs")
                if "odd" in fam.name:
                    ctx.check(type(Y).__name__ == {"tuple": "tuple", "list": "list", "tensor": "ndarray"}[fam.name[4:]], "train:structure", f"{type(Y).__name__} of outputs")
                pend.append((Y, bp, wback))
                if rng.rand() < 0.3:  # a prediction in between changes nothing
                    X2, a2, k2 = fam.x(rng)
                    same_out(ctx, model.predict(X2), twin.predict(a2, k2), "predict:between", "between forward and callback")
            for k in rng.permutation(len(pend)):
                Y, bp, wback = pend[k]
                ds = [f4(rng, *np.shape(y), dt=y.dtype) for y in (Y if isinstance(Y, (tuple, list)) else [Y])]
                wa, wk = wback(ds)
                dX = bp(tuple(ds) if isinstance(Y, tuple) else ds if isinstance(Y, list) else ds[0])
                same_gradient(ctx, dX, fam.struct, wa, wk, "dX")
            same_state(ctx, grads(module_of(model)), grads(twin.m), "d_params", f"gradients after {log}", 1e-4)
            if rng.rand() < 0.8:
                model.finish_update(opt)
                twin.update(shadow_opt, "k")
                same_state(ctx, grads(module_of(model)), grads(twin.m), "d_params:cleared", "gradients after the update", 0)
                if rng.rand() < 0.7:
                    opt.step_schedules()
                    shadow_opt.step_schedules()
            same_state(ctx, state(module_of(model)), state(twin.m), "update", f"state after {log}", 1e-4)
        elif act == "save":
            module = module_of(model)
            pending = any(p.grad is not None and bool(p.grad.any()) for p in module.parameters())
            new = WRAP[version](fam.make())
            how = str(rng.choice(["bytes", "dict", "disk"]))
            if how == "bytes":
                new.from_bytes(model.to_bytes())
            elif how == "dict":
                new.from_dict(model.to_dict())
            else:
                with tempfile.TemporaryDirectory() as d:
                    model.to_disk(os.path.join(d, "m"))
                    new.from_disk(os.path.join(d, "m"))
            same_state(ctx, state(module_of(new)), state(twin.m), f"save:{how}", f"after {log}", 1e-4)
            if not pending and rng.rand() < 0.6:
                left.append((model, state(module)))
                model, twin = new, Twin(module_of(new))
                opt, shadow_opt = mk(), mk()
        elif act == "copy":
            c = model.copy()
            ctx.check(module_of(c) is not module_of(model), "copy:module", "the copy shares the torch module")
            same_state(ctx, state(module_of(c)), state(module_of(model)), "copy", f"after {log}", 0)
            share = {p.data_ptr() for p in module_of(c).parameters() if p.numel()} & {p.data_ptr() for p in module_of(model).parameters() if p.numel()}
            ctx.check(not share, "copy:memory", "the copy shares parameter memory")
            if rng.rand() < 0.5:
                left.append((model, state(module_of(model))))
                model, twin = c, Twin(module_of(c))
                opt, shadow_opt = mk(), mk()
            else:
                left.append((c, state(module_of(c))))
        else:
            key = module_id(model)
            some = {n: rng.standard_normal(tuple(p.shape)).astype(p.detach().numpy().dtype) for n, p in module_of(model).named_parameters() if rng.rand() < 0.7}
            style = str(rng.choice(["key", "prefix"]))
            params = {(key, n) if style == "key" else f"pytorch_{key}_{n}": v for n, v in some.items()}
            params[(10**9, "W")] = np.zeros((2, 2), "f")
            if opt.averages and rng.rand() < 0.4:
                params = opt.averages
                some = {n: v for (k, n), v in opt.averages.items() if k == key}
                for n in some:
                    ctx.check(n in dict(module_of(model).named_parameters()), "averages:names", n)
            other = Twin(twin.m)
            with torch.no_grad():
                for n, p in other.m.named_parameters():
                    if n in some:
                        p.copy_(torch.tensor(np.array(some[n])).reshape(p.shape))
            before, image = state(module_of(model)), {k: np.array(v) for k, v in params.items()}
            boom = rng.rand() < 0.3
            try:
                with model.use_params(params):
                    same_out(ctx, model.predict(X), other.predict(args, kw), "use_params", f"{style}: temporary parameters")
                    if boom:
                        raise KeyError("planted")
            except KeyError as e:
                if "planted" not in str(e):
                    raise
            same_state(ctx, state(module_of(model)), before, "use_params:restored", f"after the block ({'exception' if boom else 'normal'})", 0)
            ctx.check(all(np.array_equal(params[k], image[k]) for k in image), "use_params:given", "the given parameters changed")
        ctx.check(cont.digest(arrays(args, kw)) == keep, "input", f"input changed by {act}")
    for m, s in left:
        same_state(ctx, state(module_of(m)), s, "left-behind", "a copy or original changed by work on the other", 0)
    ctx.note("actions", len(log))
    ctx.sig(fam.name, fam.struct, version, kind, tuple(log))


def module_id(model):
    return model.shims[0].id


class AsTorch:
    """Native layers written with torch operations (float64)."""

    def __init__(self):
        self.params = []

    def t(self, node, name):
        p = torch.tensor(np.asarray(node.get_param(name), "f8"), requires_grad=True)
        self.params.append((node, name, p))
        return p


@group(40, 2000, 30)
def chained(ctx, rng):
    """Torch modules between native layers: values and all gradients against
    the same network written in torch alone."""
    t = AsTorch()
    w0 = int(rng.randint(1, 5))
    shape = []

    def native(w):
        o = int(rng.randint(1, 5))
        if rng.rand() < 0.5:
            m = Linear(o, w).initialize()
            act = lambda v: v  # noqa: E731
        else:
            m = Relu(o, w).initialize()
            act = torch.relu
        for n in ("W", "b"):
            m.set_param(n, rng.standard_normal(m.get_param(n).shape).astype("f"))
        W, b = t.t(m, "W"), t.t(m, "b")
        shape.append("native")
        return m, o, lambda x: act(x @ W.T + b)

    def wrapped(w):
        o = int(rng.randint(1, 5))
        h = int(rng.randint(1, 5))
        mod = nn.Sequential(nn.Linear(w, h), nn.Tanh(), nn.Linear(h, o))
        m = list(WRAP.values())[rng.randint(3)](mod)
        d = copy.deepcopy(mod).double()
        for (n, p), (n2, p2) in zip(mod.named_parameters(), d.named_parameters()):
            t.params.append((mod, n, p2))
        shape.append("torch")
        return m, o, d

    def piece(w, depth):
        k = rng.randint(6)
        if depth == 0 or k < 2:
            return native(w) if rng.rand() < 0.5 else wrapped(w)
        if k == 2:
            a, o, fa = piece(w, depth - 1)
            b, o2, fb = piece(o, depth - 1)
            shape.append("chain")
            return chain(a, b), o2, lambda x: fb(fa(x))
        if k == 3:
            a, o, fa = piece(w, depth - 1)
            b, o2, fb = piece(w, depth - 1)
            shape.append("concatenate")
            return concatenate(a, b), o + o2, lambda x: torch.cat([fa(x), fb(x)], dim=1)
        if k == 4:
            for _ in range(20):
                n = len(t.params)
                s = len(shape)
                a, o, fa = piece(w, 0)
                if o == w:
                    shape.append("residual")
                    return residual(a), w, lambda x: fa(x) + x
                del t.params[n:], shape[s:]
            return native(w)
        a, o, fa = piece(w, depth - 1)
        shape.append("with_array")
        return with_array(a), o, fa

    a, o, fa = native(w0)
    b, o2, fb = wrapped(o)
    c, o3, fc = piece(o2, 2)
    m = chain(a, b, c)
    f = lambda x: fc(fb(fa(x)))  # noqa: E731
    X = rng.standard_normal((int(rng.randint(1, 6)), w0)).astype("f")
    ctx.describe("chained", shape=shape)
    tx = torch.tensor(X.astype("f8"), requires_grad=True)
    ty = f(tx)
    ctx.close(m.predict(X), ty.detach().numpy(), "chained:predict", f"{shape}", rtol=1e-4, atol=1e-4)
    Y, bp = m(X, is_train=True)
    ctx.close(Y, ty.detach().numpy(), "chained:train", f"{shape}", rtol=1e-4, atol=1e-4)
    dY = rng.standard_normal(Y.shape).astype("f")
    (ty * torch.tensor(dY.astype("f8"))).sum().backward()
    tol = dict(rtol=1e-3, atol=1e-3 * max(1.0, float(tx.grad.abs().max())))
    ctx.close(bp(dY), tx.grad.numpy(), "chained:dX", f"{shape}", **tol)
    for node, name, p in t.params:
        g = dict(node.named_parameters())[name].grad.numpy() if isinstance(node, nn.Module) else node.get_grad(name)
        want = p.grad.numpy()
        ctx.close(g, want, "chained:d_params", f"{shape}: {name}", rtol=1e-3, atol=1e-3 * max(1.0, float(np.abs(want).max())))
    # one update reaches every parameter
    lr = 0.1
    old = {id(p): p.detach().clone() for _, _, p in t.params}
    m.finish_update(Optimizer(lr, beta1=0.0, beta2=0.0, L2=0.0, grad_clip=0.0))
    for node, name, p in t.params:
        now = dict(node.named_parameters())[name].detach().numpy() if isinstance(node, nn.Module) else node.get_param(name)
        want = (old[id(p)] - lr * p.grad).numpy()
        ctx.close(now, want, "chained:update", f"{shape}: {name}", rtol=1e-3, atol=1e-3 * max(1.0, float(np.abs(want).max())))
    ctx.sig(tuple(shape))


@group(20, 1000, 15)
def recurrent(ctx, rng):
    kind = str(rng.choice(["LSTM", "GRU", "RNN"]))
    i, h, depth = int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.choice([1, 2]))
    mod = getattr(nn, kind)(i, h, depth)
    twin = copy.deepcopy(mod).double()
    m = PyTorchRNNWrapper(mod)
    ls = [int(x) for x in cont.rand_lengths(rng, min_len=1)]
    xs = [rng.standard_normal((n, i)).astype("f") for n in ls]
    Xp = foreign_padded(rng, xs)
    ctx.describe(kind, depth=depth, lengths=ls)
    tx = [torch.tensor(x.astype("f8"), requires_grad=True) for x in xs]
    ty = [twin(v.unsqueeze(1))[0][:, 0] for v in tx]
    cols = {int(k): j for j, k in enumerate(Xp.indices)}

    def check(P, want, mech):
        ctx.check(isinstance(P, Padded) and np.array_equal(P.lengths, Xp.lengths) and np.array_equal(P.indices, Xp.indices)
                  and np.array_equal(P.size_at_t, Xp.size_at_t), mech, "frame of the padded batch")
        for k, w in enumerate(want):
            ctx.close(P.data[: ls[k], cols[k]], w, mech, f"sequence {k}", rtol=1e-4, atol=1e-4)

    check(m.predict(Xp), [y.detach().numpy() for y in ty], f"{kind}:predict")
    Y, bp = m(Xp, is_train=True)
    check(Y, [y.detach().numpy() for y in ty], f"{kind}:train")
    d = np.zeros(Y.data.shape, "f")
    ds = [rng.standard_normal(y.shape) for y in ty]
    for k, g in enumerate(ds):
        d[: ls[k], cols[k]] = g
    sum((y * torch.tensor(g)).sum() for y, g in zip(ty, ds)).backward()
    dX = bp(Padded(d, Y.size_at_t, Y.lengths, Y.indices))
    check(dX, [v.grad.numpy() for v in tx], f"{kind}:dX")
    for (n, p), (_, q) in zip(mod.named_parameters(), twin.named_parameters()):
        ctx.close(p.grad.numpy(), q.grad.numpy(), f"{kind}:d_params", n, rtol=1e-3, atol=1e-3 * max(1, float(q.grad.abs().max())))
    ctx.sig(kind, depth, tuple(ls))


@group(6, 250, 4)
def scripted(ctx, rng):
    """TorchScript wrappers behave like the wrapper they are made from."""
    while True:
        fam = family(rng, str(rng.choice(["dense", "conv", "tied"])))
        if fam.script:
            break
    model = PyTorchWrapper_v3(fam.make())
    twin = Twin(module_of(model))
    s = pytorch_to_torchscript_wrapper(model)
    ctx.describe("script", family=fam.name)
    X, args, kw = fam.x(rng)
    same_out(ctx, s.predict(X), twin.predict(args, kw), "script:predict", fam.name)
    for name, m2 in (("script", s), ("script:loaded", TorchScriptWrapper_v1().from_bytes(s.to_bytes()))):
        tw = Twin(twin.m)
        same_out(ctx, m2.predict(X), tw.predict(args, kw), f"{name}:predict", fam.name)
        if isinstance(twin.m, nn.Sequential) and any(isinstance(l, nn.Dropout) and l.p for l in twin.m):
            continue  # scripted and plain dropout may draw differently
        wY, wback = tw.train(args, kw, 1)
        Y, bp = m2(X, is_train=True)
        same_out(ctx, Y, wY, f"{name}:train", fam.name)
        d = rng.standard_normal(Y.shape).astype(Y.dtype)
        wa, wk = wback([d])
        same_gradient(ctx, bp(d), fam.struct, wa, wk, f"{name}:dX")
        m2.finish_update(Optimizer(0.1, beta1=0.0, beta2=0.0, L2=0.0, grad_clip=0.0))
        tw.update(Optimizer(0.1, beta1=0.0, beta2=0.0, L2=0.0, grad_clip=0.0), "k")
        same_out(ctx, m2.predict(X), tw.predict(args, kw), f"{name}:update", fam.name)
    ctx.sig(fam.name)


@group(10, 500, 8)
def callbacks(ctx, rng):
    """PyTorchWrapper.v3's serialisation callbacks carry the model."""
    i, o = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    calls = []

    def ser(module):
        calls.append("s")
        return b"MAGIC" + np.concatenate([p.detach().numpy().ravel() for p in module.parameters()]).tobytes()

    def deser(module, data, device):
        calls.append("d")
        if not data.startswith(b"MAGIC"):
            raise ValueError("not what was serialised")
        v, k = np.frombuffer(data[5:], "f"), 0
        new = nn.Linear(i, o)
        with torch.no_grad():
            for p in new.parameters():
                p.copy_(torch.tensor(v[k : k + p.numel()].copy()).reshape(p.shape))
                k += p.numel()
        return new.to(device)

    mk = lambda: PyTorchWrapper_v3(nn.Linear(i, o), serialize_model=ser, deserialize_model=deser)  # noqa: E731
    a, b = mk(), mk()
    X = rng.standard_normal((3, i)).astype("f")
    ctx.describe("callbacks", nI=i, nO=o)
    outer = bool(rng.rand() < 0.5)
    A, B = (chain(a, Linear(2, o)).initialize(), chain(b, Linear(2, o)).initialize()) if outer else (a, b)
    want = A.predict(X)
    B.from_bytes(A.to_bytes())
    ctx.check("s" in calls and "d" in calls, "callbacks:called", f"calls {calls}")
    ctx.close(B.predict(X), want, "callbacks:loaded", "prediction after loading", rtol=1e-6, atol=1e-7)
    ctx.sig(i, o, outer)


DTYPES = ["f4", "f8", "f2", "i4", "i8", "i2", "i1", "u1", "?"]


@group(60, 3000, 40)
def converters(ctx, rng):
    dt = np.dtype(DTYPES[rng.randint(len(DTYPES))])
    shape = tuple(int(x) for x in rng.randint(0 if rng.rand() < 0.15 else 1, 5, rng.randint(0, 5)))
    a = (rng.standard_normal(shape) * 50).astype(dt) if dt.kind != "u" else rng.randint(0, 200, shape).astype(dt)
    a = np.asarray(a)
    lay = rng.randint(6)
    if lay == 1 and a.ndim:
        a = np.asfortranarray(a)
    elif lay == 2 and a.ndim:
        a = a[::-1] if rng.randint(2) else a[..., ::-1]
    elif lay == 3 and a.ndim:
        a = a[..., ::2]
    elif lay == 4:
        a = a.T
    elif lay == 5:
        a = a.copy()
        a.setflags(write=False)
    keep = a.copy()
    grad = bool(dt.kind == "f" and rng.rand() < 0.5)
    t = xp2torch(a, requires_grad=grad)
    ctx.describe("convert", dtype=str(dt), shape=shape, layout=int(lay))
    ctx.check(isinstance(t, torch.Tensor) and tuple(t.shape) == a.shape and t.requires_grad == grad, "xp2torch", f"{tuple(t.shape)} {t.requires_grad}")
    ctx.check(np.array_equal(t.detach().numpy(), keep), "xp2torch:values", f"{dt}{shape} layout {lay}")
    b = torch2xp(t)
    ctx.check(type(b) is np.ndarray and b.dtype == dt and b.shape == a.shape and np.array_equal(b, keep), "torch2xp", f"{dt} came back as {getattr(b, 'dtype', type(b))}")
    u = torch.tensor(keep).T.contiguous().T if a.ndim == 2 else torch.tensor(keep)
    ctx.check(np.array_equal(torch2xp(u), keep), "torch2xp:layout", "values of a transposed tensor")
    if grad:
        v = (t * 2).relu() if t.dtype != torch.float16 else t * 2
        ctx.check(type(torch2xp(v)) is np.ndarray, "torch2xp:graph", "a tensor in a graph")

    # nested outputs and inputs keep their structure
    def nest(depth):
        k = rng.randint(7)
        if depth == 0 or k < 2:
            return np.asarray(rng.standard_normal((2, 2)).astype("f"))
        if k == 2:
            return [nest(depth - 1) for _ in range(rng.randint(0, 3))]
        if k == 3:
            return tuple(nest(depth - 1) for _ in range(rng.randint(0, 3)))
        if k == 4:
            return {str(j): nest(depth - 1) for j in range(rng.randint(0, 3))}
        return [None, "text", 3, 2.5, True][rng.randint(5)]

    V = nest(3)
    w = T.convert_recursive(lambda x: isinstance(x, np.ndarray), xp2torch, V) if hasattr(T, "convert_recursive") else None
    from thinc.util import convert_recursive

    w = convert_recursive(lambda x: isinstance(x, np.ndarray), xp2torch, V)
    back = convert_recursive(lambda x: isinstance(x, torch.Tensor), torch2xp, w)

    def equal(p, q):
        if isinstance(p, np.ndarray):
            return isinstance(q, np.ndarray) and np.array_equal(p, q) and p.dtype == q.dtype
        if isinstance(p, dict):
            return isinstance(q, dict) and list(p) == list(q) and all(equal(p[k], q[k]) for k in p)
        if isinstance(p, (list, tuple)):
            return type(p) is type(q) and len(p) == len(q) and all(map(equal, p, q))
        return type(p) is type(q) and p == q

    ctx.check(equal(V, back), "nested", f"{V!r} became {back!r}"[:400])
    if rng.rand() < 0.3:
        X = rng.standard_normal((3, 4)).astype("f")
        n = Nested(4)
        Y = PyTorchWrapper(n).predict(X)
        a0 = n.a(torch.tensor(X)).detach().numpy()
        ctx.check(equal({"a": a0, "b": [X, (a0, 3)], "c": "text", "d": None}, Y), "nested:outputs", f"{Y!r}"[:300])
    ctx.sig(str(dt), shape, int(lay))


class Counting(Shim):
    """A minimal wrapped framework: y = w * x, built on the base class."""

    def __call__(self, inputs, is_train):
        self._model["calls"].append(bool(is_train))
        w = self._model["w"]

        def backprop(dY):
            self._model["dw"] += float((inputs * dY).sum())
            return dY * w

        return inputs * w, backprop

    def finish_update(self, optimizer):
        w, _ = optimizer((self.id, "w"), np.array([self._model["w"]], "f"), np.array([self._model["dw"]], "f"))
        self._model.update(w=float(w[0]), dw=0.0)

    def to_bytes(self):
        return repr((self._model["w"], self.cfg)).encode()

    def from_bytes(self, data):
        self._model["w"], self.cfg = eval(data.decode())
        return self


def counting(w, cfg=None):
    def forward(model, X, is_train):
        shim = model.shims[0]
        if is_train:
            return shim.begin_update(X)
        return shim.predict(X), lambda dY: dY

    return Model("counting", forward, shims=[Counting({"w": w, "calls": [], "dw": 0.0}, cfg)])


@group(20, 1000, 15)
def other_frameworks(ctx, rng):
    """A wrapper for another framework, built on the base class: modes, copies,
    saving, updates and use next to native layers."""
    w = float(np.round(rng.uniform(0.5, 2), 3))
    cfg = {"a": int(rng.randint(9)), "b": ["x", 1.5]} if rng.rand() < 0.7 else None
    m = counting(w, cfg)
    shim = m.shims[0]
    nI = int(rng.choice([1, 3]))
    chained = rng.rand() < 0.5
    top = chain(Linear(2, nI), m, Linear(2, 2)) if chained else m
    top.initialize()
    X = rng.standard_normal((3, nI)).astype("f")
    ctx.describe(w, cfg, chained)
    ctx.sig(w, str(cfg), chained)
    ctx.check(shim.cfg == (cfg or {}) and shim.cfg is not cfg, "shim-config", f"{shim.cfg} {cfg}")
    Z = top.layers[0].predict(X) if chained else X
    for train in rng.rand(6) < 0.5:
        n = len(shim._model["calls"])
        Y, bp = top(X, bool(train))
        ctx.check(shim._model["calls"][n:] == [bool(train)], "shim-mode", f"{shim._model['calls'][n:]} for is_train={train}")
        want = top.layers[2].predict(Z * np.float32(w)) if chained else X * w
        ctx.close(Y, want, "shim-output", f"{w}", 1e-4, 1e-5)
        if train:
            dY = rng.standard_normal(Y.shape).astype("f")
            d = dY @ top.layers[2].get_param("W") if chained else dY
            before = shim._model["dw"]
            bp(dY)
            ctx.close(shim._model["dw"] - before, float((Z * d).sum()), "shim-gradient", f"{w}", 1e-3, 1e-4)
    c = top.copy()
    other = c.layers[1].shims[0] if chained else c.shims[0]
    ctx.check(other is not shim and other.id != shim.id and other._model["w"] == shim._model["w"] and other._model is not shim._model, "shim-copy", f"{other.id} {shim.id}")
    other._model["w"] = 100.0
    ctx.check(shim._model["w"] == w, "shim-copy-shares", "")
    m2 = counting(0.0)
    data = m.to_bytes()
    m2.from_bytes(data)
    ctx.check(m2.shims[0]._model["w"] == w and m2.shims[0].cfg == (cfg or {}), "shim-bytes", f"{m2.shims[0].cfg}")
    with tempfile.TemporaryDirectory() as tmp:
        tmp = Path(tmp)
        for path in (tmp / "m", str(tmp / "s")):
            m.to_disk(path)
            m3 = counting(0.0)
            m3.from_disk(path)
            ctx.check(m3.shims[0]._model["w"] == w and m3.shims[0].cfg == (cfg or {}), "shim-disk", f"{m3.shims[0].cfg}")
            shim.to_disk(str(path) + "x")
            got = Counting({"w": 0, "calls": [], "dw": 0}).from_disk(str(path) + "x")
            ctx.check(got._model["w"] == w, "shim-own-disk", f"{got._model}")
    with top.use_params({(shim.id, "w"): np.ones(1, "f")}):
        ctx.check(shim._model["w"] == w, "shim-use_params", "")
    shim._model["dw"] = 2.0
    log = []

    class Opt:
        def __call__(self, key, W, G, lr_scale=1.0):
            log.append((key, float(W.ravel()[0]), float(G.ravel()[0])))
            return W - G, G * 0

    m.finish_update(Opt())
    ctx.check(log == [((shim.id, "w"), float(np.float32(w)), 2.0)] and abs(shim._model["w"] - (w - 2)) < 1e-5, "shim-update", str(log))


@group(12, 400, 8)
def torch_config_and_dims(ctx, rng):
    """What a wrapper carries besides weights: configuration and dimensions."""
    cfg = {"a": int(rng.randint(9)), "n": {"k": [1, "x"]}} if rng.rand() < 0.7 else None
    net = torch.nn.Linear(2, 3)
    shim = PyTorchShim(net, config=cfg)
    ctx.describe(cfg)
    ctx.sig(str(cfg))
    ctx.check(shim.cfg == (cfg or {}), "shim-config", f"{shim.cfg}")
    other = PyTorchShim(torch.nn.Linear(2, 3)).from_bytes(shim.to_bytes())
    ctx.check(other.cfg == (cfg or {}), "shim-config-lost", f"{other.cfg}")
    m = T.PyTorchWrapper(net)
    ctx.check(m.has_dim("nI") is None and m.has_dim("nO") is None, "torch-dims", f"{m.has_dim('nI')} {m.has_dim('nO')}")
    m.set_dim("nI", 2)
    m.set_dim("nO", 3)
    ctx.check((m.get_dim("nI"), m.get_dim("nO")) == (2, 3), "torch-dims", "set_dim")
    ctx.raises(lambda: m.set_dim("nO", 4), "torch-dims", "another width was accepted", exc=ValueError)
    top = chain(Linear(2, 2), m)
    top.initialize()
    ctx.check(top.maybe_get_dim("nO") == 3, "torch-dims-chain", f"{top.maybe_get_dim('nO')}")
    c = m.copy()
    ctx.check((c.get_dim("nI"), c.get_dim("nO")) == (2, 3), "torch-dims-copy", "")


@contextlib.contextmanager
def as_if_cuda():
    """The gradient scaler only works on CUDA tensors: let it (and nothing else)
    take tensors on this machine for such."""
    import sys as _sys

    import thinc.shims.pytorch_grad_scaler as gs

    def is_cuda(self):
        return _sys._getframe(1).f_code.co_filename.endswith("pytorch_grad_scaler.py")

    had = gs.has_torch_amp
    gs.has_torch_amp = True
    torch.Tensor.is_cuda = property(is_cuda)
    try:
        yield
    finally:
        del torch.Tensor.is_cuda
        gs.has_torch_amp = had


def scaler_args(rng):
    kw = {}
    if rng.rand() < 0.8:
        kw["init_scale"] = float(rng.choice([1.0, 2.0, 256.0, 3.0, 0.5]))
    if rng.rand() < 0.6:
        kw["backoff_factor"] = float(rng.choice([0.5, 0.25]))
    if rng.rand() < 0.6:
        kw["growth_factor"] = float(rng.choice([2.0, 4.0, 1.5]))
    if rng.rand() < 0.8:
        kw["growth_interval"] = int(rng.randint(1, 5))
    return kw


class ScaleModel:
    """The documented behaviour of the scale."""

    def __init__(self, init_scale=2.0**16, backoff_factor=0.5, growth_factor=2.0, growth_interval=2000):
        self.scale, self.back, self.grow, self.every = init_scale, backoff_factor, growth_factor, growth_interval
        self.clean, self.inf = 0, False

    def update(self):
        if self.inf:
            self.scale, self.clean = self.scale * self.back, 0
        else:
            self.clean += 1
            if self.clean == self.every:
                self.scale, self.clean = self.scale * self.grow, 0
        self.inf = False


@group(40, 2000, 25)
def grad_scaler(ctx, rng):
    """Histories of scaling, unscaling and updating."""
    from thinc.api import PyTorchGradScaler

    kw = scaler_args(rng)
    enabled = rng.rand() < 0.85
    sc = PyTorchGradScaler(enabled, **kw) if rng.rand() < 0.5 else PyTorchGradScaler(enabled=enabled, **kw)
    ref = ScaleModel(**kw)
    if rng.rand() < 0.5:
        sc.to_(torch.device("cpu"))
    hist = []

    def tensor(bad=False):
        a = np.asarray(rng.standard_normal(tuple(rng.randint(1, 4, rng.randint(0, 4))))).astype("f")
        if bad:
            a = np.array(a)
            a.reshape(-1)[int(rng.randint(a.size))] = rng.choice([np.inf, -np.inf, np.nan])
        return torch.from_numpy(np.array(a))

    for step in range(int(rng.randint(3, 12))):
        op = str(rng.choice(["scale", "scale", "unscale", "unscale", "update", "update", "error"]))
        hist.append(op)
        s = ref.scale if enabled else 1.0
        if op == "scale":
            many = rng.rand() < 0.6
            ts = [tensor() for _ in range(int(rng.randint(0, 4)))] if many else [tensor()]
            before = [q.numpy().copy() for q in ts]
            inplace = bool(rng.randint(2))
            arg = [ts, tuple(ts)][rng.randint(2)] if many else ts[0]
            with as_if_cuda():
                got = sc.scale(arg, inplace=inplace) if inplace or rng.randint(2) else sc.scale(arg)
            if not enabled:
                ctx.check(got is arg, "scaler-disabled", "scale")
            out = list(got) if many else [got]
            ctx.check(len(out) == len(ts), "scaler-scale", "number of tensors")
            for q, b, o in zip(ts, before, out):
                ctx.check(o.shape == q.shape, "scaler-scale", f"shape {tuple(o.shape)} for {tuple(q.shape)}")
                ctx.close(o.numpy(), b * s, "scaler-scale", f"scale {s} {hist}", 1e-6, 0)
                ctx.check(np.array_equal(q.numpy(), o.numpy() if inplace and enabled else b), "scaler-inplace", f"inplace={inplace}")
        elif op == "unscale":
            bad = rng.rand() < 0.3
            k = int(rng.randint(1 if bad else 0, 4))
            which = int(rng.randint(k)) if bad else -1
            ts = [tensor(j == which) for j in range(k)]
            before = [q.numpy().copy() for q in ts]
            found = sc.unscale(ts)
            ref.inf = ref.inf or (bad and enabled)
            ctx.check(bool(found) == ref.inf and bool(sc.found_inf) == ref.inf, "scaler-found-inf", f"{found} {sc.found_inf} want {ref.inf} {hist}")
            for q, b in zip(ts, before):
                ok = np.isfinite(b)
                ctx.close(q.numpy()[ok], b[ok] / s, "scaler-unscale", f"scale {s} {hist}", 1e-6, 0)
        elif op == "update":
            sc.update()
            if enabled:
                ref.update()
            ctx.check(not sc.found_inf, "scaler-found-inf", "still set after update")
        elif enabled:
            with as_if_cuda():
                ctx.raises(lambda: sc.scale("text"), "scaler-accepts", "text", exc=ValueError)
                ctx.raises(lambda: sc.scale(3), "scaler-accepts", "number", exc=ValueError)
                ctx.raises(lambda: sc.scale([tensor(), np.ones(2, "f")]), "scaler-accepts", "array in list", exc=ValueError)
            ctx.raises(lambda: sc.scale(tensor()), "scaler-accepts", "tensor on the CPU", exc=ValueError)
    ctx.describe("scaler", kw, enabled, hist)
    ctx.sig(str(sorted(kw.items())), enabled, tuple(hist))


@group(30, 1500, 20)
def scaled_training(ctx, rng):
    """With gradient scaling, training gives what training without it gives, a
    step with an overflow is skipped, and the caller's gradient is left alone."""
    from thinc.api import Adam, PyTorchGradScaler, SGD

    kw = scaler_args(rng)
    kw["init_scale"] = float(2.0 ** rng.randint(0, 17))
    kw["growth_factor"] = 2.0
    sc = PyTorchGradScaler(enabled=True, **kw)
    ref = ScaleModel(**kw)
    i, h, o = (int(q) for q in rng.randint(1, 5, 3))
    parts = [torch.nn.Linear(i, h), torch.nn.Tanh(), torch.nn.Linear(h, o)]
    if rng.rand() < 0.3:
        parts.insert(2, Times())
    net = torch.nn.Sequential(*parts)
    twin = copy.deepcopy(net)
    if rng.rand() < 0.5:
        m = PyTorchWrapper_v2(net, mixed_precision=False, grad_scaler=sc)
    else:
        m = PyTorchWrapper_v3(net, mixed_precision=False, grad_scaler=sc)
    p = PyTorchWrapper(twin)
    shared = rng.rand() < 0.3
    make = [lambda: SGD(0.05, L2=0.0, grad_clip=0.0, use_averages=False), lambda: Adam(0.01, L2=0.01, grad_clip=1.0)][rng.randint(2)]
    om, op = make(), make()
    ctx.describe("scaled", kw, (i, h, o))
    hist = []
    for step in range(int(rng.randint(2, 6))):
        bad = rng.rand() < 0.25
        k = int(rng.choice([1, 1, 2, 3]))
        which = int(rng.randint(k)) if bad else -1
        hist.append((k, which))
        seen = False
        calls = []
        for j in range(k):
            X = f4(rng, int(rng.randint(1, 4)), i)
            with as_if_cuda():
                Y, bp = m(X, True)
            Yp, bpp = p(X, True)
            calls.append((j, X, Y, bp, Yp, bpp))
            ctx.close(Y, Yp, "scaled-output", str(hist), 1e-5, 1e-6)
        for j, X, Y, bp, Yp, bpp in calls:
            dY = f4(rng, *Y.shape)
            if j == which:
                dY = np.array(dY)
                dY[0, 0] = rng.choice([np.inf, np.nan])
                seen = True
            g0 = dY.copy()
            with as_if_cuda():
                dX = bp(dY)
            ctx.check(np.array_equal(dY, g0, equal_nan=True), "scaled-changes-gradient", f"the caller's gradient was changed, scale {ref.scale}")
            if seen:
                ctx.check(not np.any(np.nan_to_num(np.asarray(dX), nan=1.0)), "scaled-overflow-dX", f"{dX}")
            else:
                dXp = bpp(g0)
                ctx.close(dX, dXp, "scaled-dX", f"scale {ref.scale} {hist}", 1e-4, 1e-5)
        if not bad:
            for (n, a), (_, b) in zip(net.named_parameters(), twin.named_parameters()):
                ctx.close(a.grad.numpy(), b.grad.numpy(), "scaled-gradient", f"{n} scale {ref.scale} {hist}", 1e-4, 1e-5)
        n0 = dict(om.nr_update)
        with as_if_cuda():
            m.finish_update(om)
        ref.inf = bad
        ref.update()
        if bad:
            ctx.check(dict(om.nr_update) == n0, "scaled-overflow-step", "the optimizer was called")
            for q in twin.parameters():
                if q.grad is not None:
                    q.grad.zero_()
        else:
            p.finish_update(op)
        for (n, a), (_, b) in zip(net.named_parameters(), twin.named_parameters()):
            ctx.close(a.detach().numpy(), b.detach().numpy(), "scaled-parameters", f"{n} {hist}", 1e-3, 1e-4)
            ctx.check(a.grad is None or not a.grad.any(), "scaled-gradient-kept", n)
        with as_if_cuda():
            s = float(sc.scale(torch.ones(1))[0])
        ctx.close(s, ref.scale, "scaled-scale", str(hist), 1e-6, 0)
    ctx.sig(str(sorted(kw.items())), tuple(hist), i, h, o)
