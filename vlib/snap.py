"""Snapshots of models that do not use thinc's own serialisation."""
import numpy as np

from . import cont


def attr_repr(v):
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, dict):
        return ("dict", tuple((attr_repr(k), attr_repr(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(attr_repr(x) for x in v))
    if isinstance(v, (int, float, str, bool, bytes, type(None), np.generic, slice)):
        return (type(v).__name__, repr(v))
    return ("object", id(v))


def shim_state(shim):
    out = {}
    m = shim._model
    if m is None:
        return out
    if not hasattr(m, "state_dict"):
        return {"value": repr(m)}
    for k, v in m.state_dict().items():
        out[k] = (str(v.dtype), tuple(v.shape), v.detach().cpu().numpy().tobytes())
    return out


def snapshot(model, grads=True, ids=True, attrs=True):
    nodes = list(model.walk())
    pos = {id(n): i for i, n in enumerate(nodes)}
    out = []
    for n in nodes:
        s = {
            "name": n.name,
            "func": n._func,
            "layers": tuple(pos.get(id(c)) for c in n.layers),
            "dims": {d: n.maybe_get_dim(d) for d in n.dim_names},
            "params": {p: (cont.digest(np.asarray(n.get_param(p))) if n.has_param(p) else None) for p in n.param_names},
            "refs": {r: (None if n.maybe_get_ref(r) is None else pos.get(id(n.get_ref(r)), "outside")) for r in n.ref_names},
            "shims": tuple(tuple(sorted(shim_state(x).items())) for x in n.shims),
        }
        if attrs:
            s["attrs"] = {k: attr_repr(v) for k, v in n.attrs.items()}
        if grads:
            s["grads"] = {p: cont.digest(np.asarray(n.get_grad(p))) for p in n.grad_names}
        if ids:
            s["id"] = n.id
        out.append(s)
    return out


def diff(a, b, skip=()):
    """First difference of two snapshots, as text (None if equal)."""
    if len(a) != len(b):
        return f"{len(a)} nodes, {len(b)} nodes"
    for i, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if k in skip:
                continue
            if x[k] != y.get(k):
                u, v = x[k], y.get(k)
                if isinstance(u, dict) and isinstance(v, dict):
                    ks = [q for q in list(u) + list(v) if u.get(q, "absent") != v.get(q, "absent")]
                    q = ks[0] if ks else "order"
                    return f"node {i} ({x['name']}) {k}[{q}]: {str(u.get(q, 'absent'))[:120]} / {str(v.get(q, 'absent'))[:120]}"
                return f"node {i} ({x['name']}) {k}: {str(u)[:150]} / {str(v)[:150]}"
    return None


def arrays(model):
    """Every array a model holds: parameters, gradients, attribute arrays,
    torch tensors (as numpy views)."""
    out = []
    for i, n in enumerate(model.walk()):
        for p in n.param_names:
            if n.has_param(p):
                out.append((f"{i}.{n.name}.{p}", np.asarray(n.get_param(p))))
        for p in n.grad_names:
            out.append((f"{i}.{n.name}.d_{p}", np.asarray(n.get_grad(p))))
        for k, v in n.attrs.items():
            for j, a in enumerate(attr_arrays(v)):
                out.append((f"{i}.{n.name}.attrs.{k}", a))
        for j, s in enumerate(n.shims):
            if not hasattr(s._model, "state_dict"):
                continue
            for k, v in s._model.state_dict().items():
                out.append((f"{i}.shim{j}.{k}", v.detach().numpy()))
            for k, v in s._model.named_parameters():
                if v.grad is not None:
                    out.append((f"{i}.shim{j}.d_{k}", v.grad.numpy()))
    return out


def attr_arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        return [a for x in v.values() for a in attr_arrays(x)]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in attr_arrays(x)]
    return []


def shared(m1, m2):
    """Names of arrays of the two models that share memory."""
    out = []
    for n1, a in arrays(m1):
        for n2, b in arrays(m2):
            if a.size and b.size and np.may_share_memory(a, b):
                out.append((n1, n2))
    return out


def containers(v):
    """Mutable containers inside attribute values."""
    out = []
    if isinstance(v, (dict, list, set)):
        out.append(v)
    if isinstance(v, dict):
        for x in v.values():
            out += containers(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            out += containers(x)
    return out


def kept(model):
    """What the nodes keep beside their parameters, by position and name."""
    for i, n in enumerate(model.walk()):
        yield from ((i, k, v) for k, v in n.attrs.items())
        yield from ((i, f"shim{j}", s._model) for j, s in enumerate(n.shims))


def shared_containers(m1, m2):
    a = {id(c): (i, k) for i, k, v in kept(m1) for c in containers(v)}
    return [(a[id(c)], (i, k)) for i, k, v in kept(m2) for c in containers(v) if id(c) in a]


def clear_grads(model):
    """Start every node of the model from having no gradients at all."""
    for node in model.walk():
        held = getattr(getattr(node, "_params", None), "_grads", None)
        if isinstance(held, dict):
            held.clear()
        else:
            for name in node.param_names:
                if node.has_grad(name):
                    node.set_grad(name, node.get_grad(name) * 0)
        for shim in node.shims:
            if hasattr(shim._model, "zero_grad"):
                shim._model.zero_grad(set_to_none=True)


def put_dim(node, name, value):
    """Give a dimension a value, whatever the model says about it."""
    held = getattr(node, "_dims", None)
    if isinstance(held, dict):
        held[name] = value
        return
    params = {p: node.get_param(p) for p in node.param_names if node.has_param(p)}
    for p in params:
        node.set_param(p, None)
    node.set_dim(name, value, force=True)
    for p, v in params.items():
        node.set_param(p, v)
