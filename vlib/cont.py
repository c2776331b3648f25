"""Generic operations on the containers thinc layers exchange: float arrays,
int arrays, lists, tuples, Ragged, Padded."""
import hashlib

import numpy as np

from thinc.types import ArgsKwargs, Padded, Ragged


def is_float(a):
    return isinstance(a, np.ndarray) and a.dtype.kind == "f"


def leaves(x):
    """All arrays inside x, in order (data and structure arrays)."""
    if x is None:
        return []
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in leaves(y)]
    if isinstance(x, Ragged):
        return [x.data, x.lengths]
    if isinstance(x, Padded):
        return [x.data, x.size_at_t, x.lengths, x.indices]
    if isinstance(x, ArgsKwargs):
        return leaves(list(x.args)) + leaves(list(x.kwargs.values()))
    if isinstance(x, dict):
        return [a for k in x for a in leaves(x[k])]
    if isinstance(x, (np.floating, np.integer)):
        return [np.asarray(x)]
    return []


def data(x):
    """The float payload arrays of x (no lengths etc.)."""
    if isinstance(x, np.ndarray):
        return [x] if is_float(x) else []
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in data(y)]
    if isinstance(x, (Ragged, Padded)):
        return [x.data] if is_float(x.data) else []
    if isinstance(x, np.floating):
        return [np.asarray(x)]
    return []


def map_data(f, x):
    """Rebuild x with f applied to each float payload array."""
    if isinstance(x, np.ndarray):
        return f(x) if is_float(x) else x.copy()
    if isinstance(x, list):
        return [map_data(f, y) for y in x]
    if isinstance(x, tuple):
        return tuple(map_data(f, y) for y in x)
    if isinstance(x, Ragged):
        if x.data.size or x.dataXd.size:
            return Ragged(map_data(f, np.asarray(x.dataXd)), x.lengths.copy())
        return Ragged(map_data(f, np.asarray(x.data)), x.lengths.copy())
    if isinstance(x, Padded):
        return Padded(map_data(f, x.data), x.size_at_t.copy(), x.lengths.copy(), x.indices.copy())
    if isinstance(x, np.floating):
        return f(np.asarray(x))
    return x


def copy(x):
    return map_data(lambda a: a.copy(), x)


def cast(x, dtype):
    return map_data(lambda a: a.astype(dtype), x)


def structure(x):
    """Shape/type skeleton, including lengths."""
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.kind, tuple(x.shape))
    if isinstance(x, list):
        return ("l",) + tuple(structure(y) for y in x)
    if isinstance(x, tuple):
        return ("t",) + tuple(structure(y) for y in x)
    if isinstance(x, Ragged):
        return ("r", tuple(x.data.shape), tuple(x.lengths.tolist()))
    if isinstance(x, Padded):
        return ("p", tuple(x.data.shape), tuple(x.size_at_t.tolist()), tuple(x.lengths.tolist()), tuple(x.indices.tolist()))
    return ("o", type(x).__name__)


def pad_mask(p):
    """1 where a padded batch holds real items."""
    nS, nB = p.data.shape[:2]
    m = np.arange(nS)[:, None] < np.asarray(p.lengths)[None, :]
    return m.reshape((nS, nB) + (1,) * (p.data.ndim - 2))


def rand_like(rng, y, scale=1.0, dtype=None, zero_pad=True):
    """Random container with y's structure (an output gradient, a direction)."""

    def f(a):
        return (rng.standard_normal(a.shape) * scale).astype(dtype or a.dtype)

    if isinstance(y, list):
        return [rand_like(rng, v, scale, dtype, zero_pad) for v in y]
    if isinstance(y, tuple):
        return tuple(rand_like(rng, v, scale, dtype, zero_pad) for v in y)
    r = map_data(f, y)
    if isinstance(r, Padded) and zero_pad:
        r.data = (r.data * pad_mask(r)).astype(r.data.dtype)
    return r


def axpy(a, v, x):
    """x + a * v over the payload (structure of x)."""
    va = iter(data(v))

    def f(arr):
        return arr + a * next(va).reshape(arr.shape).astype(arr.dtype)

    return map_data(f, x)


def dot(a, b):
    tot = 0.0
    da, db = data(a), data(b)
    assert len(da) == len(db), (len(da), len(db))
    for x, y in zip(da, db):
        tot += float(np.sum(x.astype("f8").ravel() * y.astype("f8").ravel()))
    return tot


def norm(a):
    return float(np.sqrt(sum(float(np.sum(x.astype("f8") ** 2)) for x in data(a))))


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    for a in leaves(x):
        h.update(str((a.dtype.str, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    h.update(repr(structure(x)).encode())
    return h.hexdigest()


def items(x):
    """Per-sequence arrays of a batch of sequences, in original order."""
    if isinstance(x, list):
        return [np.asarray(a) for a in x]
    if isinstance(x, Ragged):
        out, i = [], 0
        d = x.dataXd if x.data.size else x.data
        for n in x.lengths:
            out.append(np.asarray(d[i : i + n]))
            i += int(n)
        return out
    if isinstance(x, Padded):
        out = [None] * len(x.indices)
        for j, (i, n) in enumerate(zip(x.indices, x.lengths)):
            out[int(i)] = np.asarray(x.data[: int(n), j])
        return out
    raise TypeError(type(x))


def maxdiff(a, b):
    m = 0.0
    for x, y in zip(data(a), data(b)):
        if x.shape != y.shape:
            return float("inf")
        if x.size:
            m = max(m, float(np.max(np.abs(x.astype("f8") - y.astype("f8")))))
    return m


def list2padded_ref(seqs):
    """Independent reference for the padded format."""
    n = len(seqs)
    order = sorted(range(n), key=lambda i: -len(seqs[i]))
    return order


LENGTH_STYLES = ["mixed", "zeros", "ones", "equal", "single", "desc", "asc", "long"]


def rand_lengths(rng, n=None, style=None, min_len=0, max_len=6):
    style = style or LENGTH_STYLES[rng.randint(len(LENGTH_STYLES))]
    if n is None:
        n = int(rng.choice([1, 2, 3, 4, 6]))
        if rng.rand() < 0.01:  # a batch beyond any plausible size threshold
            n = int(rng.randint(65, 140))
    if style == "mixed":
        ls = rng.randint(min_len, max_len + 1, size=n)
    elif style == "zeros":
        ls = rng.randint(min_len, max_len + 1, size=n)
        ls[rng.randint(n)] = min_len
        ls[-1] = min_len
    elif style == "ones":
        ls = np.ones(n, int)
    elif style == "equal":
        ls = np.full(n, rng.randint(max(1, min_len), max_len + 1))
    elif style == "single":
        ls = np.array([rng.randint(max(1, min_len), max_len + 1)])
    elif style == "desc":
        ls = np.sort(rng.randint(min_len, max_len + 1, size=n))[::-1]
    elif style == "asc":
        ls = np.sort(rng.randint(min_len, max_len + 1, size=n))
    else:
        ls = rng.randint(min_len, max_len + 1, size=n)
        ls[rng.randint(n)] = max_len * 3
    ls = np.asarray(ls, dtype="i")
    if min_len == 0 and ls.sum() == 0:
        ls[0] = 1
    return ls
