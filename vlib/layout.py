"""The same values in different memory layouts."""
import numpy as np

LAYOUTS = ["c", "f", "strided", "sliced", "reversed", "transposed", "offset"]


def relayout(a, how):
    """An array equal to a (same shape, dtype, values) with another layout."""
    a = np.asarray(a)
    if how == "c" or a.ndim == 0:
        return np.array(a, order="C", copy=True)
    if how == "f":
        return np.array(a, order="F", copy=True)
    if how == "strided":
        big = np.full((a.shape[0] * 2 + 1,) + a.shape[1:], 7, dtype=a.dtype)
        v = big[1::2]
        v = v[: a.shape[0]]
        v[...] = a
        return v
    if how == "sliced":
        big = np.full(a.shape[:-1] + (a.shape[-1] + 3,), 7, dtype=a.dtype)
        v = big[..., 2 : 2 + a.shape[-1]]
        v[...] = a
        return v
    if how == "reversed":
        v = np.array(a[::-1], order="C", copy=True)[::-1]
        return v
    if how == "transposed":
        v = np.array(a.T, order="C", copy=True).T
        return v
    if how == "offset":
        big = np.full(a.size + 5, 7, dtype=a.dtype)
        v = big[3 : 3 + a.size].reshape(a.shape)
        v[...] = a
        return v
    raise ValueError(how)


def pick(rng, a, p_c=0.4):
    if rng.random_sample() < p_c:
        return relayout(a, "c"), "c"
    how = LAYOUTS[rng.randint(len(LAYOUTS))]
    return relayout(a, how), how
