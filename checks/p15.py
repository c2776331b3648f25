"""P15: the native kernels never access memory outside their arrays.

Monitor: the extensions of the tree under test are rebuilt with
AddressSanitizer and UndefinedBehaviorSanitizer, BLAS is replaced by a plain
implementation compiled with the same instrumentation, and numpy takes its
arrays straight from malloc (so that every array has its exact bounds).  A
hostile workload calls every native entry point with wrong shapes, lengths,
indices, dtypes, strides and values; every call is made twice, with fresh
memory filled with different bytes, so that results that depend on
uninitialised memory differ; arrays that are windows of larger ones have their
surroundings checked.  A sanitizer report, a crash, a changed surrounding or a
difference is a violation; an ordinary exception is fine."""
import os

import numpy as np

from vlib import compose, cont, zoo
from vlib.core import group

try:
    import checked_blas
except ImportError:  # imported for its parts by another check
    checked_blas = None

QUICK_X = 8
CASE_S = 700  # arrays of more than 2**31 elements
I32 = np.int32
BIG = [2**31 - 1, -(2**31), 2**30, -1, 65536, 46341]

if checked_blas is not None:
    import thinc.backends.numpy_ops as _native

    assert _native.__file__.startswith(os.environ["VERIF_REPO"]), _native.__file__
    checked_blas.install()
    OPS = checked_blas.CheckedOps()
    OPS_NOBLIS = checked_blas.CheckedOps(use_blis=False)


class Args:
    """Builds arguments; the same random numbers give the same arguments."""

    def __init__(self, seed, hostility):
        self.rng = np.random.RandomState(seed)
        self.h = hostility
        self.margins = []

    def hostile(self):
        return self.rng.rand() < self.h

    def n(self, hi=6):
        return int(self.rng.randint(0, hi)) if self.rng.rand() < 0.9 else int(self.rng.choice([0, 1, 17, 64, 65, 130]))

    def place(self, a):
        """Put the array somewhere: exact block, window, strided, ..."""
        r = self.rng
        k = r.rand()
        if k < 0.6:
            return np.array(a, order="C")
        if k < 0.8 and a.ndim:  # contiguous window inside a larger block
            pad = int(r.choice([1, 4, 64]))
            base = np.empty(a.size + 2 * pad, a.dtype)
            base.view("u1")[...] = 0x5A
            w = base[pad : pad + a.size].reshape(a.shape)
            w[...] = a
            self.margins.append((base, pad, a.size))
            return w
        if not self.hostile() or a.ndim == 0:
            return np.array(a, order="C")
        k = r.randint(6)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if k == 2:
            return np.ascontiguousarray(a[::-1])[::-1]
        if k == 3:
            b = np.array(a)
            b.setflags(write=False)
            return b
        if k == 4 and a.shape[0]:
            return np.broadcast_to(a[:1], a.shape)
        if k == 5:
            raw = np.zeros(a.nbytes + 1, "u1")
            v = raw[1:].view(a.dtype).reshape(a.shape)  # unaligned
            v[...] = a
            return v
        return np.array(a)

    def floats(self, *shape, dtype=None):
        r = self.rng
        dtype = dtype or ("f" if r.rand() < 0.7 else "d")
        if self.hostile() and r.rand() < 0.4:
            shape = self.bad_shape(shape)
        a = r.standard_normal(shape)
        k = r.rand()
        if k < 0.1:
            a *= 1e30
        elif k < 0.2 and a.size:
            a.ravel()[r.randint(a.size)] = r.choice([np.nan, np.inf, -np.inf, 1e38, -1e38, 1e-45])
        with np.errstate(all="ignore"):
            a = a.astype(dtype)
        if self.hostile() and r.rand() < 0.2:
            a = a.astype(r.choice(["f2", "i4", "i8", ">f4", "c8", "?", "O"]))
            return a
        return self.place(a)

    def bad_shape(self, shape):
        r = self.rng
        shape = list(shape)
        k = r.randint(5)
        if not shape:
            return (2,)
        i = r.randint(len(shape))
        if k == 0:
            shape[i] += 1
        elif k == 1:
            shape[i] = max(0, shape[i] - 1)
        elif k == 2:
            shape[i] = 0
        elif k == 3:
            shape.append(1)
        else:
            shape.pop(i)
        return tuple(shape)

    def ints(self, shape, lo, hi, dtype="i4"):
        """Integers in [lo, hi), sometimes outside."""
        r = self.rng
        if self.hostile() and r.rand() < 0.3:
            shape = self.bad_shape(shape)
        a = r.randint(lo, max(hi, lo + 1), size=shape).astype("i8")
        if a.size and self.hostile():
            for _ in range(int(r.randint(1, 3))):
                a.ravel()[r.randint(a.size)] = r.choice([hi, hi + 1, -1, -2, *BIG])
        if dtype == "u4":
            a %= 2**32
        elif dtype == "u8":
            pass
        a = a.astype(dtype)
        if self.hostile() and r.rand() < 0.15:
            return a.astype(r.choice(["i8", "u4", "i2", "f4", "u8"]))
        return self.place(a)

    def lengths(self, total, zeros=True):
        """Lengths that sum to total, sometimes not."""
        r = self.rng
        ls = []
        left = total
        while left > 0:
            k = int(r.randint(0 if zeros else 1, left + 1))
            ls.append(k)
            left -= k
            if len(ls) > 40:
                ls.append(left)
                left = 0
        if zeros and r.rand() < 0.3:
            ls.insert(int(r.randint(len(ls) + 1)), 0)
        if self.hostile():
            k = r.randint(7)
            if k == 6 and ls:
                ls[-1 if r.rand() < 0.6 else r.randint(len(ls))] += 1  # by one item only
            elif k == 0:
                ls.append(int(r.randint(1, 4)))
            elif k == 1 and ls:
                ls.pop()
            elif k == 2 and ls:
                ls[r.randint(len(ls))] = int(r.choice(BIG))
            elif k == 3:
                ls += [2**31 - 1, 2**31 - 1, 2]  # the sum wraps around to the right total
            elif k == 4:
                ls += [5, -5]
            elif k == 5 and ls:
                i = r.randint(len(ls))
                ls[i] -= 1
                ls.append(1)
        a = np.asarray(ls, dtype="i4")
        if self.hostile() and r.rand() < 0.15:
            return a.astype(r.choice(["i8", "f4", "u4"]))
        return self.place(a)

    def check_margins(self):
        for base, pad, n in self.margins:
            b = base.view("u1")
            k = pad * base.dtype.itemsize
            if not (b[:k] == 0x5A).all() or not (b[len(b) - k :] == 0x5A).all():
                return False
        return True


def image(v):
    """Bits of a result (recursively)."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("object", repr(v))
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(image(x) for x in v)
    if isinstance(v, (int, float, bool, str, bytes, type(None), np.generic)):
        return repr(v)
    ls = cont.leaves(v)
    return tuple(image(np.asarray(x)) for x in ls)


def case(ctx, rng, name, call, hostility=None):
    """call(A, ops) builds arguments from A and makes the call."""
    seed = int(rng.randint(2**31))
    h = float(rng.choice([0.0, 0.1, 0.3])) if hostility is None else hostility
    ops = OPS if rng.rand() < 0.85 else OPS_NOBLIS
    ctx.describe(name, hostility=h, seed=seed)
    seen = []
    for byte in (0, 255):
        checked_blas.fill(byte)
        A = Args(seed, h)
        try:
            with np.errstate(all="ignore"):
                out = ("ok", image(call(A, ops)))
        except (KeyboardInterrupt, SystemExit):
            raise
        except MemoryError:
            out = ("refused", "MemoryError")
        except SystemError as e:
            ctx.violate("system-error", f"{name}: {e}")
            out = ("refused", "SystemError")
        except RecursionError as e:
            ctx.violate("recursion", f"{name}: {e}")
            out = ("refused", "RecursionError")
        except Exception as e:
            out = ("refused", type(e).__name__)
        finally:
            checked_blas.fill(0)
        ctx.check(A.check_margins(), "written-outside-window", f"{name}: memory around an argument that is a window of a larger array was changed")
        seen.append(out)
    ctx.check(seen[0] == seen[1], "depends-on-uninitialised-memory",
              f"{name}: with fresh memory filled with 0x00 and 0xff: {str(seen[0])[:200]} / {str(seen[1])[:200]}")
    ctx.note(f"{name}:{seen[0][0]}")
    ctx.sig(name, h, seen[0][0], seen[0][1] if seen[0][0] == "refused" else hash(seen[0]))


@group(60, 20000, 50)
def gemm(ctx, rng):
    def call(A, ops):
        m, k, n = A.n(), A.n(), A.n()
        dt = str(A.rng.choice(["f", "f", "d"]))
        t1, t2 = bool(A.rng.rand() < 0.5), bool(A.rng.rand() < 0.5)
        x = A.floats(*((k, m) if t1 else (m, k)), dtype=dt)
        y = A.floats(*((n, k) if t2 else (k, n)), dtype=dt)
        out = A.floats(m, n, dtype=dt) if A.rng.rand() < 0.4 else None
        return ops.gemm(x, y, out=out, trans1=t1, trans2=t2), out

    case(ctx, rng, "gemm", call)


@group(60, 20000, 50)
def elementwise(ctx, rng):
    name = str(rng.choice(["relu", "backprop_relu", "mish", "backprop_mish"]))

    def call(A, ops):
        shape = [(A.n(),), (A.n(), A.n()), (A.n(), A.n(), 2)][A.rng.randint(3)]
        dt = str(A.rng.choice(["f", "f", "d"]))
        a = A.floats(*shape, dtype=dt)
        kw = {"inplace": True} if A.rng.rand() < 0.5 else {}
        if name.startswith("backprop"):
            b = A.floats(*shape, dtype=dt)
            return getattr(ops, name)(a, b, **kw), a
        return getattr(ops, name)(a, **kw), a

    case(ctx, rng, name, call)


@group(50, 20000, 40)
def maxout(ctx, rng):
    back = rng.rand() < 0.6

    def call(A, ops):
        B, O, P = A.n(), A.n(), A.n(4)
        if not back:
            return ops.maxout(A.floats(B, O, P))
        p = P if not A.hostile() else int(A.rng.choice([0, -1, 1, *BIG[3:4]]))
        return ops.backprop_maxout(A.floats(B, O), A.ints((B, O), 0, P), p)

    case(ctx, rng, "backprop_maxout" if back else "maxout", call)


@group(80, 25000, 60)
def windows(ctx, rng):
    back = rng.rand() < 0.5

    def call(A, ops):
        nW = int(A.rng.choice([0, 1, 1, 2, 3]))
        if A.hostile() and A.rng.rand() < 0.3:
            nW = int(A.rng.choice([-1, -2, 50]))
        B, I = A.n(), A.n(4)
        kw = {"lengths": A.lengths(B)} if A.rng.rand() < 0.7 else {}
        if back:
            return ops.backprop_seq2col(A.floats(B, I * max(1, 2 * nW + 1)), nW, **kw)
        return ops.seq2col(A.floats(B, I), nW, **kw)

    case(ctx, rng, "backprop_seq2col" if back else "seq2col", call)


def limit(ls):
    total = int(np.asarray(ls).astype("i8").sum()) if ls.size else 0
    if 10**7 < total < 2**31:
        raise ValueError("not asking for that much memory")


@group(220, 40000, 100)
def reductions(ctx, rng):
    how = str(rng.choice(["sum", "mean", "max", "first", "last"]))
    back = rng.rand() < 0.5

    def call(A, ops):
        T, O = A.n(), A.n(4)
        ls = A.lengths(T, zeros=how in ("sum", "mean") or A.hostile())
        B = len(ls)
        if not back:
            return getattr(ops, f"reduce_{how}")(A.floats(T, O), ls)
        d = A.floats(B, O)
        if how == "max":
            which = A.rng.randint(0, 3, size=(B, O)).astype("i4")
            for b in range(B):
                if 0 < int(ls[b]) < 100:
                    which[b] %= int(ls[b])
            if which.size and A.hostile():
                i = int(A.rng.randint(which.size))
                if A.rng.rand() < 0.6:  # by one item only, mostly in the last sequence
                    i = which.size - 1 if A.rng.rand() < 0.7 else i
                    which.ravel()[i] = min(max(int(ls[i // which.shape[1]]), 0), 2**31 - 1)
                else:
                    which.ravel()[i] = A.rng.choice([-1, 3, 7, *BIG])
            elif A.hostile():
                which = which[:, : A.rng.randint(which.shape[1] + 1)].copy() if which.ndim == 2 else which
            limit(ls)
            return ops.backprop_reduce_max(d, A.place(which), ls)
        if how in ("first", "last"):
            starts_ends = A.ints((B + 1,), 0, T + 1)
            if A.rng.rand() < 0.7 and ls.dtype == I32:
                with np.errstate(all="ignore"):
                    starts_ends = np.concatenate([[0], np.cumsum(ls, dtype="i8")]).astype("i4")
            if starts_ends.size and abs(int(starts_ends[-1])) > 10**6:
                raise ValueError("not asking for that much memory")
            return getattr(ops, f"backprop_reduce_{how}")(d, starts_ends)
        limit(ls)
        return getattr(ops, f"backprop_reduce_{how}")(d, ls)

    case(ctx, rng, f"{'backprop_' if back else ''}reduce_{how}", call)


@group(80, 25000, 60)
def tables(ctx, rng):
    name = str(rng.choice(["gather_add", "scatter_add"]))

    def call(A, ops):
        T, O, B, K = A.n(), A.n(4), A.n(), int(A.rng.choice([0, 1, 2, 4]))
        if name == "gather_add":
            return ops.gather_add(A.floats(T, O), A.ints((B, K), 0, T, str(A.rng.choice(["i4", "u4"]))))
        table = A.floats(T, O, dtype=str(A.rng.choice(["f", "f", "d"])))
        idx = A.ints((B,), 0, T)
        return ops.scatter_add(table, idx, A.floats(B, O, dtype="f")), table

    case(ctx, rng, name, call)


@group(50, 15000, 40)
def optimizer(ctx, rng):
    def call(A, ops):
        n = int(A.rng.choice([0, 1, 3, 63, 64, 65, 128, 129, 200]))
        arrays = [A.floats(n, dtype="f") for _ in range(4)]
        ops.adam(*arrays, 0.9, 0.999, 1e-8, float(A.rng.choice([0.001, 0.0, 1e30])), 1.0)
        return arrays

    case(ctx, rng, "adam", call)


@group(50, 15000, 40)
def hashing(ctx, rng):
    name = str(rng.choice(["hash", "ngrams"]))

    def call(A, ops):
        n = A.n()
        keys = A.ints((n,), 0, 10, "u8")
        if name == "hash":
            return ops.hash(keys, int(A.rng.choice([0, 1, 2**31, 2**32 - 1])) if not A.hostile() else int(A.rng.choice([-1, 2**32, 2**40])))
        k = int(A.rng.choice([1, 2, 3])) if not A.hostile() else int(A.rng.choice([0, -1, n, n + 1, 100, *BIG]))
        return ops.ngrams(k, keys)

    case(ctx, rng, name, call)


@group(25, 6000, 20)
def positions(ctx, rng):
    def call(A, ops):
        N, D = A.n(), A.n()
        if A.hostile():
            N, D = int(A.rng.choice([N, -1, 0])), int(A.rng.choice([D, -1, 0]))
        out = A.floats(max(N, 0), max(D, 0), dtype="f") if A.rng.rand() < 0.5 else None
        return ops.position_encode(N, D, int(A.rng.choice([10000, 1, 0, -3])), out)

    case(ctx, rng, "position_encode", call)


@group(70, 15000, 50)
def recurrent(ctx, rng):
    back = rng.rand() < 0.6

    def call(A, ops):
        r = A.rng
        depth, dirs, nO, nI = int(r.choice([1, 2, 3])), int(r.choice([1, 2])), int(r.choice([1, 2, 5])), int(r.choice([1, 3]))
        ls = np.sort(r.randint(1, 6, size=int(r.choice([1, 2, 4]))))[::-1]
        size_at_t = np.asarray([(ls > t).sum() for t in range(ls[0])], dtype="i4")
        N = int(ls.sum())
        total = 0
        width = nI
        for _ in range(depth):
            total += dirs * (nO * 4 * width + nO * 4 + nO * 4 * nO + nO * 4)
            width = nO * dirs
        if A.hostile():
            k = r.randint(6)
            if k == 0:
                size_at_t = np.append(size_at_t, I32(1))
            elif k == 1 and len(size_at_t):
                size_at_t = size_at_t[:-1]
            elif k == 2:
                size_at_t = size_at_t[::-1]  # growing batches
            elif k == 3:
                size_at_t = size_at_t.copy()
                size_at_t[r.randint(len(size_at_t))] = r.choice([-1, 0, 100, *BIG])
            elif k == 4:
                total += int(r.choice([-1, 1, -total, -total // 2]))
            elif k == 5:
                N = max(0, N + int(r.choice([-1, 1, -N])))
        h = (depth, dirs, nO)
        params = A.floats(max(total, 0), dtype="f")
        X = A.floats(N, nI, dtype="f")
        H0, C0 = A.floats(*h, dtype="f"), A.floats(*h, dtype="f")
        if not back:
            return ops.lstm_forward_inference(params, H0, C0, X, size_at_t)
        Y, state = ops.lstm_forward_training(params, H0, C0, X, size_at_t)
        dY = A.floats(*Y.shape, dtype="f")
        sizes = size_at_t
        if A.hostile() and r.rand() < 0.3:
            sizes = size_at_t[:-1] if r.rand() < 0.5 else np.append(size_at_t, I32(2))
        if A.hostile() and r.rand() < 0.3:
            params = A.floats(max(total - 3, 0), dtype="f")
        return Y, ops.backprop_lstm(dY, sizes, params, state)

    case(ctx, rng, "backprop_lstm" if back else "lstm", call)


@group(60, 15000, 50)
def sparse_linear(ctx, rng):
    from thinc.api import SparseLinear, SparseLinear_v2

    def call(A, ops):
        r = A.rng
        layer = [SparseLinear, SparseLinear_v2][r.randint(2)]
        nO, length = int(r.choice([1, 2, 3])), int(r.choice([1, 2, 3, 7, 8, 64]))
        m = layer(nO, length).initialize()
        m.set_param("W", A.floats(nO * length, dtype="f"))
        n = A.n()
        keys = A.ints((n,), 0, 2**62, "u8")
        values = A.floats(n, dtype="f")
        ls = A.lengths(n)
        train = r.rand() < 0.7
        Y, bp = m((keys, values, ls), train)
        dX = None
        if train:
            d = A.floats(*Y.shape, dtype="f")
            bp(d)
            dX = m.get_grad("W"), m.get_grad("b")
        return Y, dX

    case(ctx, rng, "sparse_linear", call)


@group(40, 10000, 30)
def id_mapping(ctx, rng):
    from thinc.api import Embed, HashEmbed, premap_ids

    name = str(rng.choice(["premap_ids", "Embed", "HashEmbed"]))

    def call(A, ops):
        r = A.rng
        n = A.n()
        if name == "premap_ids":
            table = {int(k): int(v) for k, v in zip(r.randint(0, 20, size=6), r.randint(-5, 2**31 - 1, size=6))}
            column = None if r.rand() < 0.6 else int(r.choice([0, 1, -1, 5]))
            m = premap_ids(table, int(r.choice([0, -1, 2**31 - 1])), column=column)
            return m.predict(A.ints((n,) if column is None else (n, 2), 0, 25, str(r.choice(["i4", "i8", "u8"]))))
        nV = int(r.choice([1, 3, 10]))
        nO = int(r.choice([1, 4]))
        m = Embed(nO, nV, column=0 if name == "Embed" and r.rand() < 0.3 else None) if name == "Embed" else HashEmbed(nO, nV, seed=3)
        m.ops = ops
        m.initialize()
        m.set_param("E", A.rng.standard_normal((nV, nO)).astype("f"))
        X = A.ints((n,), 0, nV, str(r.choice(["i4", "u8" if name == "HashEmbed" else "i8", "u4"])))
        Y, bp = m(X, True)
        bp(np.ones_like(Y))
        return Y, m.get_grad("E")

    case(ctx, rng, name, call)


FACTORIES = {**zoo.LEAVES, **zoo.ENCODERS}


@group(60, 12000, 50)
def whole_layers(ctx, rng):
    """Every layer trained on valid data of every shape, with the instrumented
    kernels underneath."""
    import torch

    from thinc.api import set_current_ops

    name = str(rng.choice(sorted(FACTORIES)))
    seed = int(rng.randint(2**31))
    seen = []
    ctx.describe(name)
    for byte in (0, 255):
        checked_blas.fill(byte)
        r = np.random.RandomState(seed)
        np.random.seed(seed % 1000)
        torch.manual_seed(seed % 1000)
        set_current_ops(checked_blas.CheckedOps())
        try:
            c = FACTORIES[name](r)
            X = c.x(r, int(r.choice([1, 2, 4])))
            m = c.model
            m.initialize(X=X)
            Y, bp = m(X, True)
            d = cont.rand_like(r, Y)
            if c.pre:
                d = c.pre(m, X, Y, d)
            dX = bp(d)
            grads = [n.get_grad(p).tobytes() for n in m.walk() for p in n.grad_names]
            seen.append((image(Y), image(dX) if dX is not None else None, grads, image(m.predict(X))))
        finally:
            checked_blas.fill(0)
    ctx.check(seen[0] == seen[1], "depends-on-uninitialised-memory", f"{name}: results differ with fresh memory filled with 0x00 and 0xff")
    ctx.note(f"layer:{name}")
    ctx.sig(name, hash(repr(seen[0])))


def zero_pages(shape, dtype="f"):
    """A large array of zeros that only takes memory where it is written."""
    import mmap

    n = int(np.prod(shape, dtype="i8")) * np.dtype(dtype).itemsize
    m = mmap.mmap(-1, n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
    return np.frombuffer(m, dtype=dtype).reshape(shape)


@group(0.375, 3, 1)
def huge(ctx, rng):
    """Arrays with more elements than an int can count."""
    kind = ["maxout", "reduce", "windows"][ctx.index % 3]
    ctx.describe(kind)
    if kind == "maxout":
        P = 60000
        B = 2**31 // P + 5
        X = zero_pages((B, 1, P))
        X[-1, 0, P - 2] = 3.0
        best, which = OPS.maxout(X)
        ctx.check(which[-1, 0] == P - 2 and best[-1, 0] == 3.0, "huge-maxout", f"{which[-1]} {best[-1]}")
    elif kind == "reduce":
        O = 2**16
        ls = np.asarray([2**15 - 1, 3], dtype="i4")  # 2**31 + 2**17 elements
        d = np.ones((2, O), dtype="f")
        which = np.asarray([[2**15 - 2], [2]], dtype="i4").repeat(O, axis=1)
        dX = OPS.backprop_reduce_max(d, which, ls)
        ctx.check(dX.shape == (2**15 + 2, O) and dX[2**15 - 2].sum() == O and dX[-1].sum() == O and dX[0].sum() == 0,
                  "huge-backprop_reduce_max", f"{dX.shape}")
    else:
        # 2**31 + 2**20 elements of windows, nearly all of them padding
        X = np.ones((257, 4), dtype="f")
        nW = (2**31 // (257 * 4)) // 2 + 512
        lengths = np.asarray([256, 1], dtype="i4")
        d = zero_pages((257, (2 * nW + 1) * 4))
        d[-1, nW * 4 : nW * 4 + 4] = [1, 2, 3, 4]
        dX = OPS.backprop_seq2col(d, nW, lengths=lengths)
        ctx.check(dX[-1].tolist() == [1, 2, 3, 4] and not dX[:-1].any(), "huge-backprop_seq2col", f"{dX[-1]}")
    ctx.note(f"huge:{kind}")
    ctx.sig(kind)


@group(0.125, 1, 1)
def awake(ctx, rng):
    """Self-test: a planted overflow in a child process must be reported."""
    import subprocess
    import sys

    code = "import sys; sys.path.insert(0, %r); import checked_blas; checked_blas.overflow(4)" % os.environ["VERIF_REPO"]
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0 or not ("AddressSanitizer" in p.stdout or "runtime error" in p.stdout):
        raise RuntimeError(f"the sanitizer does not report a planted overflow: {p.stdout[-500:]}")
    ctx.check(True, "awake")
    ctx.note("planted_overflow_reported")
    ctx.note("numpy_arrays_allocated", checked_blas.allocations())


def finish(ctx):
    ctx.note("numpy_arrays_allocated_total", checked_blas.allocations())
