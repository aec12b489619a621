"""Stand-ins handed to the code under test instead of numpy, scipy, math, pyvista,
sklearn, ipywidgets.  Floating-point numbers become exact symbolic numbers (core.Rl)
held in object arrays; everything else is the real library.

Each stand-in is part of the claim; its contract is the documented one of the library.
"""
import builtins
import itertools
import math
import sys
import types
from fractions import Fraction

import numpy as rnp
import pandas as pd
import z3

from . import core
from .core import (Abort, Bl, Ctx, Rl, Unencodable, lift, INF, NAN, mkbool, bexpr)

SRC_PREFIX = "fibermat"


# ----------------------------------------------------------------------------
# arrays
# ----------------------------------------------------------------------------
def is_sym(v):
    return isinstance(v, (Rl, Bl))


def has_sym(a):
    a = rnp.asarray(a)
    return a.dtype == object and any(isinstance(v, (Rl, Bl)) for v in a.flat)


class SArr(rnp.ndarray):
    """Object array standing for a float array."""

    def __array_wrap__(self, a, context=None, return_scalar=False):
        a = rnp.ndarray.__array_wrap__(self, a, context, False)
        return a[()] if a.ndim == 0 and return_scalar else a

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _floatlike(dtype):
            return sarr(rnp.array(self, dtype=object, copy=True))
        return rnp.ndarray.astype(self, dtype, *a, **k)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return rnp.ndarray.sum(self, axis=axis) / n

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)


def sarr(a):
    a = rnp.asarray(a)
    if a.dtype != object:
        if a.dtype.kind not in "fc":
            return a
        o = rnp.empty(a.shape, dtype=object)
        for i, v in enumerate(a.flat):
            o.flat[i] = lift(float(v))
        a = o
    return a.view(SArr)


def _floatlike(dtype):
    if dtype is None:
        return True
    if dtype in (float, complex, "float", "float64", "d", "f8"):
        return True
    try:
        return rnp.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def lifted(a):
    """Object array of Rl."""
    if isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        a = a.to_numpy()
    if is_sym(a):
        o = rnp.empty((), dtype=object)
        o[()] = a
        return o
    a = rnp.asarray(a)
    o = rnp.empty(a.shape, dtype=object)
    for i, v in enumerate(a.flat):
        x = lift(v)
        if x is None:
            raise TypeError("not a number: %r" % (v,))
        o.flat[i] = x
    return o


def _wrap(o, like=None):
    if o.ndim == 0:
        return o[()]
    if isinstance(like, pd.Series):
        return pd.Series(o, index=like.index, name=like.name)
    if isinstance(like, pd.DataFrame):
        return pd.DataFrame(o, index=like.index, columns=like.columns)
    return o.view(SArr)


def unary(fn, real, needs=None):
    def f(x, *a, **k):
        if isinstance(x, (pd.DataFrame, pd.Series)):
            v = x.to_numpy()
        else:
            v = x
        if not is_sym(v):
            arr = rnp.asarray(v)
            if arr.dtype != object:
                if arr.dtype.kind in "biu" and real in (rnp.isnan, rnp.isinf, rnp.isfinite):
                    return real(x)
                r = real(x, *a, **k)
                return r
        o = lifted(v)
        r = rnp.empty(o.shape, dtype=object)
        for i, e in enumerate(o.flat):
            r.flat[i] = fn(e)
        if real in (rnp.isnan, rnp.isinf, rnp.isfinite, rnp.isposinf, rnp.isneginf, rnp.signbit):
            r = r.astype(bool)
            if r.ndim == 0:
                return bool(r)
            if isinstance(x, (pd.DataFrame, pd.Series)):
                return _wrap(r, x)
            return r
        return _wrap(r, x)
    f.__name__ = getattr(real, "__name__", "f")
    return f


def binary(fn, real):
    def f(x, y, *a, **k):
        xs = x.to_numpy() if isinstance(x, (pd.DataFrame, pd.Series)) else x
        ys = y.to_numpy() if isinstance(y, (pd.DataFrame, pd.Series)) else y
        if not (has_sym(xs) or has_sym(ys)):
            return real(x, y, *a, **k)
        X, Y = rnp.broadcast_arrays(lifted(xs), lifted(ys))
        r = rnp.empty(X.shape, dtype=object)
        for i, (p, q) in enumerate(zip(X.flat, Y.flat)):
            r.flat[i] = fn(p, q)
        return _wrap(r, x if isinstance(x, (pd.DataFrame, pd.Series)) else None)
    return f


class Proxy(types.ModuleType):
    """Module that falls back to the real one."""

    def __init__(self, name, real, /, **over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__version__",):
            raise AttributeError(k)
        r = getattr(self._real, k)
        return r

    def __dir__(self):
        return dir(self._real)


# ----------------------------------------------------------------------------
# numpy
# ----------------------------------------------------------------------------
def np_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (bool, rnp.bool_)) and dtype is None:
        return rnp.full(shape, fill_value)
    if dtype is not None and not _floatlike(dtype):
        return rnp.full(shape, fill_value, dtype=dtype)
    if dtype is None and isinstance(fill_value, (int, rnp.integer)) and not is_sym(fill_value):
        return rnp.full(shape, fill_value)
    if is_sym(shape):
        shape = int(shape)
    o = rnp.empty(shape, dtype=object)
    if rnp.ndim(fill_value) == 0 or is_sym(fill_value):
        v = lift(fill_value) if lift(fill_value) is not None else fill_value
        for i in range(o.size):
            o.flat[i] = v
    else:
        o[...] = lifted(fill_value)
    return o.view(SArr)


def np_zeros(shape, dtype=None, *a, **k):
    if dtype is not None and not _floatlike(dtype):
        return rnp.zeros(shape, dtype, *a, **k)
    return np_full(shape, 0.0)


def np_ones(shape, dtype=None, *a, **k):
    if dtype is not None and not _floatlike(dtype):
        return rnp.ones(shape, dtype, *a, **k)
    return np_full(shape, 1.0)


def _like(val):
    def f(a, dtype=None, **k):
        arr = rnp.asarray(a)
        if dtype is None and arr.dtype.kind in "biu":
            return rnp.full_like(arr, val)
        if dtype is not None and not _floatlike(dtype):
            return rnp.full_like(arr, val, dtype=dtype)
        return np_full(arr.shape, float(val))
    return f


def np_full_like(a, v, dtype=None, **k):
    arr = rnp.asarray(a)
    if dtype is None and arr.dtype.kind in "biu":
        return rnp.full_like(arr, v)
    return np_full(arr.shape, v if is_sym(v) or dtype is not None else float(v), dtype)


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = lift(a), lift(b)
    div = num - 1 if endpoint else num
    o = rnp.empty(num, dtype=object)
    for i in range(num):
        o[i] = a + (b - a) * Fraction(i, div) if div > 0 else a
    if dtype is not None and not _floatlike(dtype):
        return rnp.array([int(v) for v in o], dtype=dtype)
    if retstep:
        return o.view(SArr), (b - a) / div
    return o.view(SArr)


def np_arange(*a, **k):
    if any(is_sym(v) for v in a):
        a = [int(v) for v in a]
    if any(isinstance(v, float) for v in a):
        return sarr(rnp.arange(*a, **k))
    return rnp.arange(*a, **k)


def np_array(obj, dtype=None, copy=True, **k):
    if dtype is not None and not _floatlike(dtype):
        if dtype is object or rnp.dtype(dtype) == object:
            return rnp.array(obj, dtype=object, **k).view(SArr)
        if has_sym(obj):
            return rnp.array(obj, dtype=object, **k).astype(dtype)
        return rnp.array(obj, dtype=dtype, **k)
    if isinstance(obj, SymSparse):
        raise Unencodable("array of sparse")
    r = rnp.array(obj, **k)
    if r.dtype == object or r.dtype.kind in "fc" or dtype is not None:
        if r.dtype.kind in "biu":
            r = r.astype(float)
        return sarr(r).copy()
    return r


def np_asarray(obj, dtype=None, **k):
    if isinstance(obj, rnp.ndarray) and dtype is None:
        return obj
    if isinstance(obj, rnp.ndarray) and obj.dtype == object and _floatlike(dtype):
        return obj.view(SArr)
    k.pop("copy", None)
    return np_array(obj, dtype, **k)


def _isclose1(a, b, rtol, atol, equal_nan=False):
    if a.s is not None or b.s is not None:
        if a.s is not None and b.s is not None:
            return a.s == b.s or (equal_nan and math.isnan(a.s) and math.isnan(b.s))
        return False
    d = a - b
    if d.const == 0:
        return True
    if b.const is not None:
        lim = Fraction(atol) + Fraction(rtol) * abs(b.const)
        return bool((d <= lim) & (d >= -lim))
    if d < 0:
        d = -d
    return bool(d <= lift(atol) + lift(rtol) * abs(b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A = a.to_numpy() if isinstance(a, (pd.Series, pd.DataFrame)) else a
    B = b.to_numpy() if isinstance(b, (pd.Series, pd.DataFrame)) else b
    X, Y = rnp.broadcast_arrays(lifted(A), lifted(B))
    r = rnp.empty(X.shape, dtype=bool)
    for i, (p, q) in enumerate(zip(X.flat, Y.flat)):
        r.flat[i] = _isclose1(p, q, rtol, atol, equal_nan)
    return bool(r) if r.ndim == 0 else r


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(rnp.all(np_isclose(a, b, rtol, atol, equal_nan)))


def np_array_equal(a, b, equal_nan=False):
    a, b = rnp.asarray(a), rnp.asarray(b)
    return a.shape == b.shape and bool(rnp.all(a == b))


def np_abs(x, *a, **k):
    if isinstance(x, SymSparse):
        return abs(x)
    return rnp.abs(x, *a, **k)


def np_real(x):
    if isinstance(x, (SymSparse, Rl)):
        return x.real
    return rnp.asarray(x) if rnp.asarray(x).dtype == object else rnp.real(x)


def np_sum(x, *a, **k):
    if isinstance(x, SymSparse):
        return x.sum(*a, **k)
    if k.get("where", True) is not True and has_sym(x):
        k.setdefault("initial", 0)
    return rnp.sum(x, *a, **k)


def _mean(x, axis=None, **k):
    x = x.to_numpy() if isinstance(x, (pd.Series, pd.DataFrame)) else x
    arr = rnp.asarray(x)
    if arr.dtype != object:
        return rnp.mean(x, axis=axis, **k)
    n = arr.size if axis is None else arr.shape[axis]
    r = arr.sum(axis=axis, **k)
    return r / n


def np_sort(a, axis=-1, **k):
    r = rnp.sort(rnp.asarray(a), axis=axis, **k)
    return r.view(SArr) if r.dtype == object else r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unencodable("np.interp period")
    X = lifted(x)
    xp, fp = lifted(xp), lifted(fp)
    r = rnp.empty(X.shape, dtype=object)
    for i, q in enumerate(X.flat):
        r.flat[i] = interp_1d(q, list(xp), list(fp),
                              fp[0] if left is None else lift(left),
                              fp[-1] if right is None else lift(right))
    return _wrap(r)


def interp_1d(q, xp, fp, left, right):
    """numpy.interp at one point."""
    n = len(xp)
    if q.isnan():
        return lift(NAN)
    if q > xp[-1]:
        return right
    if q < xp[0]:
        return left
    # largest j with xp[j] <= q
    j = 0
    for m in range(1, n):
        if xp[m] <= q:
            j = m
        else:
            break
    if j == n - 1:
        return fp[j]
    if q == xp[j]:
        return fp[j]
    slope = (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j])
    return slope * (q - xp[j]) + fp[j]


def _arctan2(a, b):
    raise Unencodable("arctan2")


def _unenc(name):
    def f(*a, **k):
        if not any(has_sym(v) for v in a if not isinstance(v, (str, type(None)))):
            return getattr(rnp, name)(*a, **k)
        raise Unencodable("np.%s" % name)
    return f


def _sign(e):
    return e if e.isnan() else lift(e.sign() if e.s is None else (1 if e.s > 0 else -1))


def _inf_of(sign, real):
    return unary(lambda e: e.isinf() and (e.s > 0) == (sign > 0), real)


def _copysign(a, b):
    a = abs(a)
    neg = b.s < 0 if b.s is not None else bool(b < 0)
    return -a if neg else a


def _heaviside(a, b):
    if a.isnan():
        return a
    return lift(0) if bool(a < 0) else (lift(1) if bool(a > 0) else b)


def _fmod(a, b):
    return a - (a / b).trunc() * b


def np_divmod(a, b, *r, **k):
    return NP.floor_divide(a, b), NP.mod(a, b)


def np_modf(x, *a, **k):
    if not has_sym(x):
        return rnp.modf(x, *a, **k)
    t = NP.trunc(x)
    return x - t, t


def np_bincount(x, weights=None, minlength=0):
    if weights is None or not has_sym(weights):
        return rnp.bincount(x, weights, minlength)
    ids = [int(i) for i in rnp.asarray(x).ravel()]
    r = np_zeros(max([minlength] + [i + 1 for i in ids]))
    for i, w in zip(ids, _val(weights)):
        r[i] = r[i] + w
    return r


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if e.isnan():
            return lift(nan)
        if e.isinf():
            big = sys.float_info.max
            return lift((big if posinf is None else posinf) if e.s > 0
                        else (-big if neginf is None else neginf))
        return e
    return unary(f, rnp.nan_to_num)(x)


def np_round(x, decimals=0, out=None):
    if decimals:
        if has_sym(x):
            return unary(lambda e: e.round_digits(int(decimals)), None)(x)
        return rnp.round(x, decimals)
    return unary(lambda e: e.rint(), rnp.round)(x)


def np_square(e):
    return e * e


def np_histogram(*a, **k):
    raise Unencodable("histogram")


class _Random(types.ModuleType):
    """np.random: draws are arbitrary numbers of their documented range, a function of
    (generator state, position); seeding sets the state, seed(None) sets a fresh one."""

    def __init__(self):
        super().__init__("numpy.random")
        self.reset()

    def reset(self, token="prior"):
        self.gen = _Gen((token,))
        self.fresh = 0
        self.draw_hook = None

    # -- global functions
    def seed(self, seed=None):
        if seed is None:
            self.fresh += 1
            self.gen = _Gen(("entropy", self.fresh))
        else:
            self.gen = _Gen(("seed", _seedkey(seed)))

    def default_rng(self, seed=None):
        if isinstance(seed, _Gen):
            return seed
        if seed is None:
            self.fresh += 1
            return _Gen(("entropy", self.fresh))
        return _Gen(("rng", _seedkey(seed)))

    def RandomState(self, seed=None):
        if seed is None:
            self.fresh += 1
            return _Gen(("entropy", self.fresh))
        return _Gen(("seed", _seedkey(seed)))

    def get_state(self, *a, **k):
        return (self.gen.key, self.gen.pos)

    def set_state(self, s):
        self.gen = _Gen(s[0], s[1])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.gen, k)


def _seedkey(s):
    if isinstance(s, (int, rnp.integer)):
        return ("i", int(s))
    if isinstance(s, Rl):
        if s.const is not None:
            if s.const.denominator != 1:
                raise TypeError("seed must be an integer")
            return ("i", int(s.const))
        # symbolic seed: one uninterpreted state per symbolic value
        return ("s", core.p_key(s.n))
    raise TypeError("Cannot cast seed")


class _Gen:
    def __init__(self, key, pos=0):
        self.key = key
        self.pos = pos

    def _unit(self):
        """One draw in [0, 1)."""
        ctx = Ctx.cur
        k = ("draw", self.key, self.pos)
        self.pos += 1
        hook = NP.random.draw_hook
        if hook is not None:
            return hook(self.key, self.pos - 1)
        v = ctx.divmemo.get(k)
        if v is None:
            v = ctx.real("draw:%s:%d" % (_keyname(self.key), k[2]))
            ctx.assume(v >= 0)
            ctx.assume(v < 1)
            ctx.divmemo[k] = v
        return v

    def _arr(self, size, f):
        if size is None:
            return f()
        if is_sym(size):
            size = int(size)
        o = rnp.empty(size, dtype=object)
        for i in range(o.size):
            o.flat[i] = f()
        return o.view(SArr)

    def uniform(self, low=0.0, high=1.0, size=None):
        if rnp.ndim(low) or rnp.ndim(high):
            L, H = rnp.broadcast_arrays(lifted(low), lifted(high))
            o = rnp.empty(L.shape if size is None else size, dtype=object)
            L, H = rnp.broadcast_to(L, o.shape), rnp.broadcast_to(H, o.shape)
            for i in range(o.size):
                o.flat[i] = L.flat[i] + (H.flat[i] - L.flat[i]) * self._unit()
            return o.view(SArr)
        low, high = lift(low), lift(high)
        return self._arr(size, lambda: low + (high - low) * self._unit())

    def random(self, size=None):
        return self._arr(size, self._unit)
    random_sample = sample = ranf = random

    def rand(self, *shape):
        return self._arr(shape if shape else None, self._unit)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unencodable("np.random.%s" % k)


def _keyname(key):
    return "/".join(str(p) if not isinstance(p, tuple) else
                    ("S" if p[0] == "s" else str(p[1])) for p in key)


# -- linear algebra ------------------------------------------------------------
def _val(x):
    return x.to_numpy() if isinstance(x, (pd.DataFrame, pd.Series)) else x


def la_norm(x, ord=None, axis=None, keepdims=False):
    o = lifted(_val(x))
    if ord not in (None, 2, "fro") and not (ord in (1, INF) and (axis is not None or o.ndim == 1)):
        raise Unencodable("norm order")
    if ord == 2 and o.ndim == 2 and axis is None:
        raise Unencodable("spectral norm")
    if ord == 1:
        return _wrap(rnp.asarray(rnp.sum(rnp.abs(o), axis=axis, keepdims=keepdims), dtype=object))
    if ord == INF:
        return _wrap(rnp.asarray(rnp.max(rnp.abs(o), axis=axis, keepdims=keepdims), dtype=object))
    s = rnp.sum(o * o, axis=axis, keepdims=keepdims)
    if is_sym(s) or not isinstance(s, rnp.ndarray):
        return lift(s).sqrt()
    r = rnp.empty(s.shape, dtype=object)
    for i, e in enumerate(s.flat):
        r.flat[i] = lift(e).sqrt()
    return r.view(SArr)


def det1(m):
    n = m.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return lift(m[0, 0])
    if n == 2:
        return lift(m[0, 0]) * m[1, 1] - lift(m[0, 1]) * m[1, 0]
    if n > 6:
        raise Unencodable("large determinant")
    r = lift(0)
    for j in range(n):
        e = lift(m[0, j])
        if e.const == 0:
            continue
        minor = rnp.delete(rnp.delete(m, 0, 0), j, 1)
        r = r + (e if j % 2 == 0 else -e) * det1(minor)
    return r


def la_det(a):
    a = lifted(_val(a))
    if a.ndim == 2:
        return det1(a)
    lead = a.shape[:-2]
    r = rnp.empty(lead, dtype=object)
    for ix in rnp.ndindex(*lead):
        r[ix] = det1(a[ix])
    return r.view(SArr)


def solve1(A, b):
    """Exact solve of one system (b: (n, k))."""
    n = A.shape[0]
    d = det1(A)
    if bool(d == 0):
        raise rnp.linalg.LinAlgError("Singular matrix")
    r = rnp.empty(b.shape, dtype=object)
    for c in range(b.shape[1]):
        for j in range(n):
            M = A.copy()
            M[:, j] = b[:, c]
            r[j, c] = det1(M) / d
    return r


def la_solve(a, b):
    a, b = lifted(_val(a)), lifted(_val(b))
    vec = b.ndim == 1
    if vec:
        b = b[:, None]
    lead = rnp.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = rnp.broadcast_to(a, lead + a.shape[-2:])
    b = rnp.broadcast_to(b, lead + b.shape[-2:])
    r = rnp.empty(b.shape, dtype=object)
    for ix in rnp.ndindex(*lead):
        n = a.shape[-1]
        if n <= 3:
            r[ix] = solve1(a[ix], b[ix])
        else:
            r[ix] = gauss(a[ix], b[ix])
    if vec:
        r = r[..., 0]
    return r.view(SArr)


def la_inv(a):
    a = lifted(_val(a))
    n = a.shape[-1]
    eye = lifted(rnp.eye(n))
    return la_solve(a, rnp.broadcast_to(eye, a.shape).copy())


def gauss(A, B, singular="raise"):
    """Exact Gaussian elimination; A (n,n), B (n,k) of Rl."""
    n = A.shape[0]
    M = [[lift(v) for v in A[i]] + [lift(v) for v in B[i]] for i in range(n)]
    # all-constant left side: work with fractions
    for c in range(n):
        piv = None
        for r in range(c, n):
            k = M[r][c].const
            if k is not None and k != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if M[r][c].const is None and M[r][c].s is None and bool(M[r][c] != 0):
                    piv = r
                    break
        if piv is None:
            if singular == "raise":
                raise rnp.linalg.LinAlgError("Singular matrix")
            return None
        M[c], M[piv] = M[piv], M[c]
        p = M[c][c]
        for r in range(n):
            if r != c and M[r][c].const != 0:
                f = M[r][c] / p
                for j in range(c, len(M[r])):
                    e = M[c][j]
                    if e.const != 0:
                        M[r][j] = M[r][j] - f * e
    out = rnp.empty(B.shape, dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            out[i, j] = M[i][n + j] / M[i][i]
    return out


_fg_cache = {}


def frac_gauss(A, b):
    """Exact solve over the rationals: A list of lists, b list.  None if singular."""
    key = (tuple(map(tuple, A)), tuple(b))
    if key in _fg_cache:
        return _fg_cache[key]
    n = len(A)
    # integer rows (fraction-free elimination with gcd reduction)
    M = []
    for i in range(n):
        row = list(A[i]) + [b[i]]
        den = 1
        for v in row:
            den = den * v.denominator // math.gcd(den, v.denominator)
        row = [int(v * den) for v in row]
        M.append(_red(row))
    res = None
    ok = True
    for c in range(n):
        piv = None
        best = None
        for r in range(c, n):
            v = M[r][c]
            if v and (best is None or abs(v).bit_length() < best):
                best, piv = abs(v).bit_length(), r
        if piv is None:
            ok = False
            break
        M[c], M[piv] = M[piv], M[c]
        p = M[c][c]
        for r in range(n):
            if r != c and M[r][c]:
                q = M[r][c]
                g = math.gcd(p, q)
                pp, qq = p // g, q // g
                M[r] = _red([pp * x - qq * y for x, y in zip(M[r], M[c])])
    if ok:
        res = [Fraction(M[i][n], M[i][i]) for i in range(n)]
    if len(_fg_cache) > 3000:
        _fg_cache.clear()
    _fg_cache[key] = res
    return res


def _red(row):
    g = 0
    for v in row:
        if v:
            g = math.gcd(g, v)
            if g == 1:
                return row
    return [v // g for v in row] if g > 1 else row


def sp_solve(A, b, *a, **k):
    """scipy.sparse.linalg.spsolve: exact solution; NaN when singular."""
    if isinstance(A, SymSparse):
        A = A.a
    A = lifted(A)
    b = b.todense() if isinstance(b, SymSparse) else b
    b = lifted(b)
    shape = b.shape
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise ValueError("matrix must be square (has shape %s)" % (A.shape,))
    if b.shape[0] != n:
        raise ValueError("matrix - rhs dimension mismatch (%s - %s)" % (A.shape, b.shape[0]))
    if n == 0:
        return np_zeros(shape)
    bb = b.reshape(n, -1)
    if any(e.s is not None for e in A.flat) or any(e.s is not None for e in bb.flat):
        return np_full(shape, NAN)
    Ac = [[e.const for e in row] for row in A]
    if all(e is not None for row in Ac for e in row) and all(e.const is not None for e in bb.flat):
        out = rnp.empty(bb.shape, dtype=object)
        for j in range(bb.shape[1]):
            r = frac_gauss(Ac, [e.const for e in bb[:, j]])
            if r is None:
                return np_full(shape, NAN)
            for i in range(n):
                out[i, j] = lift(r[i])
    else:
        out = gauss(A, bb, singular="nan")
        if out is None:
            return np_full(shape, NAN)
    return out.reshape(shape).view(SArr)


class _LinAlg(Proxy):
    pass


# ----------------------------------------------------------------------------
# sparse matrices: object-backed dense storage, exact zeros are the structural ones
# ----------------------------------------------------------------------------
class SymSparse:
    __array_priority__ = 10.1
    __array_ufunc__ = None

    def __init__(self, a, fmt="csr"):
        self.a = a
        self.format = fmt

    shape = property(lambda s: s.a.shape)
    ndim = 2
    dtype = property(lambda s: rnp.dtype(object))

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    @property
    def T(self):
        return SymSparse(self.a.T, self.format)

    def transpose(self, *a, **k):
        return self.T

    def _as(self, fmt):
        return SymSparse(self.a, fmt)

    def tocsr(self, *a, **k):
        return self._as("csr")

    def tocsc(self, *a, **k):
        return self._as("csc")

    def tocoo(self, *a, **k):
        return self._as("coo")

    def tolil(self, *a, **k):
        return self._as("lil")

    def asformat(self, fmt, *a, **k):
        return self._as(fmt) if fmt else self

    def copy(self):
        return SymSparse(self.a.copy(), self.format)

    def toarray(self, *a, **k):
        return self.a.copy().view(SArr)
    todense = toarray

    @property
    def real(self):
        return self

    def conj(self):
        return self
    conjugate = conj

    def astype(self, dt, *a, **k):
        return self

    def _nz(self):
        for i in range(self.a.shape[0]):
            for j in range(self.a.shape[1]):
                if not _is0(self.a[i, j]):
                    yield i, j

    @property
    def nnz(self):
        return sum(1 for _ in self._nz())

    def nonzero(self):
        ij = list(self._nz())
        return (rnp.array([i for i, _ in ij], dtype=int), rnp.array([j for _, j in ij], dtype=int))

    @property
    def row(self):
        return self.nonzero()[0]

    @property
    def col(self):
        return self.nonzero()[1]

    @property
    def data(self):
        nz = self._nz()
        if self.format == "csc":
            nz = sorted(nz, key=lambda t: (t[1], t[0]))
        o = [self.a[i, j] for i, j in nz]
        r = rnp.empty(len(o), dtype=object)
        r[:] = o
        return r.view(SArr)

    def __abs__(self):
        return SymSparse(_obj(rnp.abs(self.a)), self.format)

    def sum(self, axis=None, dtype=None, out=None):
        if axis is None:
            r = lift(0)
            for i, j in self._nz():
                r = r + self.a[i, j]
            return r
        r = rnp.empty(self.a.shape[1 - axis % 2], dtype=object)
        r[:] = [lift(0)] * len(r)
        for i, j in self._nz():
            k = j if axis % 2 == 0 else i
            r[k] = r[k] + self.a[i, j]
        return r.reshape(1, -1).view(SArr) if axis % 2 == 0 else r.reshape(-1, 1).view(SArr)

    def diagonal(self, k=0):
        return rnp.diagonal(self.a, k).copy().view(SArr)

    def dot(self, o):
        return self @ o

    def __matmul__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(_mm(self.a, o.a), self.format)
        o = lifted(_val(o))
        if o.ndim == 1:
            return _mm(self.a, o[:, None])[:, 0].view(SArr)
        return _mm(self.a, o).view(SArr)

    def __rmatmul__(self, o):
        o = lifted(_val(o))
        if o.ndim == 1:
            return _mm(o[None, :], self.a)[0].view(SArr)
        return _mm(o, self.a).view(SArr)

    def multiply(self, o):
        o = o.a if isinstance(o, SymSparse) else lifted(o)
        return SymSparse(_obj(self.a * o), self.format)

    def __mul__(self, o):
        if isinstance(o, SymSparse) or rnp.ndim(o):
            return self @ o
        return SymSparse(_obj(self.a * lift(o)), self.format)

    def __rmul__(self, o):
        if rnp.ndim(o) and not is_sym(o):
            return self.__rmatmul__(o)
        return SymSparse(_obj(self.a * lift(o)), self.format)

    def __truediv__(self, o):
        return SymSparse(_obj(self.a / lift(o)), self.format)

    def __neg__(self):
        return SymSparse(_obj(-self.a), self.format)

    def __add__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(_obj(self.a + o.a), self.format)
        return sarr(self.a + lifted(o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(_obj(self.a - o.a), self.format)
        return sarr(self.a - lifted(o))

    def __getitem__(self, k):
        if self.format == "coo":
            raise TypeError("'coo_matrix' object is not subscriptable")
        r = self.a[k]
        if isinstance(r, rnp.ndarray):
            if r.ndim == 1:
                r = r.reshape(1, -1) if not (isinstance(k, tuple) and len(k) == 2
                                             and isinstance(k[1], (int, rnp.integer))) \
                    else r.reshape(-1, 1)
            return SymSparse(r, self.format)
        return r

    def __setitem__(self, k, v):
        if self.format == "coo":
            raise TypeError("'coo_matrix' object does not support item assignment")
        if isinstance(v, SymSparse):
            v = v.a
        self.a = self.a.copy()
        self.a[k] = lift(v) if rnp.ndim(v) == 0 else lifted(v)

    def __repr__(self):
        return "<SymSparse %s>" % (self.shape,)

    def _count(self, axis=None):
        if axis is None:
            return self.nnz
        r = rnp.zeros(self.a.shape[1 - axis % 2], dtype=int)
        for i, j in self._nz():
            r[j if axis % 2 == 0 else i] += 1
        return r

    def getnnz(self, axis=None):
        return self._count(axis)

    def count_nonzero(self, axis=None):
        return self._count(axis)

    def get_shape(self):
        return self.shape

    def _same(self, *a, **k):
        return None
    sum_duplicates = eliminate_zeros = sort_indices = prune = _same
    has_sorted_indices = has_canonical_format = True
    imag = property(lambda s: SymSparse(_obj(s.a * 0), s.format))

    def sorted_indices(self):
        return self

    def todok(self, *a, **k):
        return self._as("dok")

    def power(self, n, dtype=None):
        return SymSparse(_obj(self.a ** n), self.format)

    def trace(self, offset=0):
        return rnp.sum(self.diagonal(offset))

    def mean(self, axis=None, **k):
        n = self.a.size if axis is None else self.a.shape[axis]
        return self.sum(axis) / n

    def _reduce(self, fn, axis):
        if axis is None:
            return fn(self.a)
        r = fn(self.a, axis=axis)
        return SymSparse(_obj(r.reshape(1, -1) if axis % 2 == 0 else r.reshape(-1, 1)), "coo")

    def max(self, axis=None, **k):
        return self._reduce(rnp.max, axis)

    def min(self, axis=None, **k):
        return self._reduce(rnp.min, axis)

    def maximum(self, o):
        return SymSparse(_obj(rnp.maximum(self.a, o.a if isinstance(o, SymSparse) else o)), self.format)

    def minimum(self, o):
        return SymSparse(_obj(rnp.minimum(self.a, o.a if isinstance(o, SymSparse) else o)), self.format)

    def reshape(self, *shape, **k):
        shape = shape[0] if len(shape) == 1 else shape
        return SymSparse(self.a.reshape(shape), self.format)

    def getrow(self, i):
        return SymSparse(self.a[i:i + 1 or None], self.format)

    def getcol(self, j):
        return SymSparse(self.a[:, j:j + 1 or None], self.format)

    def setdiag(self, v, k=0):
        self.a = self.a.copy()
        n, m = self.a.shape
        ij = [(i, i + k) for i in range(n) if 0 <= i + k < m]
        v = lifted(_val(v))
        for t, (i, j) in enumerate(ij):
            if v.ndim == 0:
                self.a[i, j] = v[()]
            elif t < len(v):
                self.a[i, j] = v[t]

    def _compressed(self):
        if self.format not in ("csr", "csc"):
            raise AttributeError("indptr")
        nz = list(self._nz())
        if self.format == "csc":
            nz = sorted(((j, i) for i, j in nz))
        n = self.a.shape[0 if self.format == "csr" else 1]
        ptr = rnp.zeros(n + 1, dtype=int)
        for i, _ in nz:
            ptr[i + 1] += 1
        return rnp.cumsum(ptr), rnp.array([j for _, j in nz], dtype=int)

    indptr = property(lambda s: s._compressed()[0])
    indices = property(lambda s: s._compressed()[1])

    def _compare(self, o, fn):
        o = o.a if isinstance(o, SymSparse) else o
        return BoolSparse(rnp.vectorize(lambda x, y: bool(fn(x, y)), otypes=[bool])(self.a, lifted(o)) if self.a.size else self.a.astype(bool))

    def __ne__(self, o):
        return self._compare(o, lambda x, y: x != y)

    def __gt__(self, o):
        return self._compare(o, lambda x, y: x > y)

    def __lt__(self, o):
        return self._compare(o, lambda x, y: x < y)

    def __ge__(self, o):
        return self._compare(o, lambda x, y: x >= y)

    def __le__(self, o):
        return self._compare(o, lambda x, y: x <= y)

    def __eq__(self, o):
        return self._compare(o, lambda x, y: x == y)
    __hash__ = object.__hash__


def BoolSparse(m):
    import scipy.sparse
    return scipy.sparse.csr_matrix(m)


def _obj(a):
    return rnp.asarray(a, dtype=object)


def _is0(e):
    if isinstance(e, Rl):
        return e.const == 0
    return e == 0


def _mm(A, B):
    n, k = A.shape
    if B.shape[0] != k:
        raise ValueError("dimension mismatch")
    R = rnp.empty((n, B.shape[1]), dtype=object)
    nzA = [[(j, lift(A[i, j])) for j in range(k) if not _is0(A[i, j])] for i in range(n)]
    for i in range(n):
        for c in range(B.shape[1]):
            s = lift(0)
            for j, v in nzA[i]:
                b = B[j, c]
                if not (isinstance(b, Rl) and b.const == 0 and v.s is None):
                    s = s + v * b
            R[i, c] = s
    return R


def coo_matrix(arg, shape=None, dtype=None, copy=False, **k):
    fmt = k.get("fmt", "coo")
    if isinstance(arg, SymSparse):
        return SymSparse(arg.a.copy(), fmt)
    if isinstance(arg, tuple) and len(arg) == 2 and rnp.ndim(arg[0]) == 1:
        data, (row, col) = arg
        row, col = rnp.asarray(row).astype(int), rnp.asarray(col).astype(int)
        if shape is None:
            shape = (row.max() + 1, col.max() + 1)
        if len(row) and (row.max() >= shape[0] or col.max() >= shape[1]
                         or row.min() < 0 or col.min() < 0):
            raise ValueError("index exceeds matrix dimensions")
        a = np_zeros(tuple(int(s) for s in shape)).view(rnp.ndarray)
        for d, i, j in zip(lifted(data), row, col):
            a[i, j] = a[i, j] + d
        return SymSparse(a, fmt)
    if isinstance(arg, tuple):
        return SymSparse(np_zeros(tuple(int(s) for s in arg)).view(rnp.ndarray), fmt)
    return SymSparse(lifted(arg), fmt)


def _mk(fmt):
    def f(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 3:
            data, minor, ptr = arg
            ptr = [int(x) for x in ptr]
            major = [r for r in range(len(ptr) - 1) for _ in range(ptr[r], ptr[r + 1])]
            minor = [int(x) for x in rnp.asarray(minor)[:ptr[-1]]]
            data = rnp.asarray(data, dtype=object)[:ptr[-1]]
            if shape is None:
                shape = (len(ptr) - 1, max(minor, default=-1) + 1)
                shape = shape if fmt == "csr" else shape[::-1]
            arg = (data, (major, minor) if fmt == "csr" else (minor, major))
        return coo_matrix(arg, shape, dtype, copy, fmt=fmt)
    return f


def bmat(blocks, format=None, dtype=None):
    nr, nc = len(blocks), len(blocks[0])
    hs, ws = [None] * nr, [None] * nc
    for i in range(nr):
        for j in range(nc):
            b = blocks[i][j]
            if b is not None:
                b = b if isinstance(b, SymSparse) else coo_matrix(b)
                hs[i] = b.shape[0] if hs[i] is None else hs[i]
                ws[j] = b.shape[1] if ws[j] is None else ws[j]
                if hs[i] != b.shape[0] or ws[j] != b.shape[1]:
                    raise ValueError("incompatible block dimensions")
    if None in hs or None in ws:
        raise ValueError("cannot infer block sizes")
    a = np_zeros((sum(hs), sum(ws))).view(rnp.ndarray)
    r = 0
    for i in range(nr):
        c = 0
        for j in range(nc):
            b = blocks[i][j]
            if b is not None:
                a[r:r + hs[i], c:c + ws[j]] = b.a if isinstance(b, SymSparse) else lifted(b)
            c += ws[j]
        r += hs[i]
    return SymSparse(a, format or "coo")


def sp_diags(d, offsets=0, shape=None, format=None, dtype=None):
    if len(d) == 1 and rnp.ndim(d[0]) == 1 and offsets in (0, [0], (0,)):
        d = d[0]
    d = lifted(d)
    if d.ndim != 1 or offsets not in (0, [0], (0,)):
        raise Unencodable("diags")
    a = np_zeros((len(d), len(d))).view(rnp.ndarray)
    for i, v in enumerate(d):
        a[i, i] = v
    return SymSparse(a, format or "dia")


def block_diag(bs, format=None, dtype=None):
    bs = list(bs)
    return bmat([[b if i == j else None for j in range(len(bs))] for i, b in enumerate(bs)], format)


def dense_block_diag(*bs):
    return block_diag([SymSparse(lifted(rnp.atleast_2d(b))) for b in bs]).toarray()


def sp_find(A):
    A = coo_matrix(A)
    return A.row, A.col, A.data


def sp_tri(fn):
    def f(A, k=0, format=None):
        A = coo_matrix(A)
        a = np_zeros(A.shape).view(rnp.ndarray)
        for i, j in A._nz():
            if fn(j - i, k):
                a[i, j] = A.a[i, j]
        return SymSparse(a, format or "coo")
    return f


def sp_kron(A, B, format=None):
    A, B = (coo_matrix(x).a if isinstance(x, SymSparse) else lifted(x) for x in (A, B))
    return SymSparse(_obj(rnp.kron(A, B)), format or "bsr")


def sp_inv(A):
    return SymSparse(_obj(la_inv(A.toarray())), A.format)


def hstack(bs, format=None, dtype=None):
    return bmat([list(bs)], format)


def vstack(bs, format=None, dtype=None):
    return bmat([[b] for b in bs], format)


def sp_eye(n, m=None, k=0, dtype=None, format=None):
    return SymSparse(lifted(rnp.eye(n, m, k)), format or "dia")


def issparse(x):
    return isinstance(x, SymSparse)


# ----------------------------------------------------------------------------
# linear programming: any optimal solution (KKT), as scipy documents
# ----------------------------------------------------------------------------
class _Res(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
    __setattr__ = dict.__setitem__

    def __bool__(self):
        return len(self) > 0


def _lp_fails(ctx, A, b, lb, ub, c):
    """Constraints under which the program has no optimal solution, or None if it always has."""
    n, rows = len(c), [r for r in range(len(b)) if b[r].s is None]
    y = [ctx.real("lp_y", inp=False) for _ in rows]
    yl = [ctx.real("lp_yl", inp=False) if v is not None else None for v in lb]
    yu = [ctx.real("lp_yu", inp=False) if v is not None else None for v in ub]
    pos = y + [v for v in yl + yu if v is not None]
    if pos and all(_is0(A[r, j]) or lift(A[r, j]).const is not None for r in rows for j in range(n)):
        F = [bexpr(v >= 0) for v in pos] + [bexpr(sum(pos, lift(0)) == 1)]
        val = lift(0)
        for j in range(n):
            g = lift(0)
            for v, r in zip(y, rows):
                if not _is0(A[r, j]):
                    g = g + lift(A[r, j]) * v
            if yl[j] is not None:
                g, val = g - yl[j], val - yl[j] * lb[j]
            if yu[j] is not None:
                g, val = g + yu[j], val + yu[j] * ub[j]
            F.append(bexpr(g == 0))
        if ctx.query(F, timeout_ms=20000)[0] != "unsat":
            for v, r in zip(y, rows):
                val = val + v * b[r]
            return F + [bexpr(val < 0)], 2
    if all(v is not None for v in lb) and all([bool(v >= 0) for v in c]):
        return None
    x = [ctx.real("lp_x", inp=False) for _ in range(n)]
    d = [ctx.real("lp_d", inp=False) for _ in range(n)]
    U, val = [], lift(0)
    for r in rows:
        ax, ad = lift(0), lift(0)
        for j in range(n):
            if not _is0(A[r, j]):
                ax, ad = ax + lift(A[r, j]) * x[j], ad + lift(A[r, j]) * d[j]
        U += [bexpr(ax <= b[r]), bexpr(ad <= 0)]
    for j in range(n):
        val = val + c[j] * d[j]
        if lb[j] is not None:
            U += [bexpr(x[j] >= lb[j]), bexpr(d[j] >= 0)]
        if ub[j] is not None:
            U += [bexpr(x[j] <= ub[j]), bexpr(d[j] <= 0)]
    return U + [bexpr(val == -1)], 3


def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None),
            method="highs", callback=None, options=None, x0=None, integrality=None, **k):
    ctx = Ctx.cur
    c = lifted(_val(c)).ravel()
    n = len(c)
    if A_eq is not None or integrality is not None:
        raise Unencodable("linprog equality/integer constraints")
    if A_ub is None:
        A = rnp.empty((0, n), dtype=object)
        b = rnp.empty((0,), dtype=object)
    else:
        A = A_ub.a if isinstance(A_ub, SymSparse) else lifted(_val(A_ub))
        b = lifted(_val(b_ub)).ravel()
    if A.shape != (len(b), n):
        raise ValueError("Invalid input for linprog: A_ub must have exactly two dimensions "
                         "and consistent sizes")
    if bounds is None:
        lb, ub = [None] * n, [None] * n
    else:
        B = list(bounds) if not isinstance(bounds, rnp.ndarray) else [list(r) for r in bounds]
        if len(B) == 2 and not rnp.ndim(B[0]) and not isinstance(B[0], (list, tuple)):
            B = [list(B)] * n
        elif len(B) == 1 and n != 1:
            B = [list(B[0])] * n
        if len(B) != n:
            raise ValueError("Invalid input for linprog: bounds")
        lb = [r[0] for r in B]
        ub = [r[1] for r in B]
    def fin(v):
        if v is None:
            return None
        v = lift(v)
        if v.s is not None:
            if math.isnan(v.s):
                raise ValueError("NaN bound")
            return None
        return v
    lb, ub = [fin(v) for v in lb], [fin(v) for v in ub]
    x = [ctx.real("lp_x", inp=False) for _ in range(n)]
    lam = [ctx.real("lp_lam", inp=False) for _ in range(len(b))]
    mul = [ctx.real("lp_mul", inp=False) if lb[i] is not None else None for i in range(n)]
    muu = [ctx.real("lp_muu", inp=False) if ub[i] is not None else None for i in range(n)]
    K = []
    for r in range(len(b)):
        ax = lift(0)
        for j in range(n):
            if not _is0(A[r, j]):
                ax = ax + lift(A[r, j]) * x[j]
        if b[r].s is not None:
            K.append(bexpr(lam[r] == 0))
            continue
        slack = b[r] - ax
        K += [bexpr(slack >= 0), bexpr(lam[r] >= 0),
              z3.Or(bexpr(lam[r] == 0), bexpr(slack == 0))]
    for i in range(n):
        g = c[i]
        for r in range(len(b)):
            if not _is0(A[r, i]):
                g = g + lift(A[r, i]) * lam[r]
        if mul[i] is not None:
            s = x[i] - lb[i]
            K += [bexpr(s >= 0), bexpr(mul[i] >= 0), z3.Or(bexpr(mul[i] == 0), bexpr(s == 0))]
            g = g - mul[i]
        if muu[i] is not None:
            s = ub[i] - x[i]
            K += [bexpr(s >= 0), bexpr(muu[i] >= 0), z3.Or(bexpr(muu[i] == 0), bexpr(s == 0))]
            g = g + muu[i]
        K.append(bexpr(g == 0))
    # inputs for which there is no optimal solution: Farkas certificate (infeasible), or an
    # improving direction (unbounded); a path of its own, when it is possible at all
    failed = _lp_fails(ctx, A, b, lb, ub, c)
    if failed is not None:
        sel = z3.Bool("lp_fails%d" % len(ctx.notes))
        ctx.notes.append(("lp-fails",))
        if ctx.branch(sel):
            res, m = ctx.query(failed[0], want_model=True, full=True, timeout_ms=ctx.assert_ms)
            if res == "unsat":
                raise Abort("the linear program always has a solution")
            if res == "unknown":
                ctx.flags.add("unknown-feasibility")
            for e in failed[0]:
                ctx._push(z3.simplify(e))
            ctx.model = m
            return _Res(x=None, fun=None, success=False, status=failed[1], message="infeasible or unbounded",
                        slack=None, con=None, nit=0)
    res, m = ctx.query(K, want_model=True, full=True, timeout_ms=ctx.assert_ms)
    if res == "unsat":
        if failed is not None:
            raise Abort("the linear program never has a solution")
        return _Res(x=None, fun=None, success=False, status=2, message="infeasible or unbounded",
                    slack=None, con=None, nit=0)
    if res == "unknown":
        ctx.flags.add("unknown-feasibility")
    for e in K:
        ctx._push(z3.simplify(e))
    ctx.model = m
    X = rnp.empty(n, dtype=object)
    X[:] = x
    X = X.view(SArr)
    ctx.notes.append(("lp", tuple(id(v) for v in x)))
    return _Res(x=X, success=True, status=0, message="Optimization terminated successfully.",
                fun=sum((c[i] * x[i] for i in range(n)), lift(0)),
                slack=None, con=rnp.array([]), nit=1,
                ineqlin=_Res(marginals=_neg(lam), residual=None),
                lower=_Res(marginals=None, residual=None), upper=_Res(marginals=None, residual=None))


def _neg(l):
    r = rnp.empty(len(l), dtype=object)
    r[:] = [-v for v in l]
    return r.view(SArr)


# ----------------------------------------------------------------------------
# interpolation
# ----------------------------------------------------------------------------
class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=NAN, assume_sorted=False):
        x = lifted(_val(x))
        y = lifted(_val(y))
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        ax = axis % y.ndim
        y = rnp.moveaxis(y, ax, 0)
        if ax != 0 and y.ndim > 1:
            raise Unencodable("interp1d axis")
        if len(x) != y.shape[0]:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if kind not in ("linear", "previous", "next", "nearest", "nearest-up"):
            raise Unencodable("interp1d kind %r" % (kind,))
        if len(x) < 1:
            raise ValueError("x and y arrays must have at least 1 entries")
        if not assume_sorted:
            ind = rnp.argsort(x, kind="mergesort")
            x, y = x[ind], y[ind]
        self.x, self._yy, self._kind = x.view(SArr), y, kind
        self.y = y.view(SArr)
        self.axis = axis
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if self.extrap:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            bounds_error = False
        elif bounds_error is None:
            bounds_error = True
        self.bounds_error = bounds_error
        self.fill_value = fill_value
        self._np = False
        if not self.extrap:
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                lo, hi = fill_value
            else:
                lo = hi = fill_value
            self._lo = rnp.broadcast_to(lifted(lo), y.shape[1:])
            self._hi = rnp.broadcast_to(lifted(hi), y.shape[1:])
            self._np = kind == "linear" and y.ndim == 1

    def _one(self, q):
        x, y, n = self.x, self._yy, len(self.x)
        if not self.extrap:
            below, above = bool(q < x[0]), bool(q > x[-1])
            if self.bounds_error and below:
                raise ValueError("A value in x_new is below the interpolation range.")
            if self.bounds_error and above:
                raise ValueError("A value in x_new is above the interpolation range.")
            if below:
                return self._lo
            if above:
                return self._hi
        k = self._kind
        if k == "linear":
            if self._np:
                r = rnp.empty((), dtype=object)
                r[()] = interp_1d(q, list(x), list(y), y[0], y[-1])
                return r
            idx = 0                        # searchsorted left
            for m in range(n):
                if x[m] < q:
                    idx = m + 1
                else:
                    break
            idx = min(max(idx, 1), n - 1)
            lo, hi = idx - 1, idx
            dx = lift(x[hi]) - x[lo]
            out = rnp.empty(y.shape[1:], dtype=object)
            for ix in rnp.ndindex(*y.shape[1:]):
                a, b = y[(lo,) + ix], y[(hi,) + ix]
                out[ix] = (b - a) / dx * (q - x[lo]) + a
            return out
        if k == "previous":
            idx = sum(1 for m in range(n) if bool(x[m] <= q))
            return y[min(max(idx, 1), n) - 1]
        if k == "next":
            idx = sum(1 for m in range(n) if bool(x[m] < q))
            return y[min(max(idx, 0), n - 1)]
        idx = 0
        for m in range(n - 1):
            mid = (lift(x[m]) + x[m + 1]) / 2
            if bool(mid < q) if k == "nearest" else bool(mid <= q):
                idx = m + 1
        return y[min(idx, n - 1)]

    def __call__(self, x):
        q = lifted(_val(x))
        shape = q.shape + self._yy.shape[1:]
        out = rnp.empty((q.size,) + self._yy.shape[1:], dtype=object)
        for i, e in enumerate(q.flat):
            out[i] = self._one(e)
        return out.reshape(shape).view(SArr)


class CubicHermiteSpline:
    """Piecewise cubic through values and slopes (scipy.interpolate.CubicHermiteSpline)."""

    def __init__(self, x, y, dydx, axis=0, extrapolate=None, _der=0):
        self.xk = lifted(_val(x))
        self.y = lifted(_val(y))
        self.d = lifted(_val(dydx))
        if self.xk.ndim != 1 or len(self.xk) < 2:
            raise ValueError("`x` must contain at least 2 elements.")
        if self.y.shape != self.xk.shape or self.d.shape != self.xk.shape:
            raise ValueError("The shapes of `y` and `dydx` must be identical to that of `x`.")
        for i in range(len(self.xk) - 1):
            if not self.xk[i] < self.xk[i + 1]:
                raise ValueError("`x` must be strictly increasing sequence.")
        if self.y.ndim != 1:
            raise Unencodable("vector Hermite spline")
        self.k = _der

    def derivative(self, nu=1):
        return CubicHermiteSpline(self.xk, self.y, self.d, _der=self.k + nu)

    def __call__(self, x, nu=0, extrapolate=None):
        q = lifted(_val(x))
        out = rnp.empty(q.shape, dtype=object)
        for i, e in enumerate(q.flat):
            out.flat[i] = self._one(e, self.k + nu)
        return _wrap(out)

    def _one(self, e, k):
        if e.s is not None:
            return lift(NAN)
        xk, n = self.xk, len(self.xk)
        j = 0
        for m in range(1, n - 1):
            if xk[m] <= e:
                j = m
            else:
                break
        h = xk[j + 1] - xk[j]
        y0, y1, d0, d1 = self.y[j], self.y[j + 1], self.d[j], self.d[j + 1]
        s = (y1 - y0) / h
        c3 = (d0 + d1 - 2 * s) / (h * h)
        c2 = (3 * s - 2 * d0 - d1) / h
        t = e - xk[j]
        if k == 0:
            return ((c3 * t + c2) * t + d0) * t + y0
        if k == 1:
            return (3 * c3 * t + 2 * c2) * t + d0
        if k == 2:
            return 6 * c3 * t + 2 * c2
        if k == 3:
            return 6 * c3
        return lift(0)


class KDTree:
    """Exact nearest neighbours (sklearn.neighbors.KDTree, euclidean)."""

    def __init__(self, X, **k):
        self.X = lifted(_val(X))

    def query(self, X, k=1, return_distance=True, **kw):
        Q = lifted(_val(X))
        if k != 1:
            raise Unencodable("KDTree k")
        if Q.ndim != 2 or Q.shape[1] != self.X.shape[1]:
            raise ValueError("query data dimension must match training data dimension")
        ind = rnp.empty((len(Q), 1), dtype=int)
        dist = rnp.empty((len(Q), 1), dtype=object)
        for i in range(len(Q)):
            best, bd = None, None
            for j in range(len(self.X)):
                d = lift(0)
                for c in range(Q.shape[1]):
                    t = Q[i, c] - self.X[j, c]
                    d = d + t * t
                if best is None or bool(d < bd):
                    best, bd = j, d
            ind[i, 0], dist[i, 0] = best, bd.sqrt()
        return (dist, ind) if return_distance else ind


class SpKDTree(KDTree):
    """scipy.spatial.KDTree and cKDTree."""

    def query(self, x, k=1, **kw):
        if k != 1 or kw:
            raise Unencodable("KDTree options")
        Q = lifted(_val(x))
        d, i = KDTree.query(self, Q.reshape(-1, Q.shape[-1]))
        d, i = d[:, 0].reshape(Q.shape[:-1]), i[:, 0].reshape(Q.shape[:-1])
        return (d.view(SArr), i) if d.ndim else (d[()], int(i))


# ----------------------------------------------------------------------------
# math
# ----------------------------------------------------------------------------
def _m(fn, real):
    def f(x, *a):
        return fn(x, *a) if isinstance(x, (Rl, Bl)) else real(x, *a)
    return f


MATH = Proxy("math", math,
             sqrt=_m(lambda x: lift(x).sqrt(), math.sqrt),
             cos=_m(lambda x: x.cos(), math.cos), sin=_m(lambda x: x.sin(), math.sin),
             tan=_m(lambda x: x.tan(), math.tan),
             fabs=_m(abs, math.fabs), floor=_m(lambda x: int(x.floor()), math.floor),
             ceil=_m(lambda x: int(x.ceil()), math.ceil),
             trunc=_m(lambda x: int(x.trunc()), math.trunc),
             isnan=_m(lambda x: x.isnan(), math.isnan), isinf=_m(lambda x: x.isinf(), math.isinf),
             isfinite=_m(lambda x: x.isfinite(), math.isfinite),
             isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
                 bool(abs(lift(a) - b) <= _max2(lift(rel_tol) * _max2(abs(lift(a)), abs(lift(b))),
                                                lift(abs_tol)))),
             hypot=lambda *v: sum((lift(e) * lift(e) for e in v), lift(0)).sqrt(),
             pow=lambda a, b: lift(a) ** b,
             copysign=lambda a, b: abs(lift(a)) if lift(b) >= 0 else -abs(lift(a)),
             fsum=lambda v: sum(v, lift(0)), prod=lambda v, start=1: _prod(v, start))


def _max2(a, b):
    return a if bool(a >= b) else b


def _prod(v, start):
    for e in v:
        start = start * e
    return start


# ----------------------------------------------------------------------------
# assemble numpy
# ----------------------------------------------------------------------------
LINALG = _LinAlg("numpy.linalg", rnp.linalg, norm=la_norm, det=la_det, solve=la_solve, inv=la_inv,
                 eigvals=lambda *a: (_ for _ in ()).throw(Unencodable("eigvals")),
                 eigh=lambda *a: (_ for _ in ()).throw(Unencodable("eigh")),
                 lstsq=lambda *a, **k: (_ for _ in ()).throw(Unencodable("lstsq")),
                 pinv=lambda *a, **k: (_ for _ in ()).throw(Unencodable("pinv")),
                 matrix_rank=lambda *a, **k: (_ for _ in ()).throw(Unencodable("rank")))


def np_where(c, *a):
    if not a:
        return rnp.where(c)
    r = rnp.where(rnp.asarray(c).astype(bool), *[_val(v) for v in a])
    return r.view(SArr) if r.dtype == object else r


def _minmax(real, pick):
    def f(x, y, *a, **k):
        return real(x, y, *a, **k)
    return f


def np_median(a, axis=None, **k):
    if not has_sym(a):
        return rnp.median(a, axis=axis, **k)
    if axis is not None:
        raise Unencodable("median axis")
    s = sorted(lifted(_val(a)).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_prod(a, axis=None, **k):
    return rnp.prod(_val(a), axis=axis, **k)


def np_cross(a, b, axis=-1, **k):
    a, b = lifted(_val(a)), lifted(_val(b))
    if not (has_sym(a) or has_sym(b)):
        pass
    a, b = rnp.broadcast_arrays(a, b)
    if a.shape[-1] == 3:
        return rnp.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                          a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                          a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1).view(SArr)
    raise Unencodable("2-D cross product")


def np_einsum(spec, *ops, **k):
    r = rnp.einsum(spec, *[lifted(_val(o)) for o in ops])
    return r.view(SArr) if isinstance(r, rnp.ndarray) else r


def np_unique(a, *args, **k):
    a = _val(a)
    if has_sym(a):
        if args or k:
            raise Unencodable("np.unique options")
        v = sorted(lifted(a).ravel())
        out = []
        for e in v:
            if not out or bool(e != out[-1]):
                out.append(e)
        r = rnp.empty(len(out), dtype=object)
        r[:] = out
        return r.view(SArr)
    return rnp.unique(a, *args, **k)


def np_searchsorted(a, v, side="left", sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return rnp.searchsorted(a, v, side, sorter)
    A, V = lifted(_val(a)), lifted(_val(v))
    if sorter is not None:
        A = A[sorter]
    r = rnp.empty(V.shape, dtype=int)
    for i, q in enumerate(V.flat):
        r.flat[i] = sum(1 for e in A if bool(e < q if side == "left" else e <= q))
    return int(r) if r.ndim == 0 else r


def np_clip(a, a_min=None, a_max=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = _val(a)
    if a_min is not None:
        r = rnp.maximum(r, a_min)
    if a_max is not None:
        r = rnp.minimum(r, a_max)
    return r


NP = Proxy(
    "numpy", rnp,
    zeros=np_zeros, ones=np_ones, empty=np_zeros, full=np_full,
    zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0), full_like=np_full_like,
    linspace=np_linspace, arange=np_arange, array=np_array, asarray=np_asarray,
    asanyarray=np_asarray, ascontiguousarray=np_asarray,
    eye=lambda n, m=None, k=0, dtype=float, **kw: (sarr(rnp.eye(n, m, k)) if _floatlike(dtype)
                                                   else rnp.eye(n, m, k, dtype)),
    identity=lambda n, dtype=None: sarr(rnp.eye(n)),
    isclose=np_isclose, allclose=np_allclose, array_equal=np_array_equal,
    abs=np_abs, absolute=np_abs, fabs=np_abs, real=np_real, sum=np_sum, mean=_mean, sort=np_sort,
    average=lambda a, axis=None, weights=None: (_mean(a, axis) if weights is None else
                                                rnp.sum(_val(a) * weights, axis=axis)
                                                / rnp.sum(weights)),
    interp=np_interp, where=np_where, clip=np_clip, median=np_median, prod=np_prod, cross=np_cross,
    einsum=np_einsum, unique=np_unique, searchsorted=np_searchsorted,
    sqrt=unary(lambda e: e.sqrt(), rnp.sqrt), cos=unary(lambda e: e.cos(), rnp.cos),
    sin=unary(lambda e: e.sin(), rnp.sin), tan=unary(lambda e: e.tan(), rnp.tan),
    square=unary(np_square, rnp.square), sign=unary(_sign, rnp.sign),
    floor=unary(lambda e: e.floor(), rnp.floor), ceil=unary(lambda e: e.ceil(), rnp.ceil),
    trunc=unary(lambda e: e.trunc(), rnp.trunc), rint=unary(lambda e: e.rint(), rnp.rint),
    fix=unary(lambda e: e.trunc(), rnp.trunc),
    round=np_round, around=np_round,
    isnan=unary(lambda e: e.isnan(), rnp.isnan), isinf=unary(lambda e: e.isinf(), rnp.isinf),
    isfinite=unary(lambda e: e.isfinite(), rnp.isfinite), nan_to_num=np_nan_to_num,
    hypot=binary(lambda a, b: (a * a + b * b).sqrt(), rnp.hypot),
    power=binary(lambda a, b: a ** b, rnp.power),
    floor_divide=binary(lambda a, b: a // b, rnp.floor_divide),
    mod=binary(lambda a, b: a % b, rnp.mod), remainder=binary(lambda a, b: a % b, rnp.remainder),
    arctan2=_unenc("arctan2"), arctan=_unenc("arctan"), arccos=_unenc("arccos"),
    arcsin=_unenc("arcsin"), exp=_unenc("exp"), log=_unenc("log"), log10=_unenc("log10"),
    exp2=_unenc("exp2"), histogram=np_histogram,
    isposinf=_inf_of(1, rnp.isposinf), isneginf=_inf_of(-1, rnp.isneginf),
    copysign=binary(_copysign, rnp.copysign), signbit=unary(lambda e: bool(e < 0), rnp.signbit),
    heaviside=binary(_heaviside, rnp.heaviside), fmod=binary(_fmod, rnp.fmod), divmod=np_divmod, modf=np_modf,
    float_power=binary(lambda a, b: a ** b, rnp.float_power), bincount=np_bincount,
    deg2rad=unary(lambda e: e * lift(rnp.pi) / lift(180), rnp.deg2rad),
    radians=unary(lambda e: e * lift(rnp.pi) / lift(180), rnp.radians),
    rad2deg=unary(lambda e: e * lift(180) / lift(rnp.pi), rnp.rad2deg),
    degrees=unary(lambda e: e * lift(180) / lift(rnp.pi), rnp.degrees),
    linalg=LINALG,
)
NP.__dict__["random"] = _Random()


# ----------------------------------------------------------------------------
# assemble scipy
# ----------------------------------------------------------------------------
class _Lazy(types.ModuleType):
    def __init__(self, name, **over):
        super().__init__(name)
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def missing(*a, **kw):
            raise Unencodable("%s.%s" % (self.__name__, k))
        return missing


def factorized(A):
    return lambda b: sp_solve(A, b)


class _Splu:
    def __init__(self, A):
        self.A = A
        n = A.shape[0]
        rows = [[e.const for e in r] for r in lifted(A.a)]
        if all(e is not None for r in rows for e in r) and frac_gauss(rows, [Fraction(0)] * n) is None:
            raise RuntimeError("Factor is exactly singular")

    def solve(self, b, *a):
        return sp_solve(self.A, b)


SP_SPARSE_LINALG = _Lazy("scipy.sparse.linalg", spsolve=sp_solve, factorized=factorized,
                         splu=_Splu, inv=sp_inv, norm=lambda A, *a, **k: la_norm(A.a, *a, **k))
SP_SPARSE = _Lazy(
    "scipy.sparse", coo_matrix=coo_matrix, coo_array=_mk("coo"), csr_matrix=_mk("csr"), csr_array=_mk("csr"),
    csc_matrix=_mk("csc"), csc_array=_mk("csc"), lil_matrix=_mk("lil"), lil_array=_mk("lil"), dok_matrix=_mk("dok"), dok_array=_mk("dok"), bmat=bmat, block_array=bmat,
    diags=sp_diags, diags_array=sp_diags, block_diag=block_diag, find=sp_find, kron=sp_kron,
    triu=sp_tri(lambda d, k: d >= k), tril=sp_tri(lambda d, k: d <= k), hstack=hstack, vstack=vstack, eye=sp_eye, identity=sp_eye, issparse=issparse,
    isspmatrix=issparse, linalg=SP_SPARSE_LINALG, csgraph=_Lazy("scipy.sparse.csgraph"))
SP_INTERP = _Lazy("scipy.interpolate", interp1d=interp1d, CubicHermiteSpline=CubicHermiteSpline)
SP_OPT = _Lazy("scipy.optimize", linprog=linprog)
SP_LINALG = _Lazy("scipy.linalg", solve=lambda a, b, **k: la_solve(a, b), inv=la_inv, det=la_det,
                  norm=la_norm, block_diag=dense_block_diag)


def _euclid(p, q):
    t = lift(0)
    for x, y in zip(p, q):
        d = lift(x) - lift(y)
        t = t + d * d
    return t.sqrt()


def cdist(XA, XB, metric="euclidean"):
    if metric != "euclidean":
        raise Unencodable("cdist " + str(metric))
    A, B = lifted(_val(XA)), lifted(_val(XB))
    r = rnp.empty((len(A), len(B)), dtype=object)
    for i in range(len(A)):
        for j in range(len(B)):
            r[i, j] = _euclid(A[i], B[j])
    return r.view(SArr)


def pdist(X, metric="euclidean"):
    if metric != "euclidean":
        raise Unencodable("pdist " + str(metric))
    A = lifted(_val(X))
    o = [_euclid(A[i], A[j]) for i in range(len(A)) for j in range(i + 1, len(A))]
    r = rnp.empty(len(o), dtype=object)
    r[:] = o
    return r.view(SArr)


SP_DIST = _Lazy("scipy.spatial.distance", cdist=cdist, pdist=pdist)
SP = _Lazy("scipy", sparse=SP_SPARSE, interpolate=SP_INTERP, optimize=SP_OPT, linalg=SP_LINALG)


# ----------------------------------------------------------------------------
# import hook
# ----------------------------------------------------------------------------
def table():
    from . import fakes
    t = {
        "numpy": NP, "numpy.linalg": LINALG, "numpy.random": NP.random, "math": MATH,
        "scipy": SP, "scipy.sparse": SP_SPARSE, "scipy.sparse.linalg": SP_SPARSE_LINALG,
        "scipy.interpolate": SP_INTERP, "scipy.optimize": SP_OPT, "scipy.linalg": SP_LINALG,
        "scipy.sparse.csgraph": SP_SPARSE.csgraph,
        "sklearn": _Lazy("sklearn"), "scipy.spatial": _Lazy("scipy.spatial", KDTree=SpKDTree, cKDTree=SpKDTree, distance=SP_DIST),
        "scipy.spatial.distance": SP_DIST,
    }
    t["sklearn.neighbors"] = _Lazy("sklearn.neighbors", KDTree=KDTree)
    t["sklearn"].__dict__["neighbors"] = t["sklearn.neighbors"]
    SP.__dict__["spatial"] = t["scipy.spatial"]
    t.update(fakes.modules(symbolic=True))
    return t


def install(tab, prefix=SRC_PREFIX):
    """Route the imports made by modules of the package to the stand-ins."""
    real = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        who = (globals or {}).get("__name__", "")
        if level == 0 and (who == prefix or who.startswith(prefix + ".")):
            if name in tab:
                if fromlist:
                    return tab[name]
                top = name.split(".")[0]
                return tab.get(top) or real(top)
            top = name.split(".")[0]
            if top in tab and top in ("numpy", "scipy", "sklearn", "pyvista", "ipywidgets", "IPython"):
                # submodule without a stand-in
                m = _Lazy(name)
                return m if fromlist else tab[top]
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = hook
    return real
