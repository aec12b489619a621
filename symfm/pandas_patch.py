"""Keep pandas from hashing or down-casting symbolic elements."""
import functools

import numpy as rnp
import pandas as pd

from .core import Rl, Bl, Unencodable, lift
from .shims import SArr, has_sym, _floatlike, lifted


def _sym(vals):
    return vals.dtype == object and any(isinstance(v, (Rl, Bl)) for v in vals)


def _less(a, b):
    return bool(a < b)


def stable_order(cols, ascending):
    """Stable lexicographic order; later keys are compared only on ties."""
    n = len(cols[0])

    def cmp(i, j):
        for c, up in zip(cols, ascending):
            a, b = c[i], c[j]
            if a is b:
                continue
            if _less(a, b):
                return -1 if up else 1
            if _less(b, a):
                return 1 if up else -1
        return 0
    # insertion sort: few comparisons on already sorted data
    order = []
    for i in range(n):
        k = len(order)
        while k > 0 and cmp(i, order[k - 1]) < 0:
            k -= 1
        order.insert(k, i)
    return rnp.array(order, dtype=int)


def install():
    o_sort = pd.DataFrame.sort_values
    o_ssort = pd.Series.sort_values
    o_drop = pd.DataFrame.drop_duplicates
    o_dup = pd.DataFrame.duplicated
    o_astype = pd.core.generic.NDFrame.astype
    o_values = pd.DataFrame.values
    o_svalues = pd.Series.values
    o_tonp = pd.DataFrame.to_numpy

    @functools.wraps(o_sort)
    def sort_values(self, by, *, axis=0, ascending=True, inplace=False, kind="quicksort",
                    na_position="last", ignore_index=False, key=None):
        keys = list(by) if isinstance(by, (list, tuple)) else [by]
        if axis in (0, "index") and key is None and any(
                k in self.columns and _sym(rnp.asarray(self[k].array)) for k in keys):
            asc = list(ascending) if isinstance(ascending, (list, tuple)) else [ascending] * len(keys)
            cols = [list(rnp.asarray(self[k].array, dtype=object)) for k in keys]
            ind = stable_order(cols, asc)
            r = self.take(ind)
            if ignore_index:
                r.index = pd.RangeIndex(len(r))
            if inplace:
                self._update_inplace(r)
                return None
            return r
        return o_sort(self, by, axis=axis, ascending=ascending, inplace=inplace, kind=kind,
                      na_position=na_position, ignore_index=ignore_index, key=key)

    @functools.wraps(o_ssort)
    def s_sort_values(self, **k):
        v = rnp.asarray(self.array)
        if _sym(v):
            ind = stable_order([list(v)], [k.get("ascending", True)])
            r = self.take(ind)
            if k.get("ignore_index"):
                r.index = pd.RangeIndex(len(r))
            if k.get("inplace"):
                self._update_inplace(r)
                return None
            return r
        return o_ssort(self, **k)

    def duplicated(self, subset=None, keep="first"):
        cols = list(self.columns) if subset is None else (
            list(subset) if isinstance(subset, (list, tuple, pd.Index)) else [subset])
        data = [rnp.asarray(self[c].array) for c in cols]
        if not any(_sym(d) for d in data):
            return o_dup(self, subset, keep)
        n = len(self)
        out = rnp.zeros(n, dtype=bool)
        rng = range(n) if keep == "first" else range(n - 1, -1, -1)
        seen = []
        for i in rng:
            for j in seen:
                if all(bool(d[i] == d[j]) for d in data):
                    out[i] = True
                    if keep is False:
                        out[j] = True
                    break
            seen.append(i)
        return pd.Series(out, index=self.index)

    def drop_duplicates(self, subset=None, *, keep="first", inplace=False, ignore_index=False):
        cols = list(self.columns) if subset is None else (
            list(subset) if isinstance(subset, (list, tuple, pd.Index)) else [subset])
        if not any(_sym(rnp.asarray(self[c].array)) for c in cols):
            return o_drop(self, subset, keep=keep, inplace=inplace, ignore_index=ignore_index)
        r = self[~duplicated(self, subset, keep)]
        if ignore_index:
            r.index = pd.RangeIndex(len(r))
        if inplace:
            self._update_inplace(r)
            return None
        return r

    def has_symbols(data):
        if isinstance(data, dict):
            return any(has_symbols(v) for v in data.values())
        if isinstance(data, (pd.DataFrame, pd.Series)):
            return _anysym(data)
        if isinstance(data, (list, tuple)):
            return any(has_symbols(v) if isinstance(v, (list, tuple, dict, rnp.ndarray, pd.Series)) else isinstance(v, (Rl, Bl)) for v in data)
        if isinstance(data, rnp.ndarray):
            return data.dtype == object and any(isinstance(v, (Rl, Bl)) for v in data.flat)
        return isinstance(data, (Rl, Bl))

    def typed(cls):
        """dtype=float leaves symbols as they are."""
        old = cls.__init__

        @functools.wraps(old)
        def init(self, data=None, *a, **k):
            if k.get("dtype") is not None and _floatlike(k["dtype"]) and has_symbols(data):
                k = dict(k, dtype=object)
            old(self, data, *a, **k)
        cls.__init__ = init
    typed(pd.DataFrame)
    typed(pd.Series)

    def _anysym(self):
        if isinstance(self, pd.Series):
            return _sym(rnp.asarray(self.array))
        return any(_sym(rnp.asarray(self.iloc[:, i].array)) for i in range(self.shape[1]))

    def astype(self, dtype, copy=None, errors="raise"):
        if not isinstance(dtype, dict) and _floatlike(dtype) and _anysym(self):
            return self.copy()
        if isinstance(dtype, dict):
            dtype = {k: v for k, v in dtype.items() if not (_floatlike(v) and _sym(rnp.asarray(self[k].array)))}
            if not dtype:
                return self.copy()
        return o_astype(self, dtype, copy=copy, errors=errors)

    def _view(a):
        return a.view(SArr) if isinstance(a, rnp.ndarray) and a.dtype == object and not isinstance(a, SArr) else a

    pd.DataFrame.sort_values = sort_values
    pd.Series.sort_values = s_sort_values
    pd.DataFrame.duplicated = duplicated
    pd.DataFrame.drop_duplicates = drop_duplicates
    pd.core.generic.NDFrame.astype = astype
    pd.DataFrame.values = property(lambda self: _view(o_values.fget(self)))
    pd.Series.values = property(lambda self: _view(o_svalues.fget(self)))

    def df_to_numpy(self, dtype=None, copy=False, na_value=pd.api.extensions.no_default):
        if dtype is not None and _floatlike(dtype) and _anysym(self):
            dtype = None
        return _view(o_tonp(self, dtype=dtype, copy=copy, na_value=na_value))
    pd.DataFrame.to_numpy = df_to_numpy
    o_stonp = pd.Series.to_numpy

    def s_to_numpy(self, dtype=None, copy=False, na_value=pd.api.extensions.no_default, **k):
        if dtype is not None and _floatlike(dtype) and _anysym(self):
            dtype = None
        return _view(o_stonp(self, dtype=dtype, copy=copy, na_value=na_value, **k))
    pd.Series.to_numpy = s_to_numpy

    # reductions pandas refuses or concretises on object columns
    def reduction(cls, name, f):
        o = getattr(cls, name)

        @functools.wraps(o)
        def g(self, *a, **k):
            if not _anysym(self):
                return o(self, *a, **k)
            extra = {x: v for x, v in k.items() if x not in ("axis", "ddof", "skipna", "numeric_only")}
            if extra or len(a) > 1:
                raise Unencodable("%s with options" % name)
            if isinstance(self, pd.Series):
                return f(list(self.array), k)
            axis = a[0] if a else k.get("axis", 0)
            if axis in (0, "index"):
                return pd.Series([f(list(self.iloc[:, i].array), k) for i in range(self.shape[1])], index=self.columns)
            if axis in (1, "columns"):
                return pd.Series([f([self.iloc[j, i] for i in range(self.shape[1])], k) for j in range(len(self))],
                                 index=self.index)
            return f([v for i in range(self.shape[1]) for v in self.iloc[:, i].array], k)
        setattr(cls, name, g)

    def mean(v, k=None):
        return sum((lift(x) for x in v[1:]), lift(v[0])) / len(v) if len(v) else lift(float("nan"))

    def var(v, k):
        m, n = mean(v), len(v) - k.get("ddof", 1)
        return sum(((lift(x) - m) ** 2 for x in v), lift(0)) / n if n > 0 else lift(float("nan"))

    def median(v, k):
        w = [v[i] for i in stable_order([list(v)], [True])]
        n = len(w)
        return lift(w[n // 2]) if n % 2 else (lift(w[n // 2 - 1]) + lift(w[n // 2])) / 2
    for cls in (pd.Series, pd.DataFrame):
        reduction(cls, "mean", mean)
        reduction(cls, "var", var)
        reduction(cls, "std", lambda v, k: var(v, k).sqrt())
        reduction(cls, "median", median)

    def rounder(cls):
        o = cls.round

        @functools.wraps(o)
        def g(self, decimals=0, *a, **k):
            if not _anysym(self):
                return o(self, decimals, *a, **k)
            if isinstance(self, pd.DataFrame):
                r = self.copy()
                for i, c in enumerate(self.columns):
                    nd = decimals.get(c) if isinstance(decimals, dict) else decimals
                    if nd is not None:
                        r[c] = self[c].round(nd)
                return r
            return pd.Series([_round(x, decimals) for x in self.array], index=self.index, name=self.name, dtype=object)
        cls.round = g

    def _round(x, nd):
        x = lift(x)
        return x.round_digits(nd) if nd else x.rint()
    rounder(pd.Series)
    rounder(pd.DataFrame)

    def extreme(name, up):
        o, od = getattr(pd.Series, name), getattr(pd.DataFrame, name)

        @functools.wraps(o)
        def g(self, n=5, keep="first"):
            if not _anysym(self):
                return o(self, n, keep)
            return self.take(stable_order([list(self.array)], [up])[:n])

        @functools.wraps(od)
        def gd(self, n, columns, keep="first"):
            cols = [columns] if isinstance(columns, str) else list(columns)
            if not any(_sym(rnp.asarray(self[c].array)) for c in cols):
                return od(self, n, columns, keep)
            return self.take(stable_order([list(self[c].array) for c in cols], [up] * len(cols))[:n])
        setattr(pd.Series, name, g)
        setattr(pd.DataFrame, name, gd)
    extreme("nsmallest", True)
    extreme("nlargest", False)

    from pandas.core.groupby import SeriesGroupBy, DataFrameGroupBy

    def grouped(cls, name):
        o = getattr(cls, name)

        @functools.wraps(o)
        def g(self, *a, **k):
            obj = self._selected_obj
            if not _anysym(obj):
                return o(self, *a, **k)
            if a or set(k) - {"numeric_only"}:
                raise Unencodable("grouped %s with options" % name)
            if isinstance(obj, pd.Series):
                return self.agg(lambda x: getattr(x, name)())
            raise Unencodable("grouped %s of a table" % name)
        setattr(cls, name, g)
    for c in (SeriesGroupBy, DataFrameGroupBy):
        for m in ("mean", "median", "std", "var"):
            grouped(c, m)
    for nm in ("rank", "quantile", "corr", "cov", "expanding", "rolling", "ewm", "interpolate", "describe", "skew",
               "kurt", "sem", "mode"):
        for cls in (pd.Series, pd.DataFrame):
            if hasattr(cls, nm):
                def wrap(o, nm=nm):
                    @functools.wraps(o)
                    def g(self, *a, **k):
                        if _anysym(self):
                            raise Unencodable("pandas %s" % nm)
                        return o(self, *a, **k)
                    return g
                setattr(cls, nm, wrap(getattr(cls, nm)))

    def shifter(cls):
        o = cls.shift

        @functools.wraps(o)
        def g(self, *a, **k):
            if _anysym(self) and "fill_value" not in k:
                k["fill_value"] = float("nan")
            return o(self, *a, **k)
        cls.shift = g
    shifter(pd.Series)
    shifter(pd.DataFrame)
