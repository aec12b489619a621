"""Helpers shared by the harnesses: builders of tables and outcome capture."""
from symfm.core import Unencodable
from symfm.harness import (all_, any_, case, cond, eq, fine, finite, ge, gt, iff, implies, le, lt, not_, same)  # noqa: F401

MATC = list("lbhxyzuvwGE")
NETC = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
MESHC = ["fiber", "s", "x", "y", "z", "beam", "constraint"]
INF = float("inf")


def outcome(f):
    """('ok', value) or (exception, None)."""
    try:
        return "ok", f()
    except Unencodable:
        raise
    except Exception as e:
        return e, None


def refused(o, *types):
    return o != "ok" and isinstance(o, types)


def name_of(o):
    return o if isinstance(o, str) else type(o).__name__


def mat_cols(rows):
    """rows: list of dicts or 11-tuples -> column dict"""
    return {c: [r[k] for r in rows] for k, c in enumerate(MATC)}


def make_mat(V, fm, rows, size, **attrs):
    df = V.frame(mat_cols(rows), attrs=dict(n=len(rows), size=size, **attrs))
    return fm.Mat(df)


def net_frame(V, rows, attrs):
    return V.frame({c: [r[k] for r in rows] for k, c in enumerate(NETC)}, attrs=attrs)


def vals(x):
    """flat list of the numbers of a column / array"""
    import numpy as np
    return list(np.asarray(x, dtype=object).ravel())


def ints_of(x):
    return [int(v) for v in vals(x)]


def same_list(a, b):
    return a == b


def dense(V, M):
    """rows (lists of numbers) of a sparse or dense matrix"""
    import numpy as np
    D = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
    return [list(r) for r in np.asarray(D, dtype=object)]


def dot(V, a, b):
    t = V.q(0)
    for x, y in zip(a, b):
        if (isinstance(x, (int, float)) and x == 0) or (isinstance(y, (int, float)) and y == 0):
            continue
        t = t + x * y
    return t


def snapshot(df):
    """columns, index, values, attrs of a table, for comparison"""
    return (list(df.columns), [v for v in df.index], {c: vals(df[c]) for c in df.columns},
            dict(df.attrs), {c: str(df[c].dtype) for c in df.columns})


def unchanged(V, label, before, df, columns=None, extra=(), attrs=True):
    """Check that df still holds the snapshot (on `columns`); `extra` columns may be new."""
    cols, index, data, at, _ = before
    V.check(label + ": columns", [c for c in df.columns if c not in extra] == [c for c in cols])
    V.check(label + ": index", [v for v in df.index] == index)
    cs = [c for c in (columns or cols) if c in df.columns]
    V.check(label + ": values", all_([same(vals(df[c]), data[c]) for c in cs]))
