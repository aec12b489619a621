"""C02, C08, C13: validation of tables."""
from .common import *

ONE = 1


def mat_table(V, n, tag=""):
    """n well-formed or not rows of free reals; orientations are unit vectors times r."""
    rows, wf, r_ok, cells = [], [], [], []
    size = V.real(tag + "size", -2, 4)
    for i in range(n):
        p = "%s%d." % (tag, i)
        l, b, h, G, E = (V.real(p + c, -1, 3) for c in "lbhGE")
        x, y, z = (V.real(p + c, -4, 4) for c in "xyz")
        rows.append([l, b, h, x, y, z, V.q(1), V.q(0), V.q(0), G, E])
        wf += [gt(v, 0) for v in (l, b, h, G, E)]
        half = size * V.q("1/2")
        wf += [le(-half, v) for v in (x, y)] + [le(v, half) for v in (x, y)]
    return rows, size, wf


def entries(V, fm, cls, df):
    """check(table), Class(table), Class.check(bound)"""
    how = V.pick("entry", ["check", "init"])
    if how == "check":
        return outcome(lambda: cls.check(df))
    return outcome(lambda: cls(df))


def verdict(V, what, o, r, wf, exc, exact=True):
    if o == "ok":
        if r is not None and not hasattr(r, "columns"):
            V.check(what + ": check returns True", r is True)
        V.check(what + ": accepted only if well formed", wf, exact=exact)
    else:
        V.check(what + ": refused with the documented exception", refused(o, exc))
        V.check(what + ": refused only if ill formed", not_(wf), exact=exact)


@case("C02", "data", n=1, bounds="1 row; all reals: l,b,h,G,E in [-1,3], x,y,z in [-4,4], size in [-2,4]")
@case("C02", "data2", n=2, bounds="2 rows, same ranges", tier="thorough")
def mat_data(V, fm, n):
    rows, size, wf = mat_table(V, n)
    df = V.frame(mat_cols(rows), attrs=dict(n=n, size=size))
    o, r = entries(V, fm, fm.Mat, df)
    verdict(V, "data", o, r, all_(wf), ValueError)


@case("C02", "second-row", bounds="2 rows, first row well formed, second arbitrary reals")
def mat_data_row2(V, fm):
    rows, size, wf = mat_table(V, 1)
    good = [V.q(v) for v in (1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)]
    k = V.pick("where", [0, 1])
    V.assume(ge(size, 0))
    rows = [rows[0], good] if k == 0 else [good, rows[0]]
    df = V.frame(mat_cols(rows), attrs=dict(n=2, size=size))
    o, r = entries(V, fm, fm.Mat, df)
    verdict(V, "data", o, r, all_(wf), ValueError)


@case("C02", "orientation", bounds="2 rows; one direction = r * (any unit vector), r in [0,3] with r = 1 or |r-1| >= 1e-3")
def mat_orient(V, fm):
    u = V.unit3("d")
    r = V.real("r", 0, 3)
    V.assume(any_(eq(r, 1), le(r, V.q("999/1000")), ge(r, V.q("1001/1000"))))
    good = [V.q(v) for v in (1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)]
    bad = good[:6] + [r * c for c in u] + good[9:]
    rows = V.pick("where", [[good, bad], [bad, good]])
    df = V.frame(mat_cols(rows), attrs=dict(n=2, size=V.q(1)))
    o, x = entries(V, fm, fm.Mat, df)
    ok = V.decide(eq(r, 1)) if V.sym else abs(r - 1) < 5e-4
    V.check("unit directions accepted, others refused with ValueError",
            (o == "ok") if ok else refused(o, ValueError))


@case("C02", "two-directions", bounds="2-3 rows; two directions = r * (unit vector along x, y, z or inclined), r in [0,3] with r = 1 or |r-1| >= 1e-3 each")
def mat_orient_two(V, fm):
    good = [V.q(v) for v in (1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)]
    m = V.pick("rows", [2, 3])
    rows, ok = [good] * (m - 2), True
    for i in range(2):
        r = V.real("r%d" % i, 0, 3)
        V.assume(any_(eq(r, 1), le(r, V.q("999/1000")), ge(r, V.q("1001/1000"))))
        d = V.pick("d%d" % i, [(1, 0, 0), (0, -1, 0), ("3/5", 0, "4/5")][2 * i:] + [(0, 0, 1)][:i])
        rows.append(good[:6] + [r * V.q(c) for c in d] + good[9:])
        ok = (V.decide(eq(r, 1)) if V.sym else abs(r - 1) < 5e-4) and ok
    o, x = entries(V, fm, fm.Mat, V.frame(mat_cols(rows), attrs=dict(n=m, size=V.q(1))))
    V.check("unit directions accepted, others refused with ValueError",
            (o == "ok") if ok else refused(o, ValueError))


GOOD_MAT = (2, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)


def label_expect(labels, m):
    return list(labels) == list(range(m))


@case("C02", "labels", bounds="0..3 rows, any integer row labels in [-1,3], n attribute in [0,4]")
def mat_labels(V, fm):
    m = V.pick("rows", [1, 2, 3])
    labels = [V.symint("pl%d" % i, -1, 3) for i in range(m)]
    n = V.pick("n", [m, m - 1, m + 1])
    df = V.frame(mat_cols([[V.q(v) for v in GOOD_MAT]] * m), index=labels, attrs=dict(n=n, size=V.q(1)))
    o, r = entries(V, fm, fm.Mat, df)
    if n != m:
        V.check("wrong row count refused with ValueError", refused(o, ValueError))
    else:
        verdict(V, "labels", o, r, all_([eq(v, i) for i, v in enumerate(labels)]), IndexError)


@case("C02", "columns-attrs", bounds="1 well-formed row; any one column, any one attribute or nothing missing; extra column or attribute; skip_check absent/False/True; infinite G, E")
def mat_columns(V, fm):
    row = [V.q(v) for v in GOOD_MAT]
    inf = V.pick("inf", ["no", "G", "E", "GE"])
    for c in inf:
        if c in "GE":
            row[MATC.index(c)] = INF
    V.assume(any_(inf == "no", True))
    cols = mat_cols([row])
    drop = V.pick("drop", [None] + MATC)
    attrs = dict(n=1, size=V.real("size", 0, 5))
    nattr = V.pick("attr", [None, "n", "size"])
    extra = V.bool("extra")
    skip = V.pick("skip", [None, False, True])
    if drop:
        del cols[drop]
    if nattr:
        del attrs[nattr]
    if extra:
        cols["extra"] = [V.q(-7)]
        attrs["note"] = "anything"
    if skip is not None:
        attrs["skip_check"] = skip
    df = V.frame(cols, attrs=attrs)
    o, r = entries(V, fm, fm.Mat, df)
    if skip:
        V.check("skip_check accepts everything", o == "ok")
    elif drop and nattr:
        V.check("missing column and attribute refused", refused(o, KeyError, AttributeError))
    elif drop:
        V.check("missing column refused with KeyError", refused(o, KeyError))
    elif nattr:
        V.check("missing attribute refused with AttributeError", refused(o, AttributeError))
    else:
        V.check("complete table accepted (infinite moduli included)", o == "ok")


@case("C02", "nan", bounds="2 rows, NaN in any one of the columns lbhxyuvwGE of either row; -infinite or infinite dimension/position")
def mat_nan(V, fm):
    rows = [[V.q(v) for v in GOOD_MAT] for _ in range(2)]
    i = V.pick("row", [0, 1])
    c = V.pick("col", list("lbhxyuvwGE"))
    x = V.pick("value", [float("nan"), -INF])
    rows[i][MATC.index(c)] = x
    df = V.frame(mat_cols(rows), attrs=dict(n=2, size=V.q(4)))
    o, r = entries(V, fm, fm.Mat, df)
    V.check("undefined or infinite-negative cell refused with ValueError", refused(o, ValueError))


@case("C02", "skip-garbage", bounds="2 rows of arbitrary reals and labels, skip_check active")
def mat_skip(V, fm):
    rows, size, wf = mat_table(V, 2)
    labels = [V.symint("label%d" % i, -1, 3) for i in range(2)]
    df = V.frame(mat_cols(rows), index=labels, attrs=dict(n=V.pick("n", [0, 2, 5]), size=size, skip_check=True))
    o, r = entries(V, fm, fm.Mat, df)
    V.check("skip_check accepts everything", o == "ok")


# ---------------------------------------------------------------------------- Net / Stack
def net_cls(V, fm):
    return V.pick("class", [fm.Net, fm.Stack])


@case("C08", "data", m=2, bounds="2 rows; fiber labels A, B in [-1,2], n = 2, any abscissae and coordinates")
@case("C08", "data3", m=3, tier="thorough", bounds="3 rows; fiber labels A, B in [0,1] for two rows and [-1,2] for one, any abscissae")
def net_data(V, fm, m):
    rows, wf = [], []
    ab = []
    for i in range(m):
        dom = [-1, 0, 1, 2] if i in (0, m - 1) and m == 2 or i == 1 else [0, 1]
        a, b = V.pick("A%d" % i, dom), V.pick("B%d" % i, dom)
        s = [V.real("s%s%d" % (c, i), -1, 1) for c in "AB"]
        x = [V.real("x%d%d" % (i, k), -9, 9) for k in range(6)]
        ab.append((a, b, s))
        rows.append([a, b] + s + x)
        wf.append(cond(0 <= a <= b < 2))
    for i in range(m):
        for j in range(i):
            if ab[i][:2] == ab[j][:2]:
                wf.append(not_(all_(eq(ab[i][2][0], ab[j][2][0]), eq(ab[i][2][1], ab[j][2][1]))))
    df = net_frame(V, rows, dict(n=2, size=V.q(4), periodic=V.pick("periodic", [True, False]) if m == 2 else True))
    cls = net_cls(V, fm) if m == 2 else fm.Net
    o, r = outcome(lambda: cls.check(df)) if m > 2 or not V.bool("init") else outcome(lambda: cls(df))
    verdict(V, "data", o, r, all_(wf), ValueError)


GOOD_NET = [[0, 0, 1, -1, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0, 0, 1],
            [1, 1, 1, -1, 0, 0, 0, 0, 0, 0]]


def good_net(V, m=3):
    return [r[:2] + [V.q(v) for v in r[2:]] for r in GOOD_NET[:m]]


@case("C08", "labels", bounds="1..3 rows, any integer row labels in [-1,3] (repeated ones included)")
def net_labels(V, fm):
    m = V.pick("rows", [1, 2, 3])
    labels = [V.symint("pl%d" % i, -1, 3) for i in range(m)]
    df = V.frame({c: [r[k] for r in good_net(V, m)] for k, c in enumerate(NETC)}, index=labels,
                 attrs=dict(n=2, size=V.q(1), periodic=True))
    o, r = entries(V, fm, net_cls(V, fm), df)
    verdict(V, "labels", o, r, all_([eq(v, i) for i, v in enumerate(labels)]), IndexError)


@case("C08", "columns-attrs", bounds="3 well-formed rows; any one column, any one attribute or nothing missing; extra column; real-valued labels; skip_check absent/False/True")
def net_columns(V, fm):
    cols = {c: [r[k] for r in good_net(V)] for k, c in enumerate(NETC)}
    drop = V.pick("drop", [None] + NETC)
    attrs = dict(n=2, size=V.q(4), periodic=True)
    nattr = V.pick("attr", [None, "n", "size", "periodic"])
    real = V.pick("real", ["", "A", "B", "AB"]) if not drop and not nattr else ""
    skip = V.pick("skip", [None, False, True])
    if drop:
        del cols[drop]
    if nattr:
        del attrs[nattr]
    for c in real:
        cols[c] = [V.q(v) for v in cols[c]]
    if V.bool("extra"):
        cols["extra"] = [V.q(0)] * 3
    if skip is not None:
        attrs["skip_check"] = skip
    df = V.frame(cols, attrs=attrs)
    o, r = entries(V, fm, net_cls(V, fm), df)
    if skip:
        V.check("skip_check accepts everything", o == "ok")
    elif drop and nattr:
        V.check("missing column and attribute refused", refused(o, KeyError, AttributeError))
    elif drop:
        V.check("missing column refused with KeyError", refused(o, KeyError))
    elif nattr:
        V.check("missing attribute refused with AttributeError", refused(o, AttributeError))
    elif real:
        V.check("non-integer fiber labels refused with TypeError", refused(o, TypeError))
    else:
        V.check("complete table accepted", o == "ok")


@case("C08", "empty", bounds="0 rows")
def net_empty(V, fm):
    import pandas as pd
    df = pd.DataFrame({c: [] for c in NETC})
    df[["A", "B"]] = df[["A", "B"]].astype(int)
    df.attrs = dict(n=V.pick("n", [0, 1, 3]), size=V.real("size", 0, 4), periodic=V.bool("periodic"))
    o, r = entries(V, fm, net_cls(V, fm), df)
    V.check("empty table accepted", o == "ok")


# ---------------------------------------------------------------------------- Mesh
# (fiber, beam, constraint) of well-formed meshes
MESHES = {
    "one fiber": ([0, 0], [1, 0], [0, 1]),
    "two fibers": ([0, 0, 1, 1], [1, 0, 3, 2], [0, 1, 2, 3]),
    "self link": ([0, 0, 0, 0], [1, 2, 3, 0], [0, 2, 1, 3]),
    "three fibers": ([0, 0, 0, 0, 1, 1, 1, 2, 2, 2], [1, 2, 3, 0, 5, 6, 4, 8, 9, 7], list(range(10))),
    "crossing": ([0, 0, 0, 1, 1, 1], [1, 2, 0, 4, 5, 3], [0, 4, 2, 3, 1, 5]),
}


def mesh_frame(V, f, b, c, s, attrs, index=None):
    m = len(f)
    return V.frame(dict(fiber=f, s=s, x=[V.q(0)] * m, y=[V.q(0)] * m, z=[V.q(0)] * m, beam=b, constraint=c),
                   index=index, attrs=attrs)


def mesh_wf(f, b, c, s, n):
    """Well-formedness, from the documented definition (s symbolic)."""
    m = len(f)
    rng = all(0 <= v < n for v in f) and all(0 <= v < m for v in b + c)
    if not rng or any(f[k] > f[k + 1] for k in range(m - 1)):
        return cond(False)
    groups = {}
    for k, v in enumerate(f):
        groups.setdefault(v, []).append(k)
    for g in groups.values():
        for k, v in enumerate(g):
            if b[v] != g[(k + 1) % len(g)]:
                return cond(False)
        if c[g[0]] != g[0] or c[g[-1]] != g[-1]:
            return cond(False)
    if any(c[c[k]] != k for k in range(m)):
        return cond(False)
    return all_([le(s[k], s[k + 1]) for k in range(m - 1) if f[k] == f[k + 1]])


@case("C13", "abscissae", shape="crossing", col="s", bounds="two crossing fibers (6 nodes), any abscissae")
@case("C13", "abscissae-4", shape="self link", col="s", bounds="one fiber of 4 nodes, any abscissae")
@case("C13", "beams", shape="two fibers", col="beam", bounds="2 fibers of 2 nodes, any beam labels in [-1,4]")
@case("C13", "beams-1", shape="self link", col="beam", bounds="1 fiber of 4 nodes, any beam labels in [-1,4]")
@case("C13", "constraints", shape="two fibers", col="constraint", bounds="2 fibers of 2 nodes, any constraint labels in [-1,4]")
@case("C13", "constraints-1", shape="self link", col="constraint", bounds="1 fiber of 4 nodes, any constraint labels in [-1,4]")
@case("C13", "fibers", shape="two fibers", col="fiber", bounds="4 nodes, any fiber labels in [-1,2], n = 2")
@case("C13", "constraints-6", shape="crossing", col="constraint", tier="thorough", bounds="two crossing fibers (6 nodes), any constraint labels in [0,5]")
def mesh_data(V, fm, shape, col):
    f, b, c = (list(v) for v in MESHES[shape])
    m = len(f)
    n = max(f) + 1
    s = [V.q(k) for k in range(m)]
    if col == "s":
        s = [V.real("s%d" % k, -3, 3) for k in range(m)]
    else:
        dom = range(0, m) if m == 6 else range(-1, m + 1)
        if col == "fiber":
            dom = range(-1, n + 1)
        new = [V.pick("%s%d" % (col, k), dom) for k in range(m)]
        if col == "fiber":
            f = new
            # beams of the new grouping, so that only the fiber column departs
            if all(f[k] <= f[k + 1] for k in range(m - 1)):
                b = [k + 1 if k + 1 < m and f[k + 1] == f[k] else f.index(f[k]) for k in range(m)]
        elif col == "beam":
            b = new
        else:
            c = new
    df = mesh_frame(V, f, b, c, s, dict(n=n, size=V.q(4), periodic=True))
    if V.bool("init") if col == "s" else (sum(b) + sum(c) + sum(f)) % 2:
        o, r = outcome(lambda: fm.Mesh(df))
    else:
        o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf(f, b, c, s, n), ValueError)


@case("C13", "relinked", shape="crossing", bounds="two crossing fibers (6 nodes), every permutation of the constraint labels")
@case("C13", "relinked-3", shape="three fibers", bounds="3 fibers (10 nodes), every exchange or 3-cycle of constraint labels")
def mesh_relinked(V, fm, shape):
    import itertools
    f, b, _ = (list(v) for v in MESHES[shape])
    m, n = len(f), max(f) + 1
    if m == 6:
        all_c = list(itertools.permutations(range(m)))
        c = list(all_c[V.int("high", 0, 35) * 20 + V.int("low", 0, 19)])
    else:
        c = list(range(m))
        i, j, k = V.pick("nodes", list(itertools.combinations(range(m), 3)))
        k = V.pick("third", [None, k])
        if k is None:
            c[i], c[j] = j, i
        else:
            c[i], c[j], c[k] = j, k, i
    s = [V.q(k) for k in range(m)]
    df = mesh_frame(V, f, b, c, s, dict(n=n, size=V.q(4), periodic=True))
    o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf(f, b, c, s, n), ValueError)


@case("C13", "rebeamed", shape="crossing", bounds="two crossing fibers (6 nodes), every permutation of the beam labels")
@case("C13", "rebeamed-3", shape="three fibers", bounds="3 fibers (10 nodes), every exchange of beam labels")
def mesh_rebeamed(V, fm, shape):
    import itertools
    f, _, c = (list(v) for v in MESHES[shape])
    m, n = len(f), max(f) + 1
    b = list(MESHES[shape][1])
    if m == 6:
        b = list(list(itertools.permutations(range(m)))[V.int("high", 0, 35) * 20 + V.int("low", 0, 19)])
    else:
        i, j = V.pick("nodes", list(itertools.combinations(range(m), 2)))
        b[i], b[j] = b[j], b[i]
    s = [V.q(k) for k in range(m)]
    df = mesh_frame(V, f, b, c, s, dict(n=n, size=V.q(4), periodic=True))
    o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf(f, b, c, s, n), ValueError)


@case("C13", "one-cell", shape="three fibers", bounds="3 fibers (10 nodes), any one fiber, beam or constraint label replaced by any value, n = 3")
def mesh_one_cell(V, fm, shape):
    f, b, c = (list(v) for v in MESHES[shape])
    m, n = len(f), max(f) + 1
    col = V.pick("column", ["fiber", "beam", "constraint"])
    k = V.int("row", 0, m - 1)
    t = dict(fiber=f, beam=b, constraint=c)[col]
    t[k] = V.pick("value", range(-1, (n if col == "fiber" else m) + 1))
    s = [V.q(k) for k in range(m)]
    df = mesh_frame(V, f, b, c, s, dict(n=n, size=V.q(4), periodic=True))
    o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf(f, b, c, s, n), ValueError)


@case("C13", "labels", bounds="2 or 4 nodes, any integer row labels in [-1,4] (repeated ones included)")
def mesh_labels(V, fm):
    shape = V.pick("shape", ["one fiber", "two fibers"])
    f, b, c = MESHES[shape]
    labels = [V.symint("pl%d" % i, -1, 4) for i in range(len(f))]
    if len(f) == 4:
        # the last two nodes keep labels 2, 3 or repeat an earlier one
        V.assume(all_(eq(labels[3], 3)))
    df = mesh_frame(V, f, b, c, [V.q(k) for k in range(len(f))], dict(n=2, size=V.q(4), periodic=True), labels)
    wf = all_([eq(v, i) for i, v in enumerate(labels)])
    if V.decide(wf):
        df.index = list(range(len(f)))
    o, r = entries(V, fm, fm.Mesh, df)
    verdict(V, "labels", o, r, wf, IndexError)


@case("C13", "columns-attrs", bounds="6 nodes; any one column, any one attribute or nothing missing; real-valued labels; skip_check absent/False/True")
def mesh_columns(V, fm):
    f, b, c = MESHES["crossing"]
    df = mesh_frame(V, f, b, c, [V.q(k) for k in range(6)], dict(n=2, size=V.q(4), periodic=False))
    drop = V.pick("drop", [None] + MESHC)
    nattr = V.pick("attr", [None, "n", "size", "periodic"])
    real = V.pick("real", [None, "fiber", "beam", "constraint"]) if not drop and not nattr else None
    skip = V.pick("skip", [None, False, True])
    if real:
        df[real] = V.frame({real: [V.q(v) for v in df[real]]})[real]
    if drop:
        df = df.drop(columns=[drop])
        df.attrs = dict(n=2, size=V.q(4), periodic=False)
    if nattr:
        del df.attrs[nattr]
    if skip is not None:
        df.attrs["skip_check"] = skip
    o, r = entries(V, fm, fm.Mesh, df)
    if skip:
        V.check("skip_check accepts everything", o == "ok")
    elif drop and nattr:
        V.check("missing column and attribute refused", refused(o, KeyError, AttributeError))
    elif drop:
        V.check("missing column refused with KeyError", refused(o, KeyError))
    elif nattr:
        V.check("missing attribute refused with AttributeError", refused(o, AttributeError))
    elif real:
        V.check("non-integer labels refused with TypeError", refused(o, TypeError))
    else:
        V.check("complete table accepted", o == "ok")


@case("C13", "empty", bounds="0 nodes")
def mesh_empty(V, fm):
    import pandas as pd
    df = pd.DataFrame({c: [] for c in MESHC})
    for c in ("fiber", "beam", "constraint"):
        df[c] = df[c].astype(int)
    df.attrs = dict(n=V.pick("n", [0, 1, 3]), size=V.real("size", 0, 4), periodic=V.bool("periodic"))
    o, r = entries(V, fm, fm.Mesh, df)
    V.check("empty table accepted", o == "ok")
