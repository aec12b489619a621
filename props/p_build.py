"""C27: building leaves inputs alone.  C28: empty and missing inputs."""
from .common import *
from .p_net import direction, rows_of
from .p_render import provide, ref_points
from .p_stack import BUNDLE, LAYOUTS


def fibers(V, n, rich=True):
    """n crossing fibers whose heights, widths, thicknesses and moduli are symbols."""
    rows = []
    for i in range(n):
        d, x, y = BUNDLE[i]
        sym = lambda c, lo, hi: V.real("%s%d" % (c, i), lo, hi, lo_open=True) if rich else V.q(i + 1)  # noqa: E731
        rows.append([V.q(4), sym("b", 0, 5), sym("h", 0, 5), V.q(x), V.q(y), V.real("z%d" % i, -5, 5)]
                    + list(direction(V, d)) + [sym("G", 0, 9), sym("E", 0, 9)])
    return rows


class Watch:
    """Objects built so far and what they held then."""

    def __init__(self, V):
        self.V, self.objs = V, []

    def add(self, name, df):
        self.objs.append([name, df, snapshot(df)])
        return df

    def renew(self, df):
        for o in self.objs:
            if o[1] is df:
                o[2] = snapshot(df)

    def same(self, what, df, b, columns=None):
        V = self.V
        cols, index, data, at, types = b
        V.check(what + " keeps its columns", list(df.columns) == cols)
        V.check(what + " keeps its rows and their order", [v for v in df.index] == index)
        V.check(what + " keeps its values", all_([same(vals(df[c]), data[c]) for c in (columns or cols)]))
        V.check(what + " keeps its types", {c: str(df[c].dtype) for c in (columns or cols)} == {c: types[c] for c in (columns or cols)})
        V.check(what + " keeps its attributes", attrs_same(V, df.attrs, at))

    def all_same(self, but=None, columns=None):
        for name, df, b in self.objs:
            if df is but:
                self.same(name + " (heights aside)", df, b, [c for c in b[0] if c not in columns])
            else:
                self.same(name, df, b)


def attrs_same(V, a, b):
    if set(a) != set(b):
        return cond(False)
    return all_([cond(a[k] is b[k] or a[k] == b[k]) if isinstance(a[k], (bool, str)) or a[k] is None else
                 all_(eq(a[k], b[k]), cond(isinstance(b[k], bool) is False)) for k in a])


def carries(V, what, df, n, size, periodic=None):
    at = df.attrs
    V.check(what + " carries n and size", all_(cond("n" in at and "size" in at), eq(at.get("n", -1), n), eq(at.get("size", -1), size)))
    if periodic is not None:
        V.check(what + " carries periodic", "periodic" in at and bool(at["periodic"]) is periodic)


def pairs_of(V, n):
    import numpy as np
    k = V.pick("pairs", ["none", "all", "some"])
    if k == "none":
        return None
    e = [(i, i) for i in range(n)] + ([(0, 1)] if k == "some" else [(i, j) for i in range(n) for j in range(i + 1, n)])
    return np.array(e)


@case("C27", "net", bounds="Net of 3 crossing fibers (any dimensions, heights, moduli), both periodicities, with and without pairs, size any number >= 20")
def nets(V, fm):
    size = V.real("size", 20, 100)
    mat = make_mat(V, fm, fibers(V, 3), size, note="kept")
    W = Watch(V)
    W.add("mat", mat)
    per = V.bool("periodic")
    pairs = pairs_of(V, 3)
    given = None if pairs is None else pairs.copy()
    net = fm.Net(mat, periodic=per, pairs=pairs)
    W.all_same()
    if pairs is not None:
        V.check("pairs are left unchanged", pairs.shape == given.shape and bool((pairs == given).all()))
    carries(V, "Net", net, 3, size, per)
    W.add("net", net)
    other = fm.Net(mat, periodic=not per)
    W.all_same()
    carries(V, "second Net", other, 3, size, not per)
    carries(V, "first Net", net, 3, size, per)
    V.check("a Net is a Net", isinstance(net, fm.Net))


@case("C27", "lengths", bounds="Net, Stack and Mesh of 2 crossing fibers of any different lengths, longer than the box included, both periodicities, fibers listed in any order of heights")
def lengths(V, fm):
    rows = fibers(V, 2)
    rows[0][0] = V.real("l0", 1, 60)
    rows[1][0] = V.pick("l1", [V.q(1), V.q(4), V.q(45)])
    size = V.q(20)
    mat = make_mat(V, fm, rows, size)
    per = V.bool("periodic")
    W = Watch(V)
    W.add("mat", mat)
    net = W.add("net", fm.Net(mat, periodic=per))
    W.all_same()
    if V.bool("stack"):
        net = fm.Stack(mat, net)
        W.all_same(but=mat, columns=["z"])
        W.renew(mat)
        W.add("stack", net)
    fm.Mesh(net)
    W.all_same()


@case("C27", "lonely", bounds="Net, Stack and Mesh of 1 or 2 fibers that do not cross (any heights, thicknesses), both periodicities")
def lonely(V, fm):
    n = V.pick("n", [1, 2])
    rows = [[V.q(2), V.q(1), V.real("h%d" % i, 0, 5, lo_open=True), V.q(0), V.q(4 * i), V.real("z%d" % i, -5, 5)]
            + list(direction(V, "x")) + [V.q(1), V.q(2)] for i in range(n)]
    mat = make_mat(V, fm, rows, V.q(20))
    per = V.bool("periodic")
    W = Watch(V)
    W.add("mat", mat)
    net = W.add("net", fm.Net(mat, periodic=per))
    W.all_same()
    stack = W.add("stack", fm.Stack(mat, net))
    W.renew(mat)
    mesh = W.add("mesh", fm.Mesh(stack))
    W.all_same()
    for what, o in (("Net", net), ("Stack", stack), ("Mesh", mesh)):
        carries(V, what, o, n, V.q(20), per)
    fm.stiffness(mat, mesh)
    W.all_same()


@case("C27", "unsorted", bounds="Mesh and copies of a network of 3 crossing fibers whose rows (relabelled 0..m-1) come in any order of two kinds, with additional columns; any thicknesses, heights")
def unsorted(V, fm):
    mat = make_mat(V, fm, fibers(V, 3, rich=False), V.q(20))
    full = fm.Net(mat, periodic=V.bool("periodic"))
    m = len(full)
    k = V.int("shift", 0, m - 1)
    order = [(i + k) % m for i in range(m)]
    if V.bool("backwards"):
        order = order[::-1]
    df = full.iloc[order].reset_index(drop=True)
    df.attrs = dict(full.attrs)
    W = Watch(V)
    W.add("table", df)
    net = W.add("net", fm.Net(df))
    W.same("a net of the table", net, snapshot(df))
    o, mesh = outcome(lambda: fm.Mesh(net))
    W.all_same()
    if o == "ok":
        carries(V, "Mesh", mesh, 3, V.q(20), bool(full.attrs["periodic"]))


@case("C27", "stack", bounds="Stack of 3 crossing fibers (any thicknesses, widths, heights, moduli), both periodicities, restricted or full network, without threshold or any threshold")
def stacks(V, fm):
    size = V.q(20)
    mat = make_mat(V, fm, fibers(V, 3), size)
    per = V.bool("periodic")
    net = fm.Net(mat, periodic=per, pairs=pairs_of(V, 3))
    W = Watch(V)
    W.add("mat", mat)
    W.add("net", net)
    t = V.real("threshold", 0, 20) if V.bool("limited") else None
    st = fm.Stack(mat, net, threshold=t)
    W.all_same(but=mat, columns=["z"])
    carries(V, "Stack", st, 3, size, per)
    W.renew(mat)
    W.add("stack", st)
    again = fm.Stack(st)
    V.check("a Stack is a Stack", isinstance(st, fm.Stack) and isinstance(again, fm.Stack))
    W.same("a copied Stack", again, snapshot(st))
    W.all_same()


@case("C27", "mesh", bounds="Mesh of a Net or a Stack of 3 crossing fibers (any thicknesses, heights, moduli), both periodicities")
def meshes(V, fm):
    size = V.real("size", 20, 100)
    mat = make_mat(V, fm, fibers(V, 3, rich=False), size)
    per = V.bool("periodic")
    net = fm.Net(mat, periodic=per, pairs=pairs_of(V, 3))
    if V.bool("stacked"):
        net = fm.Stack(mat, net)
    W = Watch(V)
    W.add("mat", mat)
    W.add("net", net)
    mesh = fm.Mesh(net)
    W.all_same()
    carries(V, "Mesh", mesh, 3, size, per)
    W.add("mesh", mesh)
    W.same("a copied Mesh", fm.Mesh(mesh), snapshot(mesh))
    kw = V.pick("options", [{}, dict(coupling=0.5), dict(lmin=0.1), dict(lmin=0.1, lmax=2.0), dict(lmax=2.0)])
    fm.stiffness(mat, mesh, **kw)
    W.all_same()


@case("C27", "copies", bounds="copies of a Mat, Net, Stack or Mesh of 2 crossing fibers (any values), with and without additional attributes and columns")
def copies(V, fm):
    size = V.q(20)
    mat = make_mat(V, fm, fibers(V, 2), size)
    if V.bool("more"):
        mat["color"] = V.arr([V.real("c0"), V.real("c1")])
        mat.attrs["note"] = "kept"
    net = fm.Net(mat, periodic=V.bool("periodic"))
    what = V.pick("what", ["Mat", "Net", "Stack", "Mesh"])
    o = dict(Mat=lambda: mat, Net=lambda: net, Stack=lambda: fm.Stack(mat, net), Mesh=lambda: fm.Mesh(net))[what]()
    W = Watch(V)
    W.add(what, o)
    c = getattr(fm, what)(o)
    W.all_same()
    V.check("a copy has the class it is asked for", isinstance(c, getattr(fm, what)))
    W.same("a copy", c, snapshot(o))
    import pandas as pd
    plain = pd.DataFrame(o)
    plain.attrs = dict(o.attrs)
    W.same("a copy of a plain table", getattr(fm, what)(plain), snapshot(o))


OPS = ["net", "periodic-net", "stack", "mesh", "stiffness"]


@case("C27", "history", steps=3, ops=OPS, bounds="2 crossing fibers (any thicknesses, heights), every sequence of 3 constructions (both kinds of Net, Stack, Mesh, stiffness), each from the latest object of its input kind")
@case("C27", "long-history", steps=4, ops=OPS, tier="thorough", bounds="2 crossing fibers, every sequence of 4 constructions")
def history(V, fm, steps, ops):
    size = V.q(20)
    mat = make_mat(V, fm, fibers(V, 2), size)
    W = Watch(V)
    W.add("mat", mat)
    net, per, mesh = None, None, None
    for k in range(steps):
        op = V.pick("op%d" % k, ops)
        if op in ("net", "periodic-net"):
            per = op == "periodic-net"
            net = W.add("net %d" % k, fm.Net(mat, periodic=per))
            W.all_same()
            carries(V, "Net", net, 2, size, per)
            continue
        if net is None:
            net, per = W.add("first net", fm.Net(mat)), True
        if op == "stack":
            net = fm.Stack(mat, net)
            W.all_same(but=mat, columns=["z"])
            W.renew(mat)
            W.add("stack %d" % k, net)
            carries(V, "Stack", net, 2, size, per)
            continue
        if op == "mesh" or mesh is None:
            mesh = W.add("mesh %d" % k, fm.Mesh(net))
            W.all_same()
            carries(V, "Mesh", mesh, 2, size, per)
        if op == "stiffness":
            fm.stiffness(mat, mesh)
            W.all_same()


@case("C27", "export", bounds="vtk_mat and vtk_mesh of 2 crossing fibers (any heights), any point of the cylinder, with and without fields, both periodicities: mat, mesh and field arrays are left unchanged")
def exports(V, fm):
    mat = make_mat(V, fm, fibers(V, 2, rich=False), V.q(20))
    per = V.bool("periodic")
    mesh = fm.Mesh(fm.Net(mat, periodic=per))
    provide(V, [(V.q("1/4"), V.q("1/10"), V.q("1/5")), (V.q("-1/2"), V.q("1/10"), V.q("-1/5"))])
    W = Watch(V)
    W.add("mat", mat)
    W.add("mesh", mesh)
    if V.bool("mat-only"):
        fm.vtk_mat(mat, verbose=False)
        W.all_same()
        return
    m = len(mesh)
    arrays = {}
    for c in V.pick("fields", [[], ["displacement"], ["displacement", "rotation", "force", "moment"], ["force"]]):
        arrays[c] = [V.real("%s%d" % (c[0], i), -5, 5) for i in range(m)]
    given = {c: V.arr(v) for c, v in arrays.items()}
    if per:
        V.assume(all_([ge(x, 0) for x in arrays.get("displacement", [])]))
    fm.vtk_mesh(mat, mesh, verbose=False, **given)
    W.all_same()
    for c, v in arrays.items():
        V.check("the array " + c + " is left unchanged", same(vals(given[c]), v))


# ---------------------------------------------------------------------------- C28
COLS = dict(Mat=MATC, Net=NETC, Stack=NETC, Mesh=MESHC)


def empty(V, fm, what, o, cls, size, periodic=None):
    C = getattr(fm, cls)
    V.check(what + ": an empty " + cls, isinstance(o, C) and len(o) == 0 and all(c in list(o.columns) for c in COLS[cls]))
    V.check(what + ": valid", outcome(lambda: C.check(o))[1] is True)
    carries(V, what, o, 0, size, periodic)


def some_empty(V, fm, name, mat, per):
    k = V.pick(name, ["empty", "none", "default"])
    return {"empty": mat, "none": None, "default": fm.Mat()}[k], k != "empty"


@case("C28", "constructors", bounds="Mat() with any dimensions, size, angles, moduli; Net, Stack, Mesh of nothing, None or empty objects; both periodicities; any threshold")
def constructors(V, fm):
    import numpy as np
    size = V.real("size", 1, 100)
    l = V.real("l", 0, 9, lo_open=True)
    E = V.pick("E", [INF, 2])
    seed = V.pick("seed", [0, 3, None])
    mat = fm.Mat(0, length=l, width=l, thickness=l, size=size, theta=V.q(1), psi=V.q("1/2"), shear=l, tensile=E, seed=seed)
    empty(V, fm, "Mat(0)", mat, "Mat", size)
    empty(V, fm, "Mat()", fm.Mat(), "Mat", 50)
    empty(V, fm, "Mat(size)", fm.Mat(size=size), "Mat", size)
    empty(V, fm, "Mat(Mat())", fm.Mat(mat), "Mat", size)
    per = V.bool("periodic")
    pairs = V.pick("pairs", [None, np.zeros((0, 2), dtype=int)])
    empty(V, fm, "Net()", fm.Net(), "Net", 50, True)
    empty(V, fm, "Net(None)", fm.Net(None, periodic=per, pairs=pairs), "Net", 50, per)
    net = fm.Net(mat, periodic=per, pairs=pairs)
    empty(V, fm, "Net(mat)", net, "Net", size, per)
    empty(V, fm, "Net(net)", fm.Net(net), "Net", size, per)
    empty(V, fm, "Mesh()", fm.Mesh(), "Mesh", 50, True)
    empty(V, fm, "Mesh(None)", fm.Mesh(None), "Mesh", 50, True)
    mesh = fm.Mesh(net)
    empty(V, fm, "Mesh(net)", mesh, "Mesh", size, per)
    empty(V, fm, "Mesh(mesh)", fm.Mesh(mesh), "Mesh", size, per)
    for C in ("Mat", "Net", "Stack", "Mesh"):
        V.check(C + ".check(None)", outcome(lambda: getattr(fm, C).check(None))[1] is True)


@case("C28", "stacks", bounds="Stack of nothing, None or empty objects, any size, both periodicities, any threshold or none")
def empty_stacks(V, fm):
    size = V.real("size", 1, 100)
    mat = fm.Mat(size=size)
    per = V.bool("periodic")
    net = fm.Net(mat, periodic=per)
    kw = {}
    if V.bool("limited"):
        kw["threshold"] = V.real("threshold", 0, 20)
    empty(V, fm, "Stack()", fm.Stack(), "Stack", 50, True)
    empty(V, fm, "Stack(None)", fm.Stack(None, **kw), "Stack", 50, True)
    empty(V, fm, "Stack(None, None)", fm.Stack(None, None, **kw), "Stack", 50, True)
    empty(V, fm, "Stack(mat, None)", fm.Stack(mat, None, **kw), "Stack", 50, True)
    empty(V, fm, "Stack(None, net)", fm.Stack(None, net, **kw), "Stack", size, per)
    st = fm.Stack(mat, net, **kw)
    empty(V, fm, "Stack(mat, net)", st, "Stack", size, per)
    empty(V, fm, "Stack(stack)", fm.Stack(st), "Stack", size, per)
    empty(V, fm, "Stack(net)", fm.Stack(net), "Stack", size, per)
    empty(V, fm, "Mesh(stack)", fm.Mesh(st), "Mesh", size, per)
    empty(V, fm, "Net(stack)", fm.Net(st), "Net", size, per)
    empty(V, fm, "mat after stacking", mat, "Mat", size)


def shape(x):
    return tuple(int(n) for n in x.shape)


@case("C28", "model", bounds="stiffness and constraint of None or empty mat and mesh (from a Net or a Stack), any coupling in [0, 1], lmin, lmax given or not")
def model(V, fm):
    size = V.real("size", 1, 100)
    mat = V.pick("mat", [None, fm.Mat(), fm.Mat(size=size)])
    mesh = V.pick("mesh", [None, fm.Mesh(), fm.Mesh(fm.Net(fm.Mat(size=size), periodic=False)), fm.Mesh(fm.Stack())])
    kw = {}
    if V.bool("coupled"):
        kw["coupling"] = V.real("coupling", 0, 1)
    if V.bool("lmin"):
        kw["lmin"] = V.real("lmin", 0, 1, lo_open=True)
    if V.bool("lmax"):
        kw["lmax"] = V.real("lmax", 1, 5)
    K, u, F, du, dF = fm.stiffness(mat, mesh, **kw)
    C, f, H, df, dH = fm.constraint(mat, mesh, **kw)
    V.check("K is empty", shape(K) == (0, 0))
    V.check("C is empty", shape(C) == (0, 0))
    V.check("vectors are empty", all(shape(x) == (0,) for x in (u, F, du, dF, f, H, df, dH)))


@case("C28", "solve", bounds="solve of None or empty mat and mesh, any packing in [1/2, 10], itermax 0-2, tolerances, permutation, resampling to 1-4 values or none, model options, any pseudo-time")
def solved(V, fm):
    import numpy as np
    mat = V.pick("mat", [None, fm.Mat()])
    mesh = V.pick("mesh", [None, fm.Mesh()])
    size = V.pick("interp_size", [None, 1, 2, 3, 4])
    kw = dict(packing=V.real("packing", V.q("1/2"), 10), itermax=V.int("itermax", 0, 2), interp_size=size, verbose=False)
    kw.update(V.pick("more", [{}, dict(perm=np.arange(0)), dict(lmin=0.01, coupling=0.99), dict(lmin=0.01, lmax=2.0, tol=1e-3, errtol=1e-3)]))
    K, C, u, f, F, H, Z, rl, mask, err = fm.solve(mat, mesh, **kw)
    V.check("K and C are empty", shape(K) == (0, 0) and shape(C) == (0, 0))
    n = size or 1
    t = V.real("t", 0, 1)
    for x in (u, f, F, H):
        V.check("u, f, F, H are empty", shape(x()) == (n, 0) and shape(x(t)) == (0,))
    V.check("mask is empty", shape(mask()) == (1, 0))
    V.check("Z is 0", all_([eq(z, 0) for z in vals(Z())], eq(vals(Z(t))[0], 0), cond(len(vals(Z())) == n)))
    V.check("the stretch factor is 1", same(vals(rl()), [V.q(1)]))
    V.check("the error is 0", same(vals(err()), [V.q(0)]))


@case("C28", "export", bounds="vtk_mat and vtk_mesh of None or empty objects, with and without empty fields, verbose or not")
def empty_exports(V, fm):
    provide(V, ref_points(V, 1))
    mat = V.pick("mat", [None, fm.Mat()])
    verbose = V.bool("verbose")
    V.check("vtk_mat returns no points", len(list(fm.vtk_mat(mat, verbose=verbose).points)) == 0)
    mesh = V.pick("mesh", [None, fm.Mesh(), fm.Mesh(fm.Net(fm.Mat(), periodic=False))])
    kw = {c: V.arr([]) for c in V.pick("fields", [[], ["displacement"], ["displacement", "rotation", "force", "moment"]])}
    V.check("vtk_mesh returns no points", len(list(fm.vtk_mesh(mat, mesh, verbose=verbose, **kw).points)) == 0)
    seen = []
    fm.vtk_mat(mat, func=lambda m, i: seen.append(i), verbose=verbose)
    V.check("func is not called", not seen)
