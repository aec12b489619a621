"""Larger inputs for the properties of networks, stacks, meshes and models: a dozen fibers whose
data are numbers except for one symbol, so that behaviour that depends on the count, on the size
of the labels or on the position in the tables is decided too."""
import random

from .common import *
from .p_net import F, canonical, connectivity, direction, geometry, rows_of
from .p_stack import discretised, edges_of, encodes, heights, kept
from .p_model import assembled, contact_spec, structure

N = 12
KEYS = ["x", "34", "y", "43", "512"]


def crowd(V, which, n, mover=None, x=None, size=8):
    """n in-plane fibers with dyadic data; fiber `mover` is centred at (x, its own y)."""
    r = random.Random(which)
    rows = []
    for i in range(n):
        d = KEYS[r.randrange(len(KEYS))]
        cx, cy = (V.q("%d/8" % r.randrange(-4 * size, 4 * size + 1)) for _ in "xy")
        l = V.q("%d/8" % r.randrange(12, 40))
        b, h, G, E = (V.q("%d/4" % r.randrange(1, 20)) for _ in "bhGE")
        z = V.q("%d/4" % r.randrange(-9, 9))
        if i == mover:
            cx, d, l = x, "34", V.q(4)
        rows.append([l, b, h, cx, cy, z] + list(direction(V, d)) + [G, E])
    return rows


def _net(V, fm, what, n, periodic, sets, wide):
    k = V.pick("mover", [0, n // 2, n - 1])
    rows = crowd(V, V.pick("set", sets), n, k, V.real("x", 0, V.q(wide)))
    mat = make_mat(V, fm, rows, V.q(8))
    net = fm.Net(mat, periodic=periodic)
    R, fib = rows_of(net), [F(r) for r in rows]
    if what == "C04":
        geometry(V, R, fib, V.q(8), periodic)
    elif what == "C07":
        canonical(V, fm, net, R, fib, n, V.q(8), periodic)
    else:
        connectivity(V, R, fib, V.q(8), periodic)
    V.observe("m", [V.q(len(R))])


for _w, _p in (("C04", True), ("C05", False), ("C06", True), ("C07", True)):
    case(_w, "many", what=_w, n=N, periodic=_p, sets=[1], wide=2 if _p else 4, bounds="12 in-plane fibers (numbers), the first, seventh or last one "
         "anywhere along a line%s" % (", in a periodic box of size 8" if _p else ""))(_net)
    case(_w, "more", what=_w, n=2 * N, periodic=_p, sets=[1, 2, 7], wide=4, tier="thorough", bounds="24 in-plane fibers (3 sets of numbers), the first, "
         "thirteenth or last one anywhere along a line%s" % (", in a periodic box of size 8" if _p else ""))(_net)


case("C05", "crowd", what="C05", n=80, periodic=False, sets=[1], wide="1/16", bounds="80 in-plane fibers (numbers), the first, 41st or last one anywhere along a line of 1/16")(_net)
case("C06", "crowd", tier="thorough", what="C06", n=32, periodic=True, sets=[1], wide="1/16", bounds="32 in-plane fibers (numbers), the first, 17th or last one anywhere along a line of 1/16")(_net)


def stacked(V, fm, n, periodic, sym=True, spread=5):
    """A mat of n fibers with any thickness of one of them."""
    k = V.pick("any", [0, n // 2, n - 1])
    rows = crowd(V, V.pick("set", [3, 4]), n)
    rows[k][2] = V.real("h", 0, spread, lo_open=True)
    mat = make_mat(V, fm, rows, V.q(8))
    return rows, mat, fm.Net(mat, periodic=periodic)


@case("C09", "many", bounds="12 fibers in a periodic box or not (2 sets of numbers), the first, seventh or last one of any thickness <= 5")
@case("C09", "crowd", n=30, bounds="30 fibers, not periodic (2 sets of numbers), the first, 16th or last one of any thickness <= 5")
def many_heights(V, fm, n=N):
    rows, mat, net = stacked(V, fm, n, n == N and V.bool("periodic"))
    E = edges_of(net)
    fm.Stack(mat, net)
    z = vals(mat["z"])
    heights(V, z, [r[2] for r in rows], E, n)
    V.observe("z", z)


@case("C10", "many", bounds="12 fibers in a periodic box (2 sets of numbers), the first, seventh or last one of any thickness <= 5, three thresholds")
@case("C10", "part", part=True, bounds="12 fibers, not periodic (2 sets of numbers), a network restricted to every other or every third of its connections; the first, seventh or last fiber of any thickness <= 5, three thresholds")
def many_kept(V, fm, part=False):
    import numpy as np
    rows, mat, net = stacked(V, fm, N, not part)
    if part:
        E = edges_of(net)[V.pick("from", [0, 1])::V.pick("every", [2, 3])]
        net = fm.Net(mat, periodic=False, pairs=np.array([(i, i) for i in range(N)] + E))
    before = rows_of(net)
    t = V.pick("threshold", [None, "3/2", "4"])
    t = None if t is None else V.q(t)
    st = fm.Stack(mat, net) if t is None else fm.Stack(mat, net, threshold=t)
    kept(V, before, rows, st, vals(mat["z"]), t, N, mat)


@case("C11", "many", bounds="12 fibers in a periodic box or not (2 sets of numbers), the first, seventh or last one of any thickness <= 5, any vector z")
def many_system(V, fm):
    rows, mat, net = stacked(V, fm, N, V.bool("periodic"))
    encodes(V, fm, mat, net, rows, edges_of(net), N)


@case("C12", "many", sets=[1], wide=1, bounds="meshes of the network or stack of 12 fibers in a periodic box (numbers), the first, seventh or last one anywhere along a line")
@case("C12", "crowd", n=40, sets=[1], wide="1/64", periodic=False, bounds="meshes of the network or stack of 40 fibers, not periodic (numbers), the first, 21st or last one anywhere along a line of 1/64")
@case("C12", "more", sets=[1, 2], wide=4, tier="thorough", bounds="meshes of the network or stack of 12 fibers in a periodic box (2 sets of numbers), the first, seventh or last one anywhere along a line")
def many_nodes(V, fm, sets, wide, n=N, periodic=True):
    k = V.pick("mover", [0, n // 2, n - 1])
    rows = crowd(V, V.pick("set", sets), n, k, V.real("x", 0, V.q(wide)))
    mat = make_mat(V, fm, rows, V.q(8))
    net = fm.Net(mat, periodic=periodic)
    if k and V.bool("stack"):
        net = fm.Stack(mat, net)
    mesh = fm.Mesh(net)
    discretised(V, fm, mesh, rows_of(net), n, dict(n=n, size=V.q(8), periodic=periodic))


def described(V, rows, mesh):
    """The mesh as chain_mesh describes its own."""
    fiber, beam, con = (ints_of(mesh[c]) for c in ("fiber", "beam", "constraint"))
    s, z = vals(mesh["s"]), vals(mesh["z"])
    beams = [(i, beam[i], fiber[i]) for i in range(len(s)) if i < beam[i]]
    L = [s[j] - s[i] for i, j, f in beams]
    return dict(fiber=fiber, s=s, z=z, beam=beam, con=con, beams=beams, L=L, m=len(s), nodes=[0] * len(rows))


def modelled(V, fm, what, n=N):
    rows = crowd(V, V.pick("set", [5, 6] if n == N else [5]), n)
    k = V.pick("any", [0, n // 2, n - 1])
    rows[k][V.pick("data", [1, 9, 10]) if what != "C17" else 2] = V.real("p", 0, 100 if what != "C17" else 5, lo_open=True)
    mat = make_mat(V, fm, rows, V.q(8))
    net = fm.Net(mat, periodic=n == N and V.bool("periodic"))
    mesh = fm.Mesh(net if what != "C17" else fm.Stack(mat, net))
    return rows, mat, mesh, described(V, rows, mesh)


@case("C14", "many", bounds="12 fibers (2 sets of numbers, periodic or not): any width, shear or tensile modulus of the first, seventh or last one")
@case("C14", "crowd", n=30, bounds="30 fibers, not periodic (numbers): any width, shear or tensile modulus of the first, 16th or last one")
def many_model(V, fm, n=N):
    rows, mat, mesh, info = modelled(V, fm, "C14", n)
    P = [dict(b=r[1], h=r[2], G=r[9], E=r[10]) for r in rows]
    c = V.q(V.pick("coupling", ["99/100", "1/2"]))
    K, u, F, du, dF = fm.stiffness(mat, mesh, coupling=c)
    D = dense(V, K)
    V.check("size of K", len(D) == 2 * info["m"])
    for a, b in zip(D, assembled(V, P, info, c)):
        V.check("K is the sum of the documented element matrices", same(a, b))


@case("C15", "many", bounds="12 fibers (2 sets of numbers, periodic or not): any width, shear or tensile modulus of the first, seventh or last one")
def many_structure(V, fm):
    rows, mat, mesh, info = modelled(V, fm, "C15")
    D = dense(V, fm.stiffness(mat, mesh)[0])
    structure(V, D, info)


@case("C17", "many", bounds="12 fibers (2 sets of numbers, periodic or not), the first, seventh or last one of any thickness, any displacement of one of three nodes and of the plate")
@case("C17", "crowd", n=30, bounds="30 fibers, not periodic (numbers), the first, 16th or last one of any thickness, any displacement of one of three nodes and of the plate")
def many_contacts(V, fm, n=N):
    rows, mat, mesh, info = modelled(V, fm, "C17", n)
    h = [r[2] for r in rows]
    C, f, H, df, dH = fm.constraint(mat, mesh)
    D, H, dH = dense(V, C), vals(H), vals(dH)
    n = 2 * info["m"]
    V.check("one column per unknown, one bound per row", all(len(r) == n for r in D) and len(D) == len(H) == len(dH))
    i = V.pick("node", [0, info["m"] // 2, info["m"] - 1])
    Z = V.max([z + h[g] * V.q("1/2") for z, g in zip(info["z"], info["fiber"])])
    u = [V.q(0)] * n
    u[2 * i] = V.real("u", -30, 30)
    t = V.real("t", -10, 10)
    sys_ = all_([le(dot(V, r, u), x + t * y) for r, x, y in zip(D, H, dH)])
    spec = contact_spec(V, info, h, u, Z + t)
    V.check("C u <= H implies non-penetration", implies(sys_, spec))
    V.check("non-penetration implies C u <= H", implies(spec, sys_))
    V.check("mesh carries the thickness of the fiber of each node",
            "h" in mesh.columns and all_([eq(a, h[g]) for a, g in zip(vals(mesh["h"]), info["fiber"])]))


# ---------------------------------------------------------------------------- exports
@case("C24", "many", bounds="12 fibers (2 sets of numbers) with any dimensions of the first, seventh or last one, any point near the middle of the cylinder, with func or not")
def many_exported(V, fm):
    from .p_render import fields_of, provide, rows3, shape_of
    rows = crowd(V, V.pick("set", [1, 2]), N)
    k = V.pick("any", [0, N // 2, N - 1])
    rows[k][:3] = [V.real("l", 0, 4, lo_open=True), V.real("b", 0, 4, lo_open=True), V.real("h", 0, 4, lo_open=True)]
    pts = [(V.real("p", 0, V.q("1/2")), V.q("1/8"), V.q("1/4"))]
    provide(V, pts)
    seen = []
    out = fm.vtk_mat(make_mat(V, fm, rows, V.q(8)), func=(lambda msh, i: seen.append(int(i))) if V.bool("func") else None, verbose=False)
    got = rows3(out.points)
    V.check("points of every fiber, once", len(got) == N)
    V.check("func is called once per fiber, in order", seen in ([], list(range(N))))
    for i, r in enumerate(rows):
        shape_of(V, pts, got[i:i + 1], r[0], r[1], r[2], r[3:6], r[6:9], True)
        fields_of(V, out, pts, i, r[0], r[1], r[2], r[6:9], r[9], r[10], at=i)


@case("C25", "many", bounds="meshes of 8 fibers (numbers, not periodic) built by Net, any point of the cylinder within 1/16 of its axis, nodal values numbers but one")
def many_fields(V, fm):
    from .p_render import bend, hermite, provide, rows3
    n = 8
    rows = crowd(V, 8, n)
    mat = make_mat(V, fm, rows, V.q(8))
    mesh = fm.Mesh(fm.Net(mat, periodic=False))
    at = V.pick("along", ["-7/16", "0", "3/8"])
    pts = [(V.real("p", V.q(at), V.q(at) + V.q("1/16")), V.q("1/8"), V.q("1/4"))]
    provide(V, pts)
    base = rows3(fm.vtk_mat(mat, verbose=False).points)
    fiber, s = ints_of(mesh["fiber"]), vals(mesh["s"])
    m = len(s)
    r = random.Random(5)
    D, R, F, M = ([V.q("%d/8" % r.randrange(-16, 17)) for _ in range(m)] for _ in "DRFM")
    k = V.pick("any", [0, m // 2, m - 1])
    D[k], R[k], F[k], M[k] = (V.real(c, -10, 10) for c in "DRFM")
    out = fm.vtk_mesh(mat, mesh, displacement=V.arr(D), rotation=V.arr(R), force=V.arr(F), moment=V.arr(M), verbose=False)
    got = rows3(out.points)
    V.check("the points of every fiber", len(got) == n)
    for f in range(n):
        nodes = [i for i in range(m) if fiber[i] == f]
        x = rows[f][0] * pts[0][0] * V.q(0.9999)
        a = nodes[0]
        for i in nodes[1:-1]:
            if V.decide(le(s[i], x)):
                a = i
        b = nodes[nodes.index(a) + 1]
        j = (x - s[a]) / (s[b] - s[a])
        w, dw = hermite(V, {a: D[a], a + 1: D[b]}, {a: R[a], a + 1: R[b]}, a, j)
        V.check("displacement is the Hermite interpolation of the two neighbouring nodes", same(list(out["displacement"])[f], [V.q(0), V.q(0), w]))
        V.check("rotation is its derivative", eq(list(out["rotation"])[f], dw))
        V.check("curvature is its second derivative", eq(list(out["curvature"])[f], bend(V, {a: D[a], a + 1: D[b]}, {a: R[a], a + 1: R[b]}, a, j)))
        V.check("force is the Hermite interpolation of the two neighbouring nodes",
                eq(list(out["force"])[f], hermite(V, {a: F[a], a + 1: F[b]}, {a: M[a], a + 1: M[b]}, a, j)[0]))
        P, Q = base[f], got[f]
        V.check("the point is moved by its displacement", same(Q, [P[0], P[1], P[2] + w]))


# ---------------------------------------------------------------------------- tables
@case("C02", "many", bounds="12 rows (2 sets of numbers) of box size 8, any one cell of the first, seventh or last row any real in [-9, 9] (direction components: away from unit norm by 1/1000 or as they were), or its label any integer in [-1, 12]")
def many_rows(V, fm):
    from .p_check import MATC, mat_cols, verdict
    rows = crowd(V, V.pick("set", [1, 2]), N)
    k = V.pick("row", [0, N // 2, N - 1])
    c = V.pick("column", MATC + ["label"])
    labels, wf, exc = list(range(N)), cond(True), ValueError
    if c == "label":
        labels[k] = V.int("label", -1, N)
        wf, exc = cond(labels[k] == k), IndexError
    else:
        old = rows[k][MATC.index(c)]
        v = rows[k][MATC.index(c)] = V.real("cell", -9, 9)
        if c in "lbhGE":
            wf = gt(v, 0)
        elif c in "xy":
            wf = all_(le(-4, v), le(v, 4))
        elif c in "uvw":
            d = v * v - old * old
            V.assume(any_(eq(d, 0), gt(d, V.q("1/400")), lt(d, V.q("-1/400"))))
            wf = eq(d, 0)
    df = V.frame(mat_cols(rows), index=labels, attrs=dict(n=N, size=V.q(8)))
    o, r = outcome(lambda: fm.Mat.check(df))
    verdict(V, "data", o, r, wf, exc)


def well_linked(A, B, sA, sB, n, changed):
    """Rows of a network: labels in range and ordered, no connection twice; only row `changed` may be wrong."""
    k = changed
    ok = [cond(0 <= a <= b < n) for a, b in zip(A, B)]
    for i in range(len(A)):
        if i != k and (A[i], B[i]) == (A[k], B[k]):
            ok.append(not_(all_(eq(sA[i], sA[k]), eq(sB[i], sB[k]))))
    return all_(ok)


@case("C08", "many", bounds="the network of 12 fibers (numbers) as a network or a stack, any one label of the first, middle or last row replaced by any integer in [-1, 12] with any abscissae in that row; or the row repeated at any place among the last, with any abscissae")
def many_links(V, fm):
    from .p_check import net_cls, net_frame, verdict
    net = fm.Net(make_mat(V, fm, crowd(V, 1, N), V.q(8)), periodic=False)
    rows = [list(r) for r in rows_of(net)]
    m = len(rows)
    k = V.pick("row", [0, m // 2, m - 1])
    what = V.pick("what", ["A", "B", "repeat"])
    new = [int(rows[k][0]), int(rows[k][1])] + list(rows[k][2:])
    near = V.pick("near", [None, 0, m - 1])
    if near is not None:
        new[2], new[3] = (V.real(c, -9, 9) for c in ("sA", "sB"))
    if what == "repeat":
        at = V.pick("at", [m - 1, m])
        rows.insert(at, new)
        k = at
    else:
        new["AB".index(what)] = V.int("value", -1, N)
        if near:
            new[2:4] = rows[near][2:4]
        rows[k] = new
    rows = [[int(r[0]), int(r[1])] + list(r[2:]) for r in rows]
    df = net_frame(V, rows, dict(n=N, size=V.q(8), periodic=False))
    wf = well_linked(*(list(c) for c in list(zip(*rows))[:4]), N, k)
    o, r = outcome(lambda: net_cls(V, fm).check(df))
    verdict(V, "data", o, r, wf, ValueError)


@case("C13", "many", bounds="the mesh of 12 fibers (numbers), any one fiber, beam or constraint label of four of its nodes replaced by any value, or any abscissa of these; or two labels of distant nodes exchanged")
def many_cells(V, fm):
    from .p_check import mesh_frame, mesh_wf, verdict
    mesh = fm.Mesh(fm.Net(make_mat(V, fm, crowd(V, 1, N), V.q(8)), periodic=False))
    t = {c: ints_of(mesh[c]) for c in ("fiber", "beam", "constraint")}
    s = vals(mesh["s"])
    m = len(s)
    c = V.pick("column", ["fiber", "beam", "constraint", "s"])
    k = V.pick("node", [0, m // 3, m // 2, m - 1])
    if c == "s":
        s[k] = V.real("s", -9, 9)
    elif V.bool("exchange"):
        j = V.pick("with", [j for j in (0, 1, m // 4, m // 2 + 1, m - 1) if j != k])
        t[c][j], t[c][k] = t[c][k], t[c][j]
    else:
        t[c][k] = V.int("value", -1, N if c == "fiber" else m)
    df = mesh_frame(V, t["fiber"], t["beam"], t["constraint"], s, dict(n=N, size=V.q(8), periodic=False))
    o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf(t["fiber"], t["beam"], t["constraint"], s, N), ValueError)


# ---------------------------------------------------------------------------- interpolation
@case("C22", "many", bounds="40 scalars or vectors (numbers, the one before and the one after any values), t anywhere between two consecutive knots (the first, middle and last intervals)")
def many_values(V, fm):
    n = 40
    r = random.Random(3)
    wide = V.pick("components", [1, 3])
    y = [[V.q("%d/8" % r.randrange(-80, 81)) for _ in range(wide)] for _ in range(n)]
    k = V.pick("interval", [0, n // 2, n - 2])
    y[k][0], y[k + 1][wide - 1] = V.real("a", -100, 100), V.real("b", -100, 100)
    kind = V.pick("kind", ["linear", "previous"])
    u = V.real("u", 0, 1)
    t = (V.q(k) + u) / V.q(n - 1)
    f = fm.Interpolate([q[0] if wide == 1 else V.arr(q) for q in y], kind=kind)
    got = vals(f(t))
    V.check("one value per component", len(got) == wide)
    if kind == "linear":
        V.check("straight between the two neighbours", all_([eq(g, a + (b - a) * u) for g, a, b in zip(got, y[k], y[k + 1])]))
    else:
        V.assume(all_(gt(u, V.q("1/10000")), lt(u, V.q("9999/10000"))))
        V.check("holds the last reached value", same(got, y[k]))
    V.observe("f(t)", got)


@case("C13", "ladder", bounds="two fibers of 60 nodes linked one by one, two constraint or beam labels of neighbouring nodes exchanged, one replaced by a neighbouring label, or any one abscissa")
def ladder(V, fm):
    from .p_check import mesh_frame, mesh_wf, verdict
    n = 60
    c = [0] + [n + i for i in range(1, n - 1)] + [n - 1, n] + list(range(1, n - 1)) + [2 * n - 1]
    t = dict(beam=list(range(1, n)) + [0] + list(range(n + 1, 2 * n)) + [n], constraint=c)
    s = [V.q(i) for i in range(n)] * 2
    k = V.pick("node", [1, n // 2, n - 3, n + 1, n + n // 2, 2 * n - 3])
    what = V.pick("what", ["beam", "constraint", "s"])
    if what == "s":
        s[k] = V.real("s", -99, 99)
    else:
        t[what][k] = t[what][k + 1] if V.bool("exchange") else t[what][k] + V.int("by", -2, 2)
        if V.bool("both"):
            t[what][k + 1] = t[what][k + 1] - 1
    df = mesh_frame(V, [0] * n + [1] * n, t["beam"], t["constraint"], s, dict(n=2, size=V.q(8), periodic=False))
    o, r = outcome(lambda: fm.Mesh.check(df))
    verdict(V, "data", o, r, mesh_wf([0] * n + [1] * n, t["beam"], t["constraint"], s, 2), ValueError)
