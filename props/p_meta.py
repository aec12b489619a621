"""C35: units.  C36: column order and additional columns."""
import math

from .common import *
from .p_defaults import near
from .p_model import SHAPES, chain_mesh, flat_mat, props_of
from .p_net import direction
from .p_render import provide, ref_points
from .p_solver import pile, states
from .p_stack import bundle, layout, network, thick, LAYOUTS

LENGTHS = ["l", "b", "h", "x", "y", "z", "s", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
STRESSES = ["G", "E"]


def times(x, k):
    return x if infinite(x) else x * k


# where ties decide (threshold, ends of fibers), ratios that the real arithmetic applies exactly
DYADIC = ["1/1048576", "4", "512"]


def over(x, k):
    return x if infinite(x) else x / k


def infinite(x):
    return isinstance(x, float) and math.isinf(x) or finite(x).margin() < 0


def in_units(V, df, k, m=1):
    """The same table with lengths in units k times smaller and stresses in units m times smaller."""
    cols = {c: [times(x, k if c in LENGTHS else m if c in STRESSES else 1) for x in vals(df[c])] for c in df.columns}
    at = dict(df.attrs)
    if "size" in at:
        at["size"] = at["size"] * k
    return V.frame(cols, attrs=at)


def agree(V, label, a, b, k, m=1):
    """b is a in the other units."""
    V.check(label + ": rows", list(a.index) == list(b.index) and list(a.columns) == list(b.columns))
    for c in a.columns:
        f = k if c in LENGTHS else m if c in STRESSES else 1
        V.check("%s: column %s in the other units" % (label, c), all_([eq(x, y / f) if not infinite(x) else cond(infinite(y)) for x, y in zip(vals(a[c]), vals(b[c]))]))


def scale(V, lo="1/1000", hi=1000):
    return V.real("k", V.q(lo), V.q(hi))


@case("C35", "generation", bounds="2 fibers of any dimensions and moduli, every draw of one generator state, any ratio k of units of length and m of units of stress in [1/1000, 1000]")
def generation(V, fm):
    k, m = scale(V), V.real("m", V.q("1/1000"), 1000)
    p = {c: V.real(c, 0, 50, lo_open=True) for c in ("length", "width", "thickness", "size", "shear")}
    p["tensile"] = INF if V.bool("inextensible") else V.real("tensile", 0, 50, lo_open=True)
    q = {c: times(x, m if c in ("shear", "tensile") else k) for c, x in p.items()}
    V.stub_random()
    a = fm.Mat(2, seed=1, theta=0.0, **p)
    b = fm.Mat(2, seed=1, theta=0.0, **q)
    for c in ("l", "b", "h", "G", "E"):
        agree(V, "Mat", a[[c]], b[[c]], k, m)
    half = q["size"] * V.q("1/2")
    V.check("positions within the box in either unit", all_([all_(le(-half, x), le(x, half)) for c in "xyz" for x in vals(b[c])]))


@case("C35", "draws", bounds="4 fibers of the real generator (seeds 0-2), theta pi or 0, ratio of units of length 2^-20, 1/8, 4 or 1024")
def draws(V, fm):
    import numpy as np
    k = V.pick("ratio", [V.q(DYADIC[0]), V.q("1/8"), V.q(4), V.q(1024)])
    p = dict(n=4, seed=V.int("seed", 0, 2), theta=V.pick("theta", [np.pi, 0.0]))
    a = fm.Mat(length=V.q(25), size=V.q(50), **p)
    b = fm.Mat(length=V.q(25) * k, width=k, thickness=k, size=V.q(50) * k, **p)
    agree(V, "Mat", a, b, k)


PAIRS = [("x", "34"), ("x", "x"), ("y", "43")]


@case("C35", "network", bounds="2 fibers of any lengths and positions, 3 pairs of directions (crossing, parallel), not periodic, ratio of units of length 2^-20, 4 or 512")
def net(V, fm):
    d = V.pick("directions", PAIRS)
    k = V.q(V.pick("ratio", DYADIC))
    rows = []
    for i in range(2):
        pos = [V.real("%s%d" % (c, i), -10, 10) for c in "xy"] if i else [V.q(0), V.q(0)]
        rows.append([V.real("l%d" % i, 0, 8, lo_open=True), V.q(1), V.q(1)] + pos + [V.q(i)]
                    + list(direction(V, d[i])) + [V.q(1), V.q(1)])
    mat = make_mat(V, fm, rows, V.q(30))
    a = fm.Net(mat, periodic=False)
    b = fm.Net(fm.Mat(in_units(V, mat, k)), periodic=False)
    agree(V, "Net", a, b, k)


@case("C35", "periodic", bounds="2 fibers in a periodic box, any position of one of them, crossing or parallel, ratio of units of length 2^-20 or 4")
def periodic(V, fm):
    d = V.pick("directions", PAIRS[:2])
    k = V.q(V.pick("ratio", DYADIC[:2]))
    pos = [[V.q(0), V.q(0)], [V.real("x", -5, 5), V.real("y", -5, 5)]]
    rows = [[V.q([4, 3][i]), V.q(1), V.q(1)] + pos[i] + [V.q(i)] + list(direction(V, d[i])) + [V.q(1), V.q(1)] for i in range(2)]
    mat = make_mat(V, fm, rows, V.q(10))
    a = fm.Net(mat)
    b = fm.Net(fm.Mat(in_units(V, mat, k)))
    agree(V, "Net", a, b, k)


@case("C35", "stack", bounds="4 fibers in one of 3 layouts, any thicknesses <= 5, periodic or not, with or without any threshold, ratio of units of length 1/128, 4 or 512: stack and mesh")
def stack(V, fm):
    k = V.q(V.pick("ratio", ["1/128"] + DYADIC[1:]))
    rows = layout(V, V.pick("layout", list(LAYOUTS)), 4, thick(V, 4))
    per = V.bool("periodic")
    t = V.real("threshold", 0, 20) if V.bool("with-threshold") else None
    A = make_mat(V, fm, rows, V.q(8))
    B = fm.Mat(in_units(V, A, k))
    sa = fm.Stack(A, fm.Net(A, periodic=per), threshold=t)
    sb = fm.Stack(B, fm.Net(B, periodic=per), threshold=None if t is None else t * k)
    agree(V, "stacked fibers", A, B, k)
    agree(V, "Stack", sa, sb, k)
    agree(V, "Mesh", fm.Mesh(sa), fm.Mesh(sb), k)


def unit_of(i, j, k, m):
    """Unit of the coefficient (i, j) of the stiffness: heights and rotations alternate."""
    return m * k * (k if i % 2 else 1) * (k if j % 2 else 1)


@case("C35", "model", bounds="a fiber of 2 beams or 2 linked fibers of any lengths, sections and moduli (E infinite or not), any coupling, lmin or lmax; ratio k of units of length 1/10^6 or any in [1/100, 100], of stress 1/20 or 1000: stiffness and constraint")
def model(V, fm):
    nodes, links = V.pick("shape", [SHAPES["two-beams"], ([3, 3], [((0, 1), (1, 1))])])
    k = V.pick("ratio", [V.q("1/1000000"), None])
    k = scale(V, "1/100", 100) if k is None else k
    m = V.q("1/20") if V.bool("softer") else V.q(1000)
    E = "inf" if len(nodes) == 1 and V.bool("inextensible") else "finite"
    M = flat_mat(V, fm, [props_of(V, i, E, ("h", "G")) for i in range(len(nodes))])
    mesh, info = chain_mesh(V, fm, nodes, links, z=[V.q(i % 3 + (3 if i > 2 else 0)) for i in range(sum(nodes))])
    lim = V.pick("limits", ["none", "lmin", "lmax"]) if len(nodes) == 1 else "none"
    c = V.real("coupling", 0, 1)
    own = {} if lim == "none" else {lim: V.real(lim, V.q("1/10"), 9)}
    M2, mesh2 = fm.Mat(in_units(V, M, k, m)), fm.Mesh(in_units(V, mesh, k))
    a = fm.stiffness(M, mesh, coupling=c, **own)
    b = fm.stiffness(M2, mesh2, coupling=c, **{x: y * k for x, y in own.items()})
    for i, (r, s) in enumerate(zip(dense(V, a[0]), dense(V, b[0]))):
        V.check("stiffness in the other units", all_([near(x, over(y, unit_of(i, j, k, m))) for j, (x, y) in enumerate(zip(r, s))]))
    a, b = fm.constraint(M, mesh), fm.constraint(M2, mesh2)
    V.check("the same contact matrix", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    V.check("bounds in the other units", all_([near(x, over(y, k)) for x, y in zip(vals(a[2]), vals(b[2]))]))
    V.check("the same increments", same(vals(a[4]), vals(b[4])))


@case("C35", "solve", names=["single", "short", "pair"], steps=2, free="flat", bounds="piles of 1-2 fibers of any node heights, up to 2 steps, any packing; ratio of units of length 2^-20 or 128, of stress 1/16 or 1024, tol in the same units")
@case("C35", "solve-deep", names=["single", "short", "pair", "lever", "thin", "double"], steps=4, tier="thorough", bounds="piles of 1-2 fibers of any node heights, up to 4 steps, any packing; ratio of units of length 2^-20 or 128, of stress 1/16 or 1024, tol in the same units")
def solve(V, fm, names, steps, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    k, m = V.pick("ratio", [(V.q(DYADIC[0]), V.q(1024)), (V.q(128), V.q("1/16"))])
    M2, mesh2 = fm.Mat(in_units(V, P.mat, k, m)), fm.Mesh(in_units(V, P.mesh, k))
    own = dict(packing=V.real("packing", 1, 1000), itermax=steps, coupling=0.5, verbose=False)
    tol = V.q("1/1000000")
    a = states(V, P, fm.solve(P.mat, P.mesh, tol=tol, errtol=1e-3, **own))
    b = states(V, P, fm.solve(M2, mesh2, tol=tol * k, errtol=1e3, **own))
    V.check("the same number of steps", a.steps == b.steps)
    if a.steps == b.steps:
        for s in range(a.steps + 1):
            V.check("displacements in the other units, the same rotations", all_([eq(x, y if i % 2 else y / k) for i, (x, y) in enumerate(zip(a.u[s], b.u[s]))]))
            V.check("forces in the other units", all_([eq(x, y / (m * k * k)) for x, y in zip(a.f[s], b.f[s])]))
            V.check("loads in the other units", all_([eq(x, y / (m * k * k * (k if i % 2 else 1))) for i, (x, y) in enumerate(zip(a.F[s], b.F[s]))]))
            V.check("bounds in the other units", all_([near(x, over(y, k)) for x, y in zip(a.H[s], b.H[s])]))
            V.check("plate height in the other units", eq(a.Z[s], b.Z[s] / k))
            V.check("the same stretch factor", eq(a.rl[s], b.rl[s]))
            V.check("the same active unknowns", all_([cond(bool(x) == bool(y)) for x, y in zip(a.mask[s], b.mask[s])]))


@case("C35", "fiber", bounds="a fiber model of any dimensions and centre along 3 directions, 2 points of the reference cylinder, any ratio of units of length in [1/1000, 1000]")
def fiber(V, fm):
    k = scale(V)
    d = list(direction(V, V.pick("direction", ["x", "34", "y"])))
    p = [V.real(c, 0, 50, lo_open=True) for c in "lbh"] + [V.real(c, -50, 50) for c in "xyz"]
    pts = ref_points(V, 2)
    provide(V, pts)
    a = fm.vtk_fiber(*p, *d)
    b = fm.vtk_fiber(*[x * k for x in p], *d)
    V.check("points in the other units", same(vals(a.points), [x / k for x in vals(b.points)]))


# ---------------------------------------------------------------------------- C36
def order(V):
    return V.pick("order", ["reversed", "rotated", "extra"])


def shuffled(V, df, tag, how):
    """The columns in another order, with additional ones."""
    cs = list(df.columns)
    cs = cs[::-1] if how == "reversed" else cs[3:] + cs[:3] if how == "rotated" else cs
    cols = {c: vals(df[c]) for c in cs}
    n = len(df)
    if how != "rotated":
        new = {"extra": [V.real("extra%d.%s" % (i, tag), -5, 5) for i in range(n)], "A0": [V.q(i) for i in range(n)]}
        cols = dict(new, **cols) if how == "reversed" else dict(cols, **new)
    return V.frame(cols, attrs=dict(df.attrs))


def columns_agree(V, label, a, b, cs):
    V.check(label + ": rows", list(a.index) == list(b.index) and all(c in b.columns for c in cs))
    V.check(label + ": values", all_([same(vals(a[c]), vals(b[c])) for c in cs]))


@case("C36", "network", bounds="4 fibers in one of 3 layouts, any thicknesses <= 5, periodic or not, with any threshold or without: Net, Stack, Stack.constraint and Mesh; columns reversed or rotated, additional columns of any values")
def net_columns(V, fm):
    rows = layout(V, V.pick("layout", list(LAYOUTS)), 4, thick(V, 4))
    per = V.bool("periodic")
    t = V.real("threshold", 0, 20) if V.bool("with-threshold") else None
    A = make_mat(V, fm, rows, V.q(8))
    how = order(V)
    B = fm.Mat(shuffled(V, A, "mat", how))
    na, nb = fm.Net(A, periodic=per), fm.Net(B, periodic=per)
    columns_agree(V, "Net", na, nb, NETC)
    nb = fm.Net(shuffled(V, nb, "net", how))
    for x, y in zip(fm.Stack.constraint(A, na), fm.Stack.constraint(B, nb)):
        x, y = (z.toarray() if hasattr(z, "toarray") else z for z in (x, y))
        V.check("Stack.constraint", same(vals(x), vals(y)))
    sa, sb = fm.Stack(A, na, threshold=t), fm.Stack(B, nb, threshold=t)
    columns_agree(V, "Stack", sa, sb, NETC)
    columns_agree(V, "stacked fibers", A, B, MATC)
    columns_agree(V, "Mesh", fm.Mesh(sa), fm.Mesh(fm.Stack(shuffled(V, sb, "stack", how))), MESHC)


@case("C36", "model", bounds="2 linked fibers of any lengths, sections and moduli: stiffness and constraint; columns reversed or rotated, additional columns of any values (a stale column h of the mesh too)")
def model_columns(V, fm):
    nodes, links = [3, 3], [((0, 1), (1, 1))]
    M = flat_mat(V, fm, [props_of(V, i, "finite", ("h", "G")) for i in range(2)])
    mesh, info = chain_mesh(V, fm, nodes, links, z=[V.q(i % 3 + (3 if i > 2 else 0)) for i in range(6)])
    how = order(V)
    M2, mesh2 = fm.Mat(shuffled(V, M, "mat", how)), fm.Mesh(shuffled(V, mesh, "mesh", how))
    if how == "extra":
        mesh2["h"] = V.arr([V.real("stale%d" % i, 0, 9) for i in range(6)])
    a, b = fm.stiffness(M, mesh), fm.stiffness(M2, mesh2)
    V.check("the same stiffness", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    a, b = fm.constraint(M, mesh), fm.constraint(M2, mesh2)
    V.check("the same contacts", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    V.check("the same contact vectors", all_([same(vals(x), vals(y)) for x, y in zip(a[1:], b[1:])]))


@case("C36", "solve", names=["single", "pair"], bounds="piles of 1-2 fibers of any node heights, up to 2 steps; columns reversed or rotated, additional columns of any values (a stale column h of the mesh too)")
def solve_columns(V, fm, names):
    P = pile(V, fm, V.pick("pile", names), free="flat")
    how = order(V)
    M2, mesh2 = fm.Mat(shuffled(V, P.mat, "mat", how)), fm.Mesh(shuffled(V, P.mesh, "mesh", how))
    if how == "extra":
        mesh2["h"] = V.arr([V.real("stale%d" % i, 0, 9) for i in range(P.m)])
    own = dict(packing=V.q(1000), itermax=2, coupling=0.5, verbose=False)
    a, b = states(V, P, fm.solve(P.mat, P.mesh, **own)), states(V, P, fm.solve(M2, mesh2, **own))
    V.check("the same number of steps", a.steps == b.steps)
    if a.steps == b.steps:
        for c in ("u", "f", "F", "H"):
            V.check("the same " + c, all_([near(p, q) for r, s in zip(getattr(a, c), getattr(b, c)) for p, q in zip(r, s)]))
        V.check("the same heights", all_([eq(p, q) for p, q in zip(a.Z, b.Z)]))


@case("C36", "export", bounds="1-2 fibers of any dimensions, any point of the cylinder: vtk_mat with columns reversed or rotated and additional columns of any values")
def export_columns(V, fm):
    rows = [[V.real(c + str(i), 0, 9, lo_open=True) for c in "lbh"] + [V.real(c + str(i), -9, 9) for c in "xyz"]
            + list(direction(V, ["34", "x"][i])) + [V.q(1), V.q(2)] for i in range(V.pick("n", [1, 2]))]
    M = make_mat(V, fm, rows, V.q(20))
    pts = ref_points(V, 1)
    provide(V, pts)
    a, b = fm.vtk_mat(M, verbose=False), fm.vtk_mat(fm.Mat(shuffled(V, M, "mat", order(V))), verbose=False)
    V.check("the same points", same(vals(a.points), vals(b.points)))
    V.check("the same fields", sorted(a.array_names) == sorted(b.array_names))
    for c in sorted(a.array_names):
        V.check("field " + c, same(vals(a[c]), vals(b[c])))
