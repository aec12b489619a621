"""C23-C25: VTK exports (pyvista is a stand-in with its documented geometry, see DESIGN)."""
from .common import *
from .p_model import chain_mesh  # noqa: F401
from .p_net import direction


def ref_points(V, k, tag="p"):
    """k points of the reference cylinder: axis x in [-1/2, 1/2], polar position of radius r <= 1."""
    out = []
    for i in range(k):
        xi = V.real("%s%d.x" % (tag, i), V.q("-1/2"), V.q("1/2"))
        out.append((xi, V.real("%s%d.y" % (tag, i), V.q("-1/2"), V.q("1/2")),
                    V.real("%s%d.z" % (tag, i), V.q("-1/2"), V.q("1/2"))))
    for p in out:
        V.assume(le(p[1] * p[1] + p[2] * p[2], V.q("1/4")))
    return out


def provide(V, pts, calls=None):
    def f(radius, theta_resolution, z_resolution):
        if calls is not None:
            calls.append(([float(r) for r in vals(radius)], theta_resolution, z_resolution))
        return V.arr([c for p in pts for c in p], (len(pts), 3))
    V.set_points(f)


def rows3(a):
    import numpy as np
    a = np.asarray(a, dtype=object)
    return [list(r) for r in a.reshape(-1, 3)] if a.size else []


def shape_of(V, pts, got, l, b, h, c, d, planar):
    """got: exported points for the reference points pts."""
    V.check("one exported point per reference point", len(got) == len(pts))
    for (xi, eta, zeta), X in zip(pts, got):
        r = [X[k] - c[k] for k in range(3)]
        ax = r[0] * d[0] + r[1] * d[1] + r[2] * d[2]
        V.check("axial coordinate is l times the reference one", eq(ax, l * xi))
        if planar:
            q, p = r[2], r[1] * d[0] - r[0] * d[1]
            V.check("thickness direction vertical: height is h times the reference one",
                    any_(eq(q, h * zeta), eq(q, -h * zeta)))
            V.check("width coordinate is b times the reference one", any_(eq(p, b * eta), eq(p, -b * eta)))
            V.check("inside the elliptic cylinder", eq(p * p * h * h + q * q * b * b,
                                                       b * b * h * h * (eta * eta + zeta * zeta)))
        else:
            n2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
            V.check("transverse distance is that of the scaled reference point",
                    eq(n2 - ax * ax, b * b * eta * eta + h * h * zeta * zeta))


def fields_of(V, msh, pts, label, l, b, h, d, G, E, at=0):
    n = len(pts)
    sl = slice(at * n, (at + 1) * n)
    f = {k: list(msh[k])[sl] for k in ("fiber", "lbh", "xyz", "uvw", "G", "E")}
    V.check("field fiber", all_([eq(x, label) for x in f["fiber"]]))
    V.check("field lbh", all_([same(x, [l, b, h]) for x in f["lbh"]]))
    V.check("field xyz", all_([same(x, [l * p[0], b * p[1], h * p[2]]) for x, p in zip(f["xyz"], pts)]))
    V.check("field uvw", all_([same(x, d) for x in f["uvw"]]))
    V.check("field G", all_([eq(x, G) for x in f["G"]]))
    V.check("field E", all_([eq(x, E) for x in f["E"]]))


DIRS_VTK = [("1", "0", "0"), ("0", "1", "0"), ("0", "-1", "0"), ("3/5", "-4/5", "0"), ("-5/13", "12/13", "0"),
            ("2/3", "1/3", "2/3"), ("0", "3/5", "4/5"), ("0", "0", "1")]


def any_fiber(V):
    l, b, h = (V.real(c, 0, 50, lo_open=True) for c in "lbh")
    c = [V.real(k, -50, 50) for k in "xyz"]
    G = V.real("G", 0, 100, lo_open=True)
    E = INF if V.bool("E-infinite") else V.real("E", 0, 100, lo_open=True)
    return l, b, h, c, G, E


def one(V, fm, d, planar):
    l, b, h, c, G, E = any_fiber(V)
    pts = ref_points(V, 2)
    calls = []
    provide(V, pts, calls)
    kw = V.pick("kw", [{}, dict(r_resolution=3, theta_resolution=5, z_resolution=7)])
    index = V.pick("index", [None, 0, 4])
    msh = fm.vtk_fiber(l, b, h, *c, *d, G, E, index=index, **kw)
    V.check("built once", len(calls) == 1)
    radii, nt, nz = calls[0]
    V.check("the reference cylinder reaches radius 1/2 and its axis", abs(max(radii) - .5) < 1e-12 and abs(min(radii)) < 1e-12
            and all(r >= -1e-12 for r in radii))
    V.check("resolutions are those asked for", (len(radii) - 1, nt, nz) == (
        kw.get("r_resolution", 1), kw.get("theta_resolution", 8), kw.get("z_resolution", 20)))
    got = rows3(msh.points)
    shape_of(V, pts, got, l, b, h, c, d, planar)
    if index is not None:
        fields_of(V, msh, pts, index, l, b, h, d, G, E)
    V.observe("points", [x for r in got for x in r])


@case("C23", "given-directions", bounds="fibers of any dimensions, centre and moduli, directions among 8 rational ones (in plane, axis-aligned, spatial, vertical), any two points of the reference cylinder, index None, 0 or another, two resolutions")
def fiber_given(V, fm):
    k = V.pick("direction", DIRS_VTK)
    one(V, fm, [V.q(c) for c in k], k[2] == "0")


@case("C23", "in-plane", bounds="fibers of any dimensions, centre and moduli, any in-plane direction at least 1e-4 away from the y axis, any two points of the reference cylinder")
def fiber_plane(V, fm):
    u, v = V.unit2("d", half=False)
    V.assume(any_(ge(u, V.q("1/10000")), le(u, V.q("-1/10000"))))
    one(V, fm, [u, v, V.q(0)], True)


@case("C23", "spatial", tier="thorough", bounds="fibers of any dimensions and centre, any direction in space at least 1e-2 away from the y axis, any point of the reference cylinder")
def fiber_space(V, fm):
    d = V.unit3("d")
    V.assume(ge(d[0] * d[0] + d[2] * d[2], V.q("1/10000")))
    l, b, h, c, G, E = any_fiber(V)
    pts = ref_points(V, 1)
    provide(V, pts)
    msh = fm.vtk_fiber(l, b, h, *c, *d, G, E)
    shape_of(V, pts, rows3(msh.points), l, b, h, c, list(d), False)


@case("C23", "defaults", bounds="vtk_fiber with any subset of its named arguments left out: documented defaults (25 x 1 x 1 mm at the origin along x)")
def fiber_defaults(V, fm):
    pts = ref_points(V, 1)
    provide(V, pts)
    kw, val = {}, dict(length=V.q(25), width=V.q(1), thickness=V.q(1), x=V.q(0), y=V.q(0), z=V.q(0), shear=V.q(1), tensile=INF)
    g = V.pick("given", [(), ("length",), ("width", "z"), ("thickness", "x"), ("y", "shear"), ("tensile",)])
    for n in g:
        val[n] = kw[n] = V.real(n, 1, 10)
    msh = fm.vtk_fiber(index=2, **kw)
    d = [V.q(1), V.q(0), V.q(0)]
    c = [val[k] for k in "xyz"]
    shape_of(V, pts, rows3(msh.points), val["length"], val["width"], val["thickness"], c, d, True)
    fields_of(V, msh, pts, 2, val["length"], val["width"], val["thickness"], d, val["shear"], val["tensile"])


# ---------------------------------------------------------------------------- C24
def some_mat(V, fm, n):
    rows, names = [], ["34", "x", "43"]
    for i in range(n):
        d = direction(V, names[i])
        rows.append([V.real("l%d" % i, 0, 20, lo_open=True), V.real("b%d" % i, 0, 5, lo_open=True),
                     V.real("h%d" % i, 0, 5, lo_open=True)] + [V.real("%s%d" % (k, i), -20, 20) for k in "xyz"]
                    + list(d) + [V.real("G%d" % i, 0, 9, lo_open=True),
                                 INF if V.bool("inf%d" % i) else V.real("E%d" % i, 0, 9, lo_open=True)])
    return make_mat(V, fm, rows, V.q(50)), rows


@case("C24", "mats", most=3, bounds="mats of 0 to 3 fibers with any dimensions, positions and moduli (E infinite or not), with or without func, verbose or not, two resolutions")
def mats(V, fm, most):
    n = V.int("n", 0, most)
    mat, rows = some_mat(V, fm, n)
    pts = ref_points(V, 2)
    calls = []
    provide(V, pts, calls)
    seen = []

    def func(msh, i):
        seen.append((int(i), rows3(msh.points), [x for x in msh["fiber"]]))
        msh["mine"] = V.arr([V.q(10 * int(i) + k) for k in range(len(pts))])
    use = V.bool("func")
    kw = V.pick("kw", [{}, dict(theta_resolution=3, z_resolution=4, r_resolution=2)]) if n else {}
    out = fm.vtk_mat(mat, func=func if use else None, verbose=V.bool("verbose") if n else False, **kw)
    got = rows3(out.points)
    k = len(pts)
    V.check("points of every fiber, once", len(got) == n * k and len(calls) == n)
    if not n:
        V.check("func is not called on an empty mat", not seen)
        return
    V.check("options are passed on", all(c[1:] == (kw.get("theta_resolution", 8), kw.get("z_resolution", 20))
                                         and len(c[0]) == kw.get("r_resolution", 1) + 1 for c in calls))
    for i, r in enumerate(rows):
        l, b, h = r[:3]
        shape_of(V, pts, got[i * k:(i + 1) * k], l, b, h, r[3:6], r[6:9], True)
        fields_of(V, out, pts, i, l, b, h, r[6:9], r[9], r[10], at=i)
    if use:
        V.check("func is called once per fiber with its label", [s[0] for s in seen] == list(range(n)))
        for i, (_, p, lab) in enumerate(seen):
            if i < n:
                V.check("func receives the mesh of the fiber", all_(cond(len(p) == k), [same(a, b) for a, b in zip(p, got[i * k:])],
                                                                    [eq(x, i) for x in lab]))
        V.check("what func adds is in the result", same(vals(out["mine"]), [V.q(10 * i + j) for i in range(n) for j in range(k)]))
    V.observe("points", [x for r in got for x in r])


# ---------------------------------------------------------------------------- C25
MESHED = {
    "one": ([3], []),
    "two": ([3, 2], []),
    "linked": ([3, 3], [((0, 1), (1, 1))]),
    "rich": ([4, 3, 3], [((0, 1), (1, 1)), ((0, 2), (2, 1))]),
}


def meshed(V, fm, name, periodic=False, rational=False, size="20"):
    """A mat and a mesh of it whose ends are the ends of the fibers."""
    nodes, links = MESHED[name]
    n = len(nodes)
    lens = ["4", "2", "3"]
    rows = [[V.q(lens[i]), V.q(1), V.q("1/2"), V.q(i), V.q("1/3"), V.q(i)] + list(direction(V, ["34", "x", "43"][i]))
            + [V.q(1), V.q(2)] for i in range(n)]
    mat = make_mat(V, fm, rows, V.q(size))
    start = [sum(nodes[:f]) for f in range(n)]
    fiber, S, beam, con = [], [], [], list(range(sum(nodes)))
    for f, k in enumerate(nodes):
        half = V.q(lens[f]) * V.q("1/2")
        inner = [V.q(["1/4", "3/4"][j]) if rational else V.real("s%d_%d" % (f, j + 1)) for j in range(k - 2)]
        for a, b in zip([-half] + inner, inner + [half]):
            V.assume(le(a + V.q("1/100"), b))
        S += [-half] + inner + [half]
        fiber += [f] * k
        beam += [start[f] + (j + 1) % k for j in range(k)]
    for (f, k), (g, j) in links:
        a, b = start[f] + k, start[g] + j
        con[a], con[b] = b, a
    m = len(fiber)
    mesh = fm.Mesh(V.frame({"fiber": fiber, "s": S, "x": [V.q(0)] * m, "y": [V.q(0)] * m,
                            "z": [V.q(i) for i in range(m)], "beam": beam, "constraint": con},
                           attrs=dict(n=n, size=V.q(size), periodic=periodic)))
    return mat, mesh, dict(fiber=fiber, s=S, start=start, nodes=nodes, m=m, n=n, lens=[V.q(l) for l in lens])


def hermite(V, y, d, k, j):
    """Value and derivative at relative position j of the cubic through nodes k and k + 1."""
    j2 = j * j
    a = y[k] * (2 * j2 * j - 3 * j2 + 1) + d[k] * (j2 * j - 2 * j2 + j) + y[k + 1] * (3 * j2 - 2 * j2 * j) \
        + d[k + 1] * (j2 * j - j2)
    b = y[k] * (6 * j2 - 6 * j) + d[k] * (3 * j2 - 4 * j + 1) + y[k + 1] * (6 * j - 6 * j2) + d[k + 1] * (3 * j2 - 2 * j)
    return a, b


def bend(V, y, d, k, j):
    """Second derivative of the same cubic."""
    return y[k] * (12 * j - 6) + d[k] * (6 * j - 4) + y[k + 1] * (6 - 12 * j) + d[k + 1] * (6 * j - 2)


def interval(V, info, f, x):
    """Node before x on fiber f and relative position."""
    a = info["start"][f]
    k = a
    for j in range(a + 1, a + info["nodes"][f] - 1):
        if V.decide(le(info["s"][j], x)):
            k = j
    return k, (x - info["s"][k]) / (info["s"][k + 1] - info["s"][k])


@case("C25", "one", names=["one", "two"], k=1, bounds="1 or 2 fibers with 2-3 nodes (any abscissa of the inner node), any point of the reference cylinder, any nodal displacements, rotations, forces and moments or without")
@case("C25", "linked", names=["linked"], k=1, bounds="2 linked fibers with 3 nodes each (any inner abscissae), any point of the cylinder, any nodal values")
@case("C25", "rich", names=["rich"], k=1, bounds="3 linked fibers with 3-4 nodes (any inner abscissae), any point of the cylinder, any nodal values", tier="thorough")
@case("C25", "two-points", names=["linked"], k=2, bounds="2 linked fibers with 3 nodes (any inner abscissae), any two points of the cylinder, any nodal values", tier="thorough")
def fields(V, fm, names, k):
    mat, mesh, info = meshed(V, fm, V.pick("mesh", names))
    m = info["m"]
    pts = ref_points(V, k)
    provide(V, pts)
    base = rows3(fm.vtk_mat(mat, verbose=False).points)
    D, R, F, M = ([V.real("%s%d" % (c, i), -10, 10) for i in range(m)] for c in "DRFM")
    zero = [V.q(0)] * m
    kw = {}
    what = V.pick("given", ["displacement", "both", "uniform", "force", "all", "none", "no moment", "no rotation", "load"])
    if what == "uniform":
        R = [V.real("R", -10, 10)] * m
    if what in ("displacement", "both", "all", "uniform", "no moment", "no rotation"):
        kw["displacement"] = V.arr(D)
    if what in ("both", "all", "uniform", "no moment"):
        kw["rotation"] = V.arr(R)
    else:
        R = zero
    if what in ("force", "all", "no moment", "no rotation", "load"):
        kw["force"] = V.arr(F)
    if what in ("all", "no rotation", "load"):
        kw["moment"] = V.arr(M)
    else:
        M = zero
    out = fm.vtk_mesh(mat, mesh, verbose=False, **kw)
    got = rows3(out.points)
    V.check("the points of every fiber", len(got) == len(base))
    at = 0
    for f in range(info["n"]):
        for p in pts:
            x = info["lens"][f] * p[0] * V.q(0.9999)
            n, j = interval(V, info, f, x)
            P, Q = base[at], got[at]
            if "displacement" in kw:
                w, dw = hermite(V, D, R, n, j)
                V.check("displacement is the Hermite interpolation of the two neighbouring nodes",
                        same(list(out["displacement"])[at], [V.q(0), V.q(0), w]))
                V.check("rotation is its derivative", eq(list(out["rotation"])[at], dw))
                V.check("curvature is its second derivative", eq(list(out["curvature"])[at], bend(V, D, R, n, j)))
                V.check("the point is moved by its displacement", same(Q, [P[0], P[1], P[2] + w]))
            else:
                V.check("without displacement points stay", same(Q, P))
            if "force" in kw:
                w, _ = hermite(V, F, M, n, j)
                V.check("force is the Hermite interpolation of the two neighbouring nodes", eq(list(out["force"])[at], w))
            at += 1
    for c, key in (("displacement", "displacement"), ("displacement", "rotation"), ("displacement", "curvature"), ("force", "force")):
        V.check("fields are present iff given", (key in list(out.array_names)) == (c in kw))
    V.observe("points", [x for r in got for x in r])


@case("C25", "rigid", bounds="3 linked fibers with 3-4 nodes, any two points of the cylinder, any rigid vertical translation, rotation omitted or zero")
def rigid(V, fm):
    mat, mesh, info = meshed(V, fm, "rich", rational=True)
    pts = ref_points(V, 1)
    provide(V, pts)
    base = rows3(fm.vtk_mat(mat, verbose=False).points)
    t = V.real("t", -10, 10)
    kw = dict(displacement=V.arr([t] * info["m"]))
    if V.bool("rotation"):
        kw["rotation"] = V.arr([V.q(0)] * info["m"])
    got = rows3(fm.vtk_mesh(mat, mesh, verbose=False, **kw).points)
    V.check("the points of every fiber", len(got) == len(base))
    for P, Q in zip(base, got):
        V.check("a rigid translation moves every point by itself", same(Q, [P[0], P[1], P[2] + t]))


@case("C25", "periodic", bounds="1 or 3 fibers with 3-4 nodes in a periodic box of size 20, 9/2 or 400, any point of the cylinder, any rigid translation in [0, 1] (size 20: [60, 61] or [-61, -60] too): an untranslated copy of the exported fiber is part of the result")
def periodic(V, fm):
    size, far = V.pick("box", [("20", 0), ("20", 60), ("20", -61), ("9/2", 0), ("400", 0)])
    mat, mesh, info = meshed(V, fm, V.pick("mesh", ["one", "rich"]), periodic=True, rational=True, size=size)
    pts = [(V.real("x", V.q("-1/2"), V.q("1/2")), V.q("1/10"), V.q("1/5"))]
    provide(V, pts)
    base = rows3(fm.vtk_mat(mat, verbose=False).points)
    t = V.real("t", 0, 1) + far
    out = fm.vtk_mesh(mat, mesh, displacement=V.arr([t] * info["m"]), verbose=False)
    got = rows3(out.points)
    want = [[P[0], P[1], P[2] + t] for P in base]
    X, e = V.q(size), V.q("1/1000")
    for w in want:
        V.check("the translated fiber is part of the result", any_([same(got[i], w) for i in range(len(got))]))
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                p = [w[0] + i * X, w[1] + j * X, w[2]]
                out_ = [c for q in p[:2] for c in (le(q, e - X), ge(q, X - e))]
                V.check("its periodic images are part of the result within one size of the centre",
                        any_(out_, [same(g, p) for g in got]))
    V.check("nothing lies farther than one size from the centre", all_([all_(le(-X - e, c), le(c, X + e)) for g in got for c in g[:2]]))


@case("C25", "coincident", bounds="a fiber of 4-5 nodes two or three of which share an abscissa (any), any point of the cylinder elsewhere than on a node, any nodal displacements, rotations and forces")
def coincident(V, fm):
    k = V.pick("nodes", [2, 3])
    s = V.real("s", V.q("-19/10"), V.q("19/10"))
    mat = make_mat(V, fm, [[V.q(4), V.q(1), V.q("1/2"), V.q(0), V.q("1/3"), V.q(0)] + list(direction(V, "34")) + [V.q(1), V.q(2)]], V.q(20))
    m = k + 2
    S = [V.q(-2)] + [s] * k + [V.q(2)]
    mesh = fm.Mesh(V.frame({"fiber": [0] * m, "s": S, "x": [V.q(0)] * m, "y": [V.q(0)] * m, "z": [V.q(0)] * m,
                            "beam": [(j + 1) % m for j in range(m)], "constraint": list(range(m))},
                           attrs=dict(n=1, size=V.q(20), periodic=False)))
    pts = ref_points(V, 1)
    x = 4 * pts[0][0] * V.q(0.9999)
    V.assume(any_(le(x, s - V.q("1/100")), ge(x, s + V.q("1/100"))))
    provide(V, pts)
    D, R, F = ([V.real("%s%d" % (c, i), -10, 10) for i in range(m)] for c in "DRF")
    out = fm.vtk_mesh(mat, mesh, displacement=V.arr(D), rotation=V.arr(R), force=V.arr(F), verbose=False)
    n = 0 if V.decide(le(x, s)) else k
    j = (x - S[n]) / (S[n + 1] - S[n])
    w, dw = hermite(V, D, R, n, j)
    V.check("displacement between the two neighbouring nodes", same(list(out["displacement"])[0], [V.q(0), V.q(0), w]))
    V.check("rotation is its derivative", eq(list(out["rotation"])[0], dw))
    V.check("force between the two neighbouring nodes", eq(list(out["force"])[0], hermite(V, F, [V.q(0)] * m, n, j)[0]))


@case("C24", "from-mesh", bounds="vtk_mesh without fields on 1-2 fibers, any point of the cylinder, two resolutions, verbose or not: the fibers of vtk_mat with their fields")
def from_mesh(V, fm):
    mat, mesh, info = meshed(V, fm, V.pick("mesh", ["one", "two"]), rational=True)
    pts = ref_points(V, 1)
    calls = []
    provide(V, pts, calls)
    kw = V.pick("kw", [{}, dict(theta_resolution=3, z_resolution=4, r_resolution=2)])
    ref = fm.vtk_mat(mat, verbose=False, **kw)
    out = fm.vtk_mesh(mat, mesh, verbose=V.bool("verbose"), **kw)
    V.check("options are passed on", len(calls) == 2 * info["n"] and all(
        c[1:] == (kw.get("theta_resolution", 8), kw.get("z_resolution", 20)) and len(c[0]) == kw.get("r_resolution", 1) + 1
        for c in calls))
    V.check("same points", same([x for r in rows3(out.points) for x in r], [x for r in rows3(ref.points) for x in r]))
    for k in ("fiber", "lbh", "xyz", "uvw", "G", "E"):
        V.check("same field " + k, same(vals(out[k]), vals(ref[k])))
