"""C31: omitted options take their documented defaults."""
from .common import *
from .p_model import SHAPES, chain_mesh, flat_mat, props_of
from .p_render import provide, ref_points
from .p_solver import pile, states
from .p_stack import bundle, network, thick
from .p_build import attrs_same


def frames(V, label, a, b):
    V.check(label + ": columns and labels", list(a.columns) == list(b.columns) and list(a.index) == list(b.index))
    V.check(label + ": values", all_([same(vals(a[c]), vals(b[c])) for c in b.columns]))
    V.check(label + ": attributes", attrs_same(V, a.attrs, dict(b.attrs)))


@case("C31", "mat", bounds="2 fibers; each option omitted in turn or all of them, the others any positive numbers, angles 0 or pi; every draw of one generator state (seed 0)")
def mat(V, fm):
    import numpy as np
    doc = dict(length=V.q(25), width=V.q(1), thickness=V.q(1), size=V.q(50), theta=np.pi, psi=0.0, shear=V.q(1), tensile=INF, seed=0)
    gone = V.pick("omitted", list(doc) + ["all"])
    full = dict(doc)
    if gone != "all":
        for k in ("length", "width", "thickness", "size", "shear", "tensile"):
            if k != gone:
                full[k] = V.real(k, 0, 50, lo_open=True)
        if gone != "seed":
            full["seed"] = 3
    part = {k: v for k, v in full.items() if k != gone and gone != "all"}
    V.stub_random()
    a = fm.Mat(2, **part)
    b = fm.Mat(2, **full)
    for c in ("l", "b", "h", "G", "E"):
        V.check("Mat column " + c, same(vals(a[c]), vals(b[c])))
    V.check("Mat attributes", attrs_same(V, a.attrs, dict(b.attrs)))
    if gone == "size":
        V.check("box of 50 mm", all_([all_(le(x, 25), ge(x, -25)) for k in "xyz" for x in vals(a[k])]))
    V.check("no fiber when n is omitted", len(fm.Mat()) == 0 and fm.Mat().attrs["n"] == 0 and float(fm.Mat().attrs["size"]) == 50)


@case("C31", "draws", bounds="2 fibers, each option of the generator omitted in turn, drawn by the real generator; n = 2, the other options numbers")
def draws(V, fm):
    """The positions and orientations too: nothing is symbolic but the omitted option."""
    import numpy as np
    doc = dict(length=V.q(25), width=V.q(1), thickness=V.q(1), size=V.q(50), theta=np.pi, psi=0.0, shear=V.q(1), tensile=INF, seed=0)
    gone = V.pick("omitted", list(doc) + ["all"])
    part = {} if gone == "all" else {k: v for k, v in doc.items() if k != gone}
    a, b = fm.Mat(2, **part), fm.Mat(2, **doc)
    frames(V, "Mat", a, b)


@case("C31", "fiber", bounds="fiber model: each option omitted in turn or all, the others any positive numbers, directions along the axes; 2 points of the reference cylinder")
def fiber(V, fm):
    doc = dict(length=V.q(25), width=V.q(1), thickness=V.q(1), x=V.q(0), y=V.q(0), z=V.q(0), u=V.q(1), v=V.q(0), w=V.q(0),
               shear=V.q(1), tensile=INF, index=None, r_resolution=1, theta_resolution=8, z_resolution=20)
    gone = V.pick("omitted", list(doc) + ["all"])
    full = dict(doc)
    if gone != "all":
        for k in ("length", "width", "thickness", "x", "y", "z", "shear", "tensile"):
            if k != gone:
                full[k] = V.real(k, 0, 50, lo_open=True)
        if gone not in ("u", "v", "w") and V.bool("along-y"):
            full.update(u=V.q(0), v=V.q(1))
        if gone in ("v", "w"):
            full.update(u=V.q("3/5"), **{"w" if gone == "v" else "v": V.q("4/5")})
        if gone == "u":
            full.update(v=V.q(0), w=V.q(0))
        for k in ("r_resolution", "theta_resolution", "z_resolution"):
            if k != gone:
                full[k] = full[k] + 1
        if gone != "index":
            full["index"] = 7
    part = {} if gone == "all" else {k: v for k, v in full.items() if k != gone}
    pts, calls = ref_points(V, 2), []
    provide(V, pts, calls)
    a = fm.vtk_fiber(**part)
    b = fm.vtk_fiber(**full)
    V.check("the same reference cylinder", len(calls) == 2 and calls[0] == calls[1])
    import numpy as np
    flat = lambda x: [y for y in np.asarray(x, dtype=object).flat]  # noqa: E731
    V.check("the same points", same(flat(a.points), flat(b.points)))
    V.check("the same fields, none without an index", sorted(a.array_names) == sorted(b.array_names) and (len(a.array_names) > 0) == (full["index"] is not None))
    for k in sorted(a.array_names):
        V.check("field " + k, same(flat(a[k]), flat(b[k])))


@case("C31", "network", bounds="2 crossing or border fibers of any thicknesses <= 5: Net with periodic or pairs omitted, Stack with threshold omitted")
def net(V, fm):
    h = thick(V, 2)
    rows = bundle(V, 2, h)
    if V.bool("border"):
        rows[1][3] = V.q("19/2")
    one = lambda: make_mat(V, fm, [list(r) for r in rows], V.q(20))  # noqa: E731
    what = V.pick("omitted", ["periodic", "pairs", "threshold"])
    A, B = one(), one()
    if what == "periodic":
        a, b = fm.Net(A), fm.Net(B, periodic=True)
        V.check("periodic by default", a.attrs["periodic"] is True or a.attrs["periodic"] == True)  # noqa: E712
    elif what == "pairs":
        p = V.bool("periodic")
        a, b = fm.Net(A, periodic=p), fm.Net(B, periodic=p, pairs=None)
    else:
        p = V.bool("periodic")
        a, b = fm.Stack(A, fm.Net(A, periodic=p)), fm.Stack(B, fm.Net(B, periodic=p), threshold=None)
        E = fm.Net(B, periodic=p)
        V.check("no connection is removed by default", list(zip(ints_of(a["A"]), ints_of(a["B"]))) == list(zip(ints_of(E["A"]), ints_of(E["B"]))))
    frames(V, "network", a, b)


@case("C31", "stiffness", bounds="a fiber of 2 beams, any lengths, sections and moduli: lmin, lmax, coupling omitted in turn or all, the others any values")
def stiff(V, fm):
    nodes, links = SHAPES["two-beams"]
    M = flat_mat(V, fm, [props_of(V, i, "finite") for i in range(1)])
    mesh, info = chain_mesh(V, fm, nodes, links)
    doc = dict(lmin=None, lmax=None, coupling=V.q(1))
    gone = V.pick("omitted", list(doc) + ["all"])
    full = dict(doc)
    if gone != "all":
        if gone != "coupling":
            full["coupling"] = V.real("coupling", 0, 1)
        if gone != "lmin" and V.bool("with-lmin"):
            full["lmin"] = V.real("lmin", 0, 3)
        if gone != "lmax" and V.bool("with-lmax"):
            full["lmax"] = V.real("lmax", 3, 9)
    part = {} if gone == "all" else {k: v for k, v in full.items() if k != gone}
    a, b = fm.stiffness(M, mesh, **part), fm.stiffness(M, mesh, **full)
    V.check("the same stiffness", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    V.check("the same vectors", all_([same(vals(x), vals(y)) for x, y in zip(a[1:], b[1:])]))


@case("C31", "solve", names=["single", "bar"], bounds="a fiber of 2-3 nodes with any node heights: packing, tol, errtol, interp_size, perm and the stiffness options omitted in turn or all; 1 step; a linear solver that is exact or off by any small amount")
def solve(V, fm, names):
    P = pile(V, fm, V.pick("pile", names))
    doc = dict(packing=V.q(1), tol=1e-6, errtol=1e-6, interp_size=None, perm=None,
               lmin=None, lmax=None, coupling=V.q(1))
    gone = V.pick("omitted", ["packing", "tol", "errtol", "coupling", "others", "all"])
    drop = {"others": ["interp_size", "perm", "lmin", "lmax"], "all": list(doc)}.get(gone, [gone])
    full = dict(doc)
    if "packing" not in drop:
        full["packing"] = V.q(1000)
    if "coupling" not in drop:
        full["coupling"] = V.q("1/2")
    part = {k: v for k, v in full.items() if k not in drop}
    kw = dict(itermax=1, verbose=False)
    if gone == "errtol":
        e = V.real("error", 0, V.q("1/100000"))
        exact = V.spsolve
        kw["solve"] = lambda A, b: V.arr([y + e if i == 0 else y for i, y in enumerate(vals(exact(A, b)))])
    a = states(V, P, fm.solve(P.mat, P.mesh, **part, **kw))
    b = states(V, P, fm.solve(P.mat, P.mesh, **full, **kw))
    V.check("the same number of steps", a.steps == b.steps)
    if a.steps == b.steps:
        for k in ("K", "C", "u", "f", "F", "H", "mask"):
            x, y = getattr(a, k), getattr(b, k)
            V.check("the same " + k, all_([near(p, q) for r, s in zip(x, y) for p, q in zip(r, s)]))
        V.check("the same heights", all_([eq(p, q) for k in ("Z", "rl") for p, q in zip(getattr(a, k), getattr(b, k))]))


def near(p, q):
    if finite(p).margin() < 0 or finite(q).margin() < 0:
        return cond(finite(p).margin() < 0 and finite(q).margin() < 0)
    return eq(p, q)
