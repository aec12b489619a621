"""C34: one common set of options for all the stages; each stage reads its own and ignores the others."""
from .common import *
from .p_defaults import frames, near
from .p_model import SHAPES, chain_mesh, flat_mat, props_of
from .p_render import provide, ref_points
from .p_solver import pile, states
from .p_stack import bundle, layout, thick, LAYOUTS

OWN = {
    "Mat": ["n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed"],
    "Net": ["periodic"],
    "Stack": ["threshold"],
    "Mesh": [],
    "stiffness": ["lmin", "lmax", "coupling"],
    "constraint": [],
    "solve": ["packing", "itermax", "tol", "lmin", "lmax", "coupling", "interp_size", "verbose"],
    "fiber": ["length", "width", "thickness", "shear", "tensile"],
}
KINDS = {
    "ordinary": dict(n=7, theta=0.0, tensile=INF, seed=3, periodic=True, itermax=2, verbose=False, interp_size=5),
    "absent": dict(n=0, theta=0.0, tensile=INF, seed=None, periodic=False, itermax=1, verbose=False, interp_size=None),
}


def common(V, stages, kinds=("ordinary", "absent")):
    """The options of the notebooks: those of no stage in `stages` hold other values, any number where a number is due."""
    kind = V.pick("others", list(kinds))
    o = dict(KINDS[kind])
    for k in ("length", "width", "thickness", "size", "shear", "packing", "tol", "coupling"):
        o[k] = V.real("other.%s" % k, 0, 100, lo_open=True)
    for k in ("threshold", "lmin", "lmax"):
        o[k] = None if kind == "absent" else V.real("other.%s" % k, 0, 100)
    return {k: x for k, x in o.items() if not any(k in OWN[s] for s in stages)}


@case("C34", "mat", bounds="2 fibers of any positive dimensions and moduli in any box, every draw of one generator state, any values of the options of other stages")
def mat(V, fm):
    own = {k: V.real(k, 0, 50, lo_open=True) for k in ("length", "width", "thickness", "size", "shear")}
    own.update(n=2, theta=0.0, tensile=INF if V.bool("inextensible") else V.real("tensile", 0, 50, lo_open=True), seed=1)
    other = common(V, ["Mat"])
    V.stub_random()
    a, b = fm.Mat(**own, **other), fm.Mat(**own)
    for c in ("l", "b", "h", "G", "E"):
        V.check("Mat column " + c, same(vals(a[c]), vals(b[c])))
    V.check("Mat attributes", attrs_equal(a, b))


@case("C34", "draws", bounds="0 or 3 fibers drawn by the real generator from 2 seeds, theta pi or 0, any values of the options of other stages")
def draws(V, fm):
    import numpy as np
    own = dict(n=V.pick("n", [0, 3]), length=V.q(25), width=V.q(1), thickness=V.q(1), size=V.q(50), shear=V.q(1), tensile=INF,
               theta=V.pick("theta", [np.pi, 0.0]), seed=V.pick("seed", [0, 1234]))
    frames(V, "Mat", fm.Mat(**own, **common(V, ["Mat"])), fm.Mat(**own))


def attrs_equal(a, b):
    x, y = dict(a.attrs), dict(b.attrs)
    return all_(cond(set(x) == set(y)), [eq(x[k], y[k]) for k in sorted(x) if k in y])


@case("C34", "network", bounds="2 crossing, touching or separate fibers of any thicknesses <= 5, periodic or not, with any threshold or without, any values of the options of other stages: Net, Stack, Stack.constraint and Mesh")
def network(V, fm):
    h = thick(V, 2)
    rows = bundle(V, 2, h)
    if V.bool("border"):
        rows[1][3] = V.q("19/2")
    one = lambda: make_mat(V, fm, [list(r) for r in rows], V.q(20))  # noqa: E731
    A, B = one(), one()
    per = V.bool("periodic")
    t = V.real("threshold", 0, 20) if V.bool("with-threshold") else None
    o = common(V, ["Net", "Stack"])
    na, nb = fm.Net(A, periodic=per, threshold=t, **o), fm.Net(B, periodic=per)
    frames(V, "Net", na, nb)
    for x, y in zip(fm.Stack.constraint(A, na, periodic=not per, threshold=t, **o), fm.Stack.constraint(B, nb)):
        x, y = (z.toarray() if hasattr(z, "toarray") else z for z in (x, y))
        V.check("Stack.constraint", same(vals(x), vals(y)))
    sa, sb = fm.Stack(A, na, periodic=not per, threshold=t, **o), fm.Stack(B, nb, threshold=t)
    frames(V, "Stack", sa, sb)
    frames(V, "stacked fibers", A, B)
    ma, mb = fm.Mesh(sa, periodic=not per, threshold=t, **o), fm.Mesh(sb)
    frames(V, "Mesh", ma, mb)


@case("C34", "layouts", bounds="4 fibers in one of 3 layouts of any thicknesses <= 5, periodic or not, any values of the options of other stages: Net, Stack and Mesh")
def layouts(V, fm):
    rows = layout(V, V.pick("layout", list(LAYOUTS)), 4, thick(V, 4))
    one = lambda: make_mat(V, fm, [list(r) for r in rows], V.q(8))  # noqa: E731
    A, B = one(), one()
    per = V.bool("periodic")
    o = common(V, ["Net", "Stack"])
    na, nb = fm.Net(A, periodic=per, **o), fm.Net(B, periodic=per)
    frames(V, "Net", na, nb)
    sa, sb = fm.Stack(A, na, **o), fm.Stack(B, nb)
    frames(V, "Stack", sa, sb)
    frames(V, "Mesh", fm.Mesh(sa, **o), fm.Mesh(sb))


@case("C34", "model", bounds="a fiber of 2 beams or 2 linked fibers of any lengths, sections and moduli, any lmin or lmax (one fiber) and coupling, any node heights (one fiber, no limit), any values of the options of other stages: stiffness and constraint")
def model(V, fm):
    nodes, links = V.pick("shape", [SHAPES["two-beams"], ([3, 3], [((0, 1), (1, 1))])])
    M = flat_mat(V, fm, [props_of(V, i, "finite", ("h", "G")) for i in range(len(nodes))])
    m = sum(nodes)
    lim = V.pick("limits", ["none", "lmin", "lmax"]) if len(nodes) == 1 else "none"
    z = [V.real("z%d" % i, -20, 20) for i in range(m)] if len(nodes) == 1 and lim == "none" else [V.q(i % 3 + (3 if i > 2 else 0)) for i in range(m)]
    mesh, info = chain_mesh(V, fm, nodes, links, z=z)
    own = dict(lmin=None, lmax=None, coupling=V.real("coupling", 0, 1))
    if lim != "none":
        own[lim] = V.real(lim, 0, 9)
    o = common(V, ["stiffness"])
    a, b = fm.stiffness(M, mesh, **own, **o), fm.stiffness(M, mesh, **own)
    V.check("the same stiffness", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    V.check("the same vectors", all_([same(vals(x), vals(y)) for x, y in zip(a[1:], b[1:])]))
    a, b = fm.constraint(M, mesh, **own, **o), fm.constraint(M, mesh)
    V.check("the same contacts", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    V.check("the same contact vectors", all_([same(vals(x), vals(y)) for x, y in zip(a[1:], b[1:])]))


@case("C34", "solve", names=["single", "bar"], steps=[1], bounds="1 fiber of 2-3 nodes at any heights, 1 step, any packing, three settings of lmin, coupling, interp_size and verbose, any values of the options of other stages")
@case("C34", "solve-deep", names=["single", "bar", "short", "pair", "lever"], steps=[0, 1, 2, 3], tier="thorough", bounds="piles of 1-2 fibers with any node heights, 0-3 steps, any packing, three settings of lmin, coupling, interp_size and verbose, any values of the options of other stages")
def solve(V, fm, names, steps):
    P = pile(V, fm, V.pick("pile", names))
    small, half = V.q("1/10"), V.q("1/2")
    k = V.pick("own", [dict(), dict(interp_size=3, lmin=small, verbose=True), dict(coupling=half, interp_size=2)])
    own = dict(dict(packing=V.real("packing", 1, 1000), itermax=V.pick("itermax", steps), tol=1e-6, verbose=False, lmin=None,
                    lmax=None, coupling=V.q(1), interp_size=None), **k)
    o = common(V, ["solve"])
    a = states(V, P, fm.solve(P.mat, P.mesh, **own, **o))
    b = states(V, P, fm.solve(P.mat, P.mesh, **own))
    K = fm.stiffness(P.mat, P.mesh, **{k: own[k] for k in OWN["stiffness"]})[0]
    V.check("lmin, lmax and coupling reach the stiffness", same([x for r in dense(V, K) for x in r], [x for r in a.K for x in r]))
    V.check("the same number of values", a.steps == b.steps)
    if a.steps == b.steps:
        for k in ("K", "C", "u", "f", "F", "H", "mask"):
            x, y = getattr(a, k), getattr(b, k)
            V.check("the same " + k, all_([near(p, q) for r, s in zip(x, y) for p, q in zip(r, s)]))
        V.check("the same heights", all_([eq(p, q) for k in ("Z", "rl") for p, q in zip(getattr(a, k), getattr(b, k))]))


@case("C34", "fiber", bounds="a fiber model of any positive dimensions and moduli along an axis, with an index or without, 2 points of the reference cylinder, any values of the options of other stages")
def fiber(V, fm):
    import numpy as np
    own = {k: V.real(k, 0, 50, lo_open=True) for k in ("length", "width", "thickness", "shear", "tensile")}
    if V.bool("along-y"):
        own.update(u=V.q(0), v=V.q(1), y=V.real("y", -5, 5))
    own["index"] = V.pick("index", [None, 0, 3])
    o = common(V, ["fiber"])
    pts, calls = ref_points(V, 2), []
    provide(V, pts, calls)
    a, b = fm.vtk_fiber(**own, **o), fm.vtk_fiber(**own)
    V.check("the same reference cylinder", len(calls) == 2 and calls[0] == calls[1])
    flat = lambda x: [y for y in np.asarray(x, dtype=object).flat]  # noqa: E731
    V.check("the same points", same(flat(a.points), flat(b.points)))
    V.check("the same fields", sorted(a.array_names) == sorted(b.array_names))
    for k in sorted(a.array_names):
        V.check("field " + k, same(flat(a[k]), flat(b[k])))


@case("C34", "settings", bounds="a Settings object with any positive dimensions, moduli, packing and heights limits given as **inputs to Mat, Net, Stack, Mesh, stiffness, constraint and vtk_fiber: 2 crossing fibers, theta 0")
def given(V, fm):
    import numpy as np
    from .p_settings import settings
    S = settings(V, fm)
    own = {k: V.real(k, 0, 50, lo_open=True) for k in ("length", "width", "thickness", "shear")}
    own.update(n=2, size=V.q(20), theta=0.0, tensile=INF if V.bool("inextensible") else V.real("tensile", 0, 50, lo_open=True), seed=1,
               periodic=V.bool("periodic"), threshold=V.real("threshold", 0, 20) if V.bool("with-threshold") else None,
               packing=V.real("packing", 1, 9), lmin=None, lmax=None, coupling=V.real("coupling", 0, 1))
    s = S(**own)
    V.stub_random()
    m, w = fm.Mat(**s), fm.Mat(**{k: own[k] for k in OWN["Mat"]})
    for c in ("l", "b", "h", "G", "E"):
        V.check("Mat column " + c, same(vals(m[c]), vals(w[c])))
    V.check("Mat attributes", attrs_equal(m, w))
    h = thick(V, 2)
    one = lambda: make_mat(V, fm, bundle(V, 2, h), V.q(20))  # noqa: E731
    A, B = one(), one()
    na, nb = fm.Net(A, **s), fm.Net(B, periodic=own["periodic"])
    frames(V, "Net", na, nb)
    sa, sb = fm.Stack(A, na, **s), fm.Stack(B, nb, threshold=own["threshold"])
    frames(V, "Stack", sa, sb)
    ma, mb = fm.Mesh(sa, **s), fm.Mesh(sb)
    frames(V, "Mesh", ma, mb)
    a, b = fm.stiffness(A, ma, **s), fm.stiffness(B, mb, coupling=own["coupling"])
    V.check("the same stiffness", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    a, b = fm.constraint(A, ma, **s), fm.constraint(B, mb)
    V.check("the same contacts", same([x for r in dense(V, a[0]) for x in r], [x for r in dense(V, b[0]) for x in r]))
    pts = ref_points(V, 1)
    provide(V, pts)
    a, b = fm.vtk_fiber(**s), fm.vtk_fiber(**{k: own[k] for k in OWN["fiber"]})
    flat = lambda x: [y for y in np.asarray(x, dtype=object).flat]  # noqa: E731
    V.check("the same fiber model", same(flat(a.points), flat(b.points)))
