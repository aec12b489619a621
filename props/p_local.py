"""C37: longer simulations extend shorter ones.  C38: fibers out of reach have no influence."""
from .common import *
from .p_defaults import near
from .p_meta import in_units
from .p_model import SHAPES, chain_mesh, flat_mat, props_of
from .p_net import direction, rows_of
from .p_render import provide, ref_points
from .p_solver import pile, states
from .p_stack import LAYOUTS, thick, unit


def prefix(V, a, b):
    """The states of a are the first of b."""
    V.check("no fewer steps", b.steps >= a.steps)
    n = min(a.steps, b.steps) + 1
    for c in ("u", "f", "F", "H"):
        V.check("the same " + c, all_([near(p, q) for r, s in zip(getattr(a, c)[:n], getattr(b, c)[:n]) for p, q in zip(r, s)]))
    V.check("the same plate heights", all_([eq(p, q) for p, q in zip(a.Z[:n], b.Z[:n])]))
    V.check("the same stretch factors", all_([eq(p, q) for p, q in zip(a.rl[:n], b.rl[:n])]))
    V.check("the same errors", all_([eq(p, q) for p, q in zip(a.err[:n], b.err[:n])]))
    V.check("the same active unknowns", all_([cond(bool(p) == bool(q)) for r, s in zip(a.mask[:n], b.mask[:n]) for p, q in zip(r, s)]))


@case("C37", "itermax", names=["single", "short", "lever"], steps=3, bounds="piles of 1-2 fibers of any node heights, coupling 1/2, itermax 0-2 against 3")
@case("C37", "itermax-pair", names=["pair"], steps=2, free="flat", bounds="a fiber across a flat one, any heights of its ends, itermax 0-1 against 2")
@case("C37", "itermax-deep", names=["single", "short", "lever", "pair", "thin", "double"], steps=5, tier="thorough", bounds="piles of 1-2 fibers of any node heights, itermax 0-4 against 5")
def longer(V, fm, names, steps, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    k = V.int("itermax", 0, steps - 1)
    own = dict(packing=V.q(10 ** 6), coupling=0.5, verbose=False)
    b = states(V, P, fm.solve(P.mat, P.mesh, itermax=steps, **own))
    a = states(V, P, fm.solve(P.mat, P.mesh, itermax=k, **own))
    prefix(V, a, b)
    V.check("stops at itermax only", a.steps == min(k, b.steps))


@case("C37", "packing", names=["single", "short"], steps=3, bounds="piles of 1-2 fibers of any node heights, any two packings in [1, 20], up to 3 steps")
@case("C37", "packing-deep", names=["single", "pair", "lever"], steps=4, tier="thorough", bounds="piles of 1-2 fibers of any node heights, any two packings in [1, 20], up to 4 steps")
def packed(V, fm, names, steps, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    p = V.real("packing", 1, 20)
    q = p + V.real("further", 0, 20)
    own = dict(itermax=steps, coupling=0.5, verbose=False)
    b = states(V, P, fm.solve(P.mat, P.mesh, packing=q, **own))
    a = states(V, P, fm.solve(P.mat, P.mesh, packing=p, **own))
    prefix(V, a, b)
    V.check("stops at the first step that reaches its packing", all_([lt(x, p) for x in a.rl[:a.steps]]))
    if a.steps < b.steps:
        V.check("stops at its packing only", ge(a.rl[a.steps], p))


@case("C37", "errtol", names=["single", "pair"], bounds="piles of 1-2 fibers of any node heights, a linear solver wrong by any error in its first value, any two errtol in [1e-6, 2] and 2 steps, or one and 1 or 2 steps")
def tolerant(V, fm, names):
    P = pile(V, fm, V.pick("pile", names), free="flat")
    e = V.real("error", 0, 2)
    p = V.real("errtol", V.q("1/1000000"), 1)
    q = p + V.real("further", 0, 1)
    exact = V.spsolve

    def wrong(A, b):
        return V.arr([y + e if i == 0 else y for i, y in enumerate(vals(exact(A, b)))])
    own = dict(packing=V.q(10 ** 6), coupling=0.5, verbose=False, solve=wrong)
    k = V.int("itermax", 1, 2)
    b = states(V, P, fm.solve(P.mat, P.mesh, errtol=p if k == 1 else q, itermax=2, **own))
    a = states(V, P, fm.solve(P.mat, P.mesh, errtol=p, itermax=k, **own))
    prefix(V, a, b)
    if k == 1:
        V.check("stops at itermax only", a.steps == min(k, b.steps))
    elif a.steps < b.steps:
        V.check("stops at its error only", gt(b.err[a.steps + 1], p))
    V.check("stops at the first error above errtol", all_([le(x, p) for x in a.err[:a.steps + 1]]))


@case("C37", "inexact", bounds="piles of 1-2 fibers of any node heights, a linear solver with a relative error of 1/1000, any errtol in [1e-6, 1], itermax 1 or 2 against 3")
def inexact(V, fm):
    P = pile(V, fm, V.pick("pile", ["single", "pair"]), free="flat")
    p = V.real("errtol", V.q("1/1000000"), 1)
    k = V.int("itermax", 1, 2)
    exact = V.spsolve
    own = dict(packing=V.q(10 ** 6), coupling=0.5, verbose=False, errtol=p,
               solve=lambda A, b: V.arr([y * V.q("1001/1000") for y in vals(exact(A, b))]))
    b = states(V, P, fm.solve(P.mat, P.mesh, itermax=3, **own))
    a = states(V, P, fm.solve(P.mat, P.mesh, itermax=k, **own))
    prefix(V, a, b)
    V.check("stops at itermax only", a.steps == min(k, b.steps))


@case("C37", "twice", names=["single", "pair"], bounds="piles of 1-2 fibers of any node heights, 2 steps, any packing: the same call twice, with equal tables, silent or not, before and after another simulation of the same mesh")
def twice(V, fm, names):
    P = pile(V, fm, V.pick("pile", names), free="flat")
    own = dict(packing=V.real("packing", 1, 20), itermax=2, coupling=0.5)
    fresh = fm.Mat(in_units(V, P.mat, V.q(1))), fm.Mesh(in_units(V, P.mesh, V.q(1)))
    b = states(V, P, fm.solve(*fresh, verbose=False, **own))
    fm.solve(P.mat, P.mesh, itermax=1, coupling=1.0, packing=V.q("11/10"), interp_size=3, verbose=False)
    a = states(V, P, fm.solve(P.mat, P.mesh, verbose=V.bool("verbose"), **own))
    V.check("the same number of steps", a.steps == b.steps)
    prefix(V, a, b)


# ---------------------------------------------------------------------------- C38
def alone(V, fm, mat, keep):
    """The fibers `keep` of a mat as a mat of their own."""
    cols = {c: [vals(mat[c])[i] for i in keep] for c in mat.columns}
    at = dict(mat.attrs)
    at["n"] = len(keep)
    return fm.Mat(V.frame(cols, attrs=at))


def place(n, k, first):
    """Labels the n fibers get when k others are put in front of them or behind."""
    return [i + (k if first else 0) for i in range(n)]


def among(V, label, few, all_rows, new):
    """few: rows of the network of some fibers alone; all_rows: rows of the whole network."""
    back = {j: i for i, j in enumerate(new)}
    got = [r for r in all_rows if r[0] in back and r[1] in back]
    V.check(label + ": same connections", [r[:2] for r in few] == [(back[r[0]], back[r[1]]) for r in got])
    if len(few) == len(got):
        V.check(label + ": same nodes", all_([eq(x, y) for r, s in zip(few, got) for x, y in zip(r[2:], s[2:])]))


@case("C38", "network", periodic=False, dirs=["34", "x"], bounds="2 fibers (crossing or parallel), one at any abscissa, and a third one, before or after them, of any length and abscissa; not periodic")
@case("C38", "periodic", periodic=True, dirs=["34"], bounds="2 crossing fibers of any position in a periodic box and a third one, before or after them, shorter or longer than them, of 3 positions")
def network(V, fm, periodic, dirs):
    d = ["x", V.pick("direction", dirs)]
    rows = []
    for i in range(2):
        pos = [V.real("x1", -5, 5), V.real("y1", -5, 5) if periodic else V.q("1/4")] if i else [V.q(0), V.q("1/3")]
        rows.append([V.q([4, 3][i]), V.q(1), V.q(1)] + pos + [V.q(i)] + list(direction(V, d[i])) + [V.q(1), V.q(1)])
    first = V.bool("first")
    if periodic:
        x, y, l = V.pick("other", [("0", "1", "2"), ("-4", "4", "9/2"), ("1", "-1", "9/2")])
        other = [V.q(l), V.q(1), V.q(1), V.q(x), V.q(y)]
    else:
        other = [V.real("l", 0, 8, lo_open=True), V.q(2), V.q("1/2"), V.real("x", -8, 8), V.q("1/5")]
    other += [V.q(3)] + list(direction(V, "43")) + [V.q(2), V.q(5)]
    whole = make_mat(V, fm, [other] + rows if first else rows + [other], V.q(10 if periodic else 20))
    new = place(2, 1, first)
    part = alone(V, fm, whole, new)
    a, b = fm.Net(part, periodic=periodic), fm.Net(whole, periodic=periodic)
    among(V, "Net", rows_of(a), rows_of(b), new)


# two piles out of reach of each other: direction, x, y, length
FAR = {
    "crossing": [("x", "0", "0", "4"), ("34", "1/4", "0", "3")],
    "three": [("x", "0", "0", "4"), ("y", "1", "0", "3"), ("34", "0", "1/4", "3")],
    "apart": [("x", "0", "0", "2"), ("x", "0", "1", "2")],
}
OTHER = [("y", "12", "3", "4"), ("43", "12", "3", "3")]


@case("C38", "stack", bounds="2-3 fibers and 2 others crossing far away, before or after them, any thicknesses <= 5, any threshold or none, periodic or not: stacked heights, stack and mesh")
def stacked(V, fm):
    g = FAR[V.pick("pile", list(FAR))]
    first = V.bool("first")
    rows = [[V.q(l), V.q(1), h, V.q(x), V.q(y), V.q(i)] + unit(V, d) + [V.q(1), V.q(1)]
            for i, ((d, x, y, l), h) in enumerate(zip(g, thick(V, len(g))))]
    more = [[V.q(l), V.q(2), V.real("k%d" % i, 0, 5, lo_open=True), V.q(x), V.q(y), V.q(5 + i)] + unit(V, d) + [V.q(3), V.q(2)]
            for i, (d, x, y, l) in enumerate(OTHER)]
    per = V.bool("periodic")
    t = V.real("threshold", 0, 12) if V.bool("with-threshold") else None
    whole = make_mat(V, fm, more + rows if first else rows + more, V.q(60))
    new = place(len(g), 2, first)
    part = alone(V, fm, whole, new)
    a, b = fm.Stack(part, fm.Net(part, periodic=per), threshold=t), fm.Stack(whole, fm.Net(whole, periodic=per), threshold=t)
    among(V, "Stack", rows_of(a), rows_of(b), new)
    z = vals(whole["z"])
    V.check("same heights", all_([eq(x, z[j]) for x, j in zip(vals(part["z"]), new)]))
    a, b = fm.Mesh(a), fm.Mesh(b)
    at = [i for i, f in enumerate(ints_of(b["fiber"])) if f in new]
    V.check("same number of nodes", len(at) == len(a))
    if len(at) == len(a):
        to = {j: i for i, j in enumerate(at)}
        V.check("same fibers", ints_of(a["fiber"]) == [new.index(ints_of(b["fiber"])[j]) for j in at])
        for c in ("beam", "constraint"):
            V.check("same " + c, ints_of(a[c]) == [to.get(ints_of(b[c])[j], -1) for j in at])
        for c in "sxyz":
            V.check("same " + c, all_([eq(x, vals(b[c])[j]) for x, j in zip(vals(a[c]), at)]))


@case("C38", "model", bounds="2 linked fibers and a third one before or after them, any lengths, sections, moduli and heights, any coupling, limits or none: stiffness and contacts of the two")
def model(V, fm):
    first = V.bool("first")
    nodes = [2, 3, 3] if first else [3, 3, 2]
    f = 1 if first else 0
    links = [((f, 1), (f + 1, 1))]
    new = place(2, 1, first)
    o = 0 if first else 2
    pr = [props_of(V, i, "finite", ("h", "G")) for i in range(3)]
    M = flat_mat(V, fm, pr)
    mesh, info = chain_mesh(V, fm, nodes, links, z=[V.q(i % 3 + (3 if i > 2 else 0)) for i in range(8)],
                            s=[V.real("l.other", 0, 1000, lo_open=True) if first == (i == 0) and (first or i == 4) else V.q([1, 2, 3, 2][i % 4]) for i in range(5)])
    at = [i for i, x in enumerate(info["fiber"]) if x != o]
    to = {j: i for i, j in enumerate(at)}
    cols = {c: [new.index(vals(mesh[c])[j]) if c == "fiber" else to[vals(mesh[c])[j]] if c in ("beam", "constraint") else vals(mesh[c])[j] for j in at] for c in mesh.columns}
    part = fm.Mesh(V.frame(cols, attrs=dict(mesh.attrs, n=2)))
    M2 = alone(V, fm, M, new)
    c = V.real("coupling", 0, 1)
    a, b = fm.stiffness(M2, part, coupling=c), fm.stiffness(M, mesh, coupling=c)
    A, B = dense(V, a[0]), dense(V, b[0])
    ix = [2 * j + e for j in at for e in (0, 1)]
    V.check("same stiffness", all_([eq(A[i][j], B[p][q]) for i, p in enumerate(ix) for j, q in enumerate(ix)]))
    V.check("no stiffness between fibers", all_([eq(B[p][q], 0) for p in ix for q in range(len(B)) if q not in ix]))
    a, b = fm.constraint(M2, part), fm.constraint(M, mesh)
    A, B = dense(V, a[0]), dense(V, b[0])
    rows = [r for r in range(len(B)) if any(bool(B[r // 3 * 3][q] != 0) for q in ix)]  # by contact: floor, pair, plate
    V.check("same number of contacts", len(rows) == len(A))
    if len(rows) == len(A):
        V.check("same contacts", all_([eq(A[i][j], B[r][q]) for i, r in enumerate(rows) for j, q in enumerate(ix)]))
        V.check("same bounds but for the plate", all_([near(vals(a[2])[i], vals(b[2])[r]) for i, r in enumerate(rows) if r % 3 != 2]))
        d = [vals(b[2])[r] - vals(a[2])[i] for i, r in enumerate(rows) if r % 3 == 2]
        V.check("one shift of the plate for all", all_([eq(x, d[0]) for x in d], ge(d[0], 0)))


@case("C38", "export", bounds="a fiber of any dimensions and centre and another one before or after it, 1 point of the cylinder: vtk_mat")
def export(V, fm):
    row = [V.real(c, 0, 9, lo_open=True) for c in "lbh"] + [V.real(c, -9, 9) for c in "xyz"] + list(direction(V, "34")) + [V.q(1), V.q(2)]
    other = [V.real(c + "'", 0, 9, lo_open=True) for c in "lbh"] + [V.real(c + "'", -9, 9) for c in "xyz"] + list(direction(V, "x")) + [V.q(3), V.q(4)]
    first = V.bool("first")
    whole = make_mat(V, fm, [other, row] if first else [row, other], V.q(20))
    part = alone(V, fm, whole, [int(first)])
    pts = ref_points(V, 1)
    provide(V, pts)
    a, b = fm.vtk_mat(part, verbose=False), fm.vtk_mat(whole, verbose=False)
    p, q = vals(a.points), vals(b.points)
    n = len(p)
    V.check("twice the points", len(q) == 2 * n)
    q = q[n:] if first else q[:n]
    V.check("the same points", same(p, q))
    for c in sorted(a.array_names):
        x, y = vals(a[c]), vals(b[c])
        k = len(x)
        y = y[k:] if first else y[:k]
        if c != "fiber" and not c.lower().startswith("ind"):
            V.check("field " + c, same(x, y))
