"""C09-C11: stacking.  C12: meshing."""
from .common import *

# crossing bundles: every pair crosses; graphs are then chosen by `pairs`
BUNDLE = [("x", "0", "0"), ("y", "1/3", "1/5"), ("34", "-1/4", "1/2"), ("43", "1/5", "-2/3")]
# layouts with their own graphs: direction, x, y, length
LAYOUTS = {
    "chain": [("x", "0", "0", "4"), ("y", "1", "0", "3"), ("x", "1", "1", "1"), ("y", "5/4", "3/2", "2")],
    "apart": [("x", "0", "0", "2"), ("x", "0", "1", "2"), ("y", "0", "5/2", "2"), ("y", "3", "0", "2")],
    "fork": [("x", "0", "0", "4"), ("x", "0", "1", "4"), ("y", "1", "1/2", "3"), ("y", "-1", "1/2", "3")],
}
EDGES = {2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)], 4: [(i, j) for i in range(4) for j in range(i + 1, 4)]}


def subsets(n):
    E = EDGES[n]
    return [[e for k, e in enumerate(E) if b >> k & 1] for b in range(1 << len(E))]


def unit(V, k):
    from .p_net import direction
    return list(direction(V, k))


def bundle(V, n, h, b=None, z=None):
    rows = []
    for i in range(n):
        d, x, y = BUNDLE[i]
        rows.append([V.q(4), V.q(1) if b is None else b[i], h[i], V.q(x), V.q(y),
                     V.q(i) if z is None else z[i]] + unit(V, d) + [V.q(1), V.q(1)])
    return rows


def layout(V, name, n, h, z=None):
    rows = []
    for i in range(n):
        d, x, y, l = LAYOUTS[name][i]
        rows.append([V.q(l), V.q(1), h[i], V.q(x), V.q(y), V.q(i) if z is None else z[i]]
                    + unit(V, d) + [V.q(1), V.q(1)])
    return rows


def thick(V, n):
    return [V.real("h%d" % i, 0, 5, lo_open=True) for i in range(n)]


def edges_of(net):
    A, B = ints_of(net["A"]), ints_of(net["B"])
    return [(a, b) for a, b in zip(A, B) if a != b]


def network(V, fm, mat, n, edges, periodic=False):
    import numpy as np
    if edges is None:
        return fm.Net(mat, periodic=periodic)
    return fm.Net(mat, periodic=periodic, pairs=np.array([(i, i) for i in range(n)] + list(edges)))


def heights(V, z, h, edges, n):
    """C09"""
    half = V.q("1/2")
    for i in range(n):
        V.check("z >= h/2", ge(z[i], h[i] * half))
        below = [a for a, b in edges if b == i]
        for a in below:
            V.check("connected pair does not overlap", ge(z[i] - z[a], (h[i] + h[a]) * half))
        V.check("rests on the floor or on a connected fiber below",
                any_(eq(z[i], h[i] * half), [eq(z[i] - z[a], (h[i] + h[a]) * half) for a in below]))


def _sub(V, n, full):
    subs = subsets(n)
    k = V.int("graph", 0, len(subs) - 1)
    return subs[k]


@case("C09", "graphs-3", n=3, bounds="3 fibers, each of the 8 connection graphs, any thicknesses <= 5, any box size in [2, 20]")
@case("C09", "graphs-4", n=4, tier="thorough", bounds="4 fibers, each of the 64 connection graphs, any thicknesses <= 5, any box size in [2, 20]")
def graphs(V, fm, n):
    h = thick(V, n)
    mat = make_mat(V, fm, bundle(V, n, h), V.real("size", 2, 20))
    E = _sub(V, n, True)
    net = network(V, fm, mat, n, E)
    fm.Stack(mat, net)
    z = vals(mat["z"])
    heights(V, z, h, E, n)
    V.observe("z", z)


@case("C09", "few", bounds="1 or 2 fibers, connected or not, any thicknesses <= 5 and initial heights, periodic or not, network given or not")
def few(V, fm):
    n = V.pick("n", [1, 2])
    h = thick(V, n)
    mat = make_mat(V, fm, bundle(V, n, h, z=[V.real("z%d" % i, -9, 9) for i in range(n)]), V.q(20))
    net = None if V.bool("without") else network(V, fm, mat, n, None, V.bool("periodic"))
    E = [] if net is None else edges_of(net)
    st = fm.Stack(mat, net)
    z = vals(mat["z"])
    heights(V, z, h, E, n)
    for c, f in (("zA", "A"), ("zB", "B")):
        V.check("node heights are the stacked ones", all_([eq(x, z[i]) for x, i in zip(vals(st[c]), ints_of(st[f]))]))


@case("C09", "layouts", bounds="4 fibers in one of 3 layouts, full network, periodic or not, any thicknesses <= 5, any initial heights")
def layouts(V, fm):
    n = 4
    h = thick(V, n)
    mat = make_mat(V, fm, layout(V, V.pick("layout", list(LAYOUTS)), n, h,
                                 [V.real("z%d" % i, -5, 5) for i in range(n)]), V.q(8))
    net = network(V, fm, mat, n, None, V.bool("periodic"))
    E = edges_of(net)
    fm.Stack(mat, net)
    z = vals(mat["z"])
    heights(V, z, h, E, n)
    V.observe("z", z)


@case("C09", "lp", bounds="Stack.solve on 3 fibers of any thicknesses and widths, all 8 graphs: the returned heights")
def lp(V, fm):
    n = 3
    h = thick(V, n)
    b = [V.real("b%d" % i, 0, 5, lo_open=True) for i in range(n)]
    mat = make_mat(V, fm, bundle(V, n, h, b), V.q(20))
    E = _sub(V, n, True)
    res = fm.Stack.solve(mat, network(V, fm, mat, n, E))
    z = vals(res.x)
    V.check("one height per fiber", len(z) == n)
    heights(V, z, h, E, n)
    V.observe("z", z)


def kept(V, before, rows, st, z, t, n, mat):
    """C10: before = rows of the given network, st = the stack."""
    import numpy as np
    from .p_net import rows_of
    got = rows_of(st)
    keys = [r[:2] for r in got]
    V.check("row labels 0..m-1", [int(i) for i in st.index] == list(range(len(got))))
    want = {r[:2]: r for r in before}
    V.check("rows are rows of the network", all(k in want for k in keys) and len(set(keys)) == len(keys)
            and keys == sorted(keys))
    for k, r in want.items():
        if k[0] == k[1]:
            V.check("end rows kept", k in keys)
        elif t is None:
            V.check("without threshold every row is kept", k in keys)
        else:
            d = V.abs(z[k[1]] - z[k[0]])
            V.check("kept iff within the threshold", iff(k in keys, le(d, t)))
    for r in got:
        w = want.get(r[:2])
        if w is None:
            continue
        V.check("labels, abscissae, x and y as in the network",
                all_([eq(r[k], w[k]) for k in (2, 3, 4, 5, 7, 8)]))
        V.check("node heights are the stacked ones", all_(eq(r[6], z[r[0]]), eq(r[9], z[r[1]])))
    for c in MATC:
        if c != "z":
            V.check("mat unchanged but for z", same(vals(mat[c]), [r[MATC.index(c)] for r in rows]))
    V.check("mat unchanged but for z", list(mat.columns) == MATC and [int(i) for i in mat.index] == list(range(n)))


def threshold_of(V, kind):
    return None if kind == "none" else V.real("threshold", 0, 12)


@case("C10", "graphs-3", n=3, bounds="3 fibers, each of the 8 networks chosen by `pairs`, any thicknesses, threshold None or any value in [0, 12]")
@case("C10", "graphs-4", n=4, tier="thorough", bounds="4 fibers, each of the 64 networks chosen by `pairs`, any thicknesses, threshold None or any value in [0, 12]")
def restricted(V, fm, n):
    from .p_net import rows_of
    h = thick(V, n)
    rows = bundle(V, n, h)
    mat = make_mat(V, fm, rows, V.q(20))
    net = network(V, fm, mat, n, _sub(V, n, True))
    before = rows_of(net)
    t = threshold_of(V, V.pick("kind", ["none", "any"]))
    st = fm.Stack(mat, net) if t is None else fm.Stack(mat, net, threshold=t)
    z = vals(mat["z"])
    kept(V, before, rows, st, z, t, n, mat)
    V.observe("z", z)


@case("C10", "no-network", bounds="3 fibers stacked without any network (net omitted or None), any thicknesses, threshold None or any value")
def without(V, fm):
    from .p_net import rows_of
    n = 3
    h = thick(V, n)
    rows = bundle(V, n, h)
    mat = make_mat(V, fm, rows, V.q(20))
    ends = rows_of(network(V, fm, mat, n, []))
    t = threshold_of(V, V.pick("kind", ["none", "any"]))
    st = fm.Stack(mat, threshold=t) if V.bool("omitted") else fm.Stack(mat, None, threshold=t)
    kept(V, ends, rows, st, vals(mat["z"]), t, n, mat)


@case("C10", "layouts", bounds="4 fibers in one of 3 layouts, full network (periodic or not), any thicknesses and initial heights, threshold None or any value in [0, 12]")
def stack_layouts(V, fm):
    from .p_net import rows_of
    n = 4
    h = thick(V, n)
    rows = layout(V, V.pick("layout", list(LAYOUTS)), n, h, [V.real("z%d" % i, -5, 5) for i in range(n)])
    mat = make_mat(V, fm, rows, V.q(8))
    net = network(V, fm, mat, n, None, V.bool("periodic"))
    before = rows_of(net)
    t = threshold_of(V, V.pick("kind", ["none", "any"]))
    st = fm.Stack(mat, net, threshold=t)
    z = vals(mat["z"])
    kept(V, before, rows, st, z, t, n, mat)
    V.observe("z", z)


@case("C10", "filtered", bounds="3 fibers, the full network with any set of its connections removed by the user; any thicknesses and threshold")
def filtered(V, fm):
    from .p_net import rows_of
    n = 3
    h = thick(V, n)
    rows = bundle(V, n, h)
    mat = make_mat(V, fm, rows, V.q(20))
    full = fm.Net(mat, periodic=False)
    E = _sub(V, n, True)
    keep = [a == b or (a, b) in E for a, b in zip(ints_of(full["A"]), ints_of(full["B"]))]
    df = full[keep].reset_index(drop=True)
    df.attrs = dict(full.attrs)
    net = fm.Net(df)
    before = rows_of(net)
    t = threshold_of(V, V.pick("kind", ["none", "any"]))
    st = fm.Stack(mat, net, threshold=t)
    z = vals(mat["z"])
    kept(V, before, rows, st, z, t, n, mat)
    V.observe("z", z)


@case("C11", "graphs-4", bounds="4 fibers, 64 networks chosen by `pairs`, any thicknesses, lengths, widths and any vector z")
def system(V, fm):
    import math
    n = 4
    h = thick(V, n)
    b = [V.real("b%d" % i, 0, 5, lo_open=True) for i in range(n)]
    rows = bundle(V, n, h, b)
    mat = make_mat(V, fm, rows, V.q(20))
    E = _sub(V, n, True)
    net = network(V, fm, mat, n, E)
    encodes(V, fm, mat, net, rows, E, n)


@case("C11", "layouts", bounds="4 fibers in one of 3 layouts, periodic or not, any thicknesses, any vector z")
def system_layouts(V, fm):
    n = 4
    h = thick(V, n)
    rows = layout(V, V.pick("layout", list(LAYOUTS)), n, h)
    mat = make_mat(V, fm, rows, V.q(8))
    net = network(V, fm, mat, n, None, V.bool("periodic"))
    encodes(V, fm, mat, net, rows, edges_of(net), n)


def encodes(V, fm, mat, net, rows, E, n):
    import math
    C, f, H, hh = fm.Stack.constraint(mat, net)
    z = [V.real("z%d" % i, -30, 30) for i in range(n)]
    D = dense(V, C)
    H, f, hh = vals(H), vals(f), vals(hh)
    V.check("one bound per row of C, one column per fiber", len(D) == len(H) and all(len(r) == n for r in D))
    h = [r[2] for r in rows]
    half = V.q("1/2")
    sys_ = all_([le(dot(V, r, z), x) for r, x in zip(D, H)])
    spec = all_([ge(z[b] - z[a], (h[a] + h[b]) * half) for a, b in E])
    V.check("C z <= H implies non-penetration", implies(sys_, spec))
    V.check("non-penetration implies C z <= H", implies(spec, sys_))
    V.check("f is the vector of volumes", all_(cond(len(f) == n), [
        eq(f[i], V.q(math.pi) * V.q("1/4") * r[0] * r[1] * r[2]) for i, r in enumerate(rows)]))
    V.check("h is the vector of thicknesses", same(hh, h))
    V.observe("H", H)


# ---------------------------------------------------------------------------- C12
def raw_net(V, n, edges, half, tag=""):
    """A well-formed network table with any abscissae inside the fibers, any coordinates."""
    rows = []
    for a, b in sorted([(i, i) for i in range(n)] + list(edges)):
        k = "%d_%d" % (a, b)
        if a == b:
            s = [half[a], -half[a]]
        else:
            s = []
            for c, f in (("sA", a), ("sB", b)):
                x = V.real(c + k)
                V.assume(all_(lt(-half[f], x), lt(x, half[f])))
                s.append(x)
        rows.append((a, b) + tuple(s) + tuple(V.real(c + k, -100, 100) for c in ("xA", "yA", "zA", "xB", "yB", "zB")))
    return rows


@case("C12", "pairs-3", n=3, most=3, bounds="3 fibers of any lengths, each of the 8 networks, any abscissae inside the fibers (ties included), any node coordinates")
@case("C12", "pairs-4", n=4, most=4, tier="thorough", bounds="4 fibers of any lengths, each network of at most 4 connections, any abscissae, any coordinates")
def meshing(V, fm, n, most):
    half = [V.real("half%d" % i, 0, 20, lo_open=True) for i in range(n)]
    subs = [s for s in subsets(n) if len(s) <= most]
    E = subs[V.int("graph", 0, len(subs) - 1)]
    rows = raw_net(V, n, E, half)
    kind = V.pick("class", ["Net", "Stack"])
    per = V.bool("periodic")
    net = getattr(fm, kind)(net_frame(V, rows, dict(n=n, size=V.q(50), periodic=per)))
    mesh = fm.Mesh(net)
    discretised(V, fm, mesh, rows, n, dict(n=n, size=V.q(50), periodic=per))


@case("C12", "built", bounds="meshes of networks built by Net and Stack from 3 in-plane fibers, third fiber anywhere")
def meshing_built(V, fm):
    from .p_net import rows_of, three, SETS3
    mat = make_mat(V, fm, three(V, SETS3[0], ("4", "4", "4"), False), V.q(20))
    net = fm.Net(mat, periodic=False)
    if V.bool("stack"):
        net = fm.Stack(mat, net)
    rows = rows_of(net)
    mesh = fm.Mesh(net)
    discretised(V, fm, mesh, rows, 3, dict(n=3, size=V.q(20), periodic=False))


def discretised(V, fm, mesh, rows, n, attrs):
    m = len(mesh)
    V.check("two nodes per network row", m == 2 * len(rows))
    V.check("columns", list(mesh.columns)[:7] == MESHC and len(mesh.columns) == 7)
    V.check("labels 0..m-1", [int(i) for i in mesh.index] == list(range(m)))
    fiber, beam, con = (ints_of(mesh[c]) for c in ("fiber", "beam", "constraint"))
    V.check("integer labels", all(str(mesh[c].dtype).startswith("int") for c in ("fiber", "beam", "constraint")))
    s, x, y, z = (vals(mesh[c]) for c in "sxyz")
    V.check("sorted by fiber then abscissa", fiber == sorted(fiber))
    V.check("sorted by fiber then abscissa", all_([le(s[i], s[i + 1]) for i in range(m - 1) if fiber[i] == fiber[i + 1]]))
    for f in set(fiber):
        nodes = [i for i in range(m) if fiber[i] == f]
        V.check("beam is the cyclic successor along the fiber",
                [beam[i] for i in nodes] == nodes[1:] + nodes[:1])
    V.check("constraint is reciprocal", all(0 <= c < m and con[c] == i for i, c in enumerate(con)))
    # the nodes are those of the rows, linked two by two: node i with its partner is the
    # row (fiber of i, fiber of partner) and rows have distinct label pairs
    want = {r[:2]: r for r in rows}
    seen = {}
    for i in range(m):
        j = con[i]
        if j == i:
            continue
        a, b = fiber[i], fiber[j]
        if a > b:
            continue
        r = want.get((a, b))
        V.check("linked nodes are those of one row", r is not None and a != b and (a, b) not in seen)
        if r is None:
            continue
        seen[(a, b)] = 1
        V.check("nodes carry the abscissae and coordinates of their row", all_(
            eq(s[i], r[2]), eq(s[j], r[3]), eq(x[i], r[4]), eq(y[i], r[5]), eq(z[i], r[6]),
            eq(x[j], r[7]), eq(y[j], r[8]), eq(z[j], r[9])))
    V.check("every connection is linked", set(seen) == {k for k in want if k[0] != k[1]})
    for f in range(n):
        nodes = [i for i in range(m) if fiber[i] == f]
        r = want[(f, f)]
        V.check("end nodes", len(nodes) >= 2 and con[nodes[0]] == nodes[0] and con[nodes[-1]] == nodes[-1])
        V.check("only end nodes are linked to themselves", [i for i in nodes if con[i] == i] == [nodes[0], nodes[-1]])
        if len(nodes) >= 2:
            i, j = nodes[-1], nodes[0]
            V.check("end nodes carry the ends of their fiber", all_(
                eq(s[i], r[2]), eq(x[i], r[4]), eq(y[i], r[5]), eq(z[i], r[6]),
                eq(s[j], r[3]), eq(x[j], r[7]), eq(y[j], r[8]), eq(z[j], r[9])))
    V.check("attributes", all_(cond(mesh.attrs["n"] == attrs["n"]), eq(mesh.attrs["size"], attrs["size"]),
                               cond(mesh.attrs["periodic"] == attrs["periodic"])))
    V.check("passes Mesh.check", outcome(lambda: fm.Mesh.check(mesh))[0] == "ok")
    V.observe("s", s)
