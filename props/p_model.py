"""C14-C17: stiffness and contact systems."""
import math

from .common import *

PI4 = "1/4"


def pi4(V):
    return V.q(math.pi) * V.q("1/4")


def flat_mat(V, fm, props, size=50):
    """props: list of dicts b, h, G, E (numbers or symbols); in-plane fibers of length 10."""
    rows = []
    for i, p in enumerate(props):
        rows.append([V.q(10), p["b"], p["h"], V.q(0), V.q(i), V.q(i), V.q(1), V.q(0), V.q(0), p["G"], p["E"]])
    return make_mat(V, fm, rows, V.q(size))


def props_of(V, i, E="finite", free=("b", "h", "G", "E")):
    g = lambda c, d: V.real("%s%d" % (c, i), 0, 100, lo_open=True) if c in free else V.q(d)  # noqa: E731
    return dict(b=g("b", "3/2"), h=g("h", "2/3"), G=g("G", "5"), E=INF if E == "inf" else g("E", "7"))


def chain_mesh(V, fm, nodes, links, n=None, s=None, z=None, gap0=False):
    """A valid mesh: nodes[f] nodes on fiber f at increasing abscissae (any), links between
    interior nodes given as ((f, k), (g, m))."""
    n = n or len(nodes)
    start = [sum(nodes[:f]) for f in range(len(nodes))]
    m = sum(nodes)
    fiber, S, beam, con = [], [], [], list(range(m))
    L = []
    for f, k in enumerate(nodes):
        x = V.real("s%d" % f, -20, 20)
        for j in range(k):
            fiber.append(f)
            if j:
                l = s[len(L)] if s is not None else V.real("l%d_%d" % (f, j), 0, 20, lo_open=not gap0)
                L.append(l)
                x = x + l
            S.append(x)
            beam.append(start[f] + (j + 1) % k)
    for (f, k), (g, j) in links:
        a, b = start[f] + k, start[g] + j
        con[a], con[b] = b, a
    zs = z if z is not None else [V.real("z%d" % i, -20, 20) for i in range(m)]
    df = V.frame({"fiber": fiber, "s": S, "x": [V.q(0)] * m, "y": [V.q(0)] * m, "z": zs, "beam": beam,
                  "constraint": con}, attrs=dict(n=n, size=V.q(50), periodic=True))
    mesh = fm.Mesh(df)
    beams = [(i, beam[i], fiber[i]) for i in range(m) if i < beam[i]]
    return mesh, dict(fiber=fiber, s=S, z=zs, beam=beam, con=con, beams=beams, L=L, m=m, nodes=nodes)


def element(V, p, l, c):
    """The documented element matrix."""
    b, h, G, E = p["b"], p["h"], p["G"], p["E"]
    half = V.q("1/2")
    if isinstance(E, float) and math.isinf(E):
        k0 = pi4(V) * G * b * h / l
        EG = V.num(INF)
    else:
        k0 = pi4(V) * G * b * h / l / (1 + G / E * (l / h) * (l / h))
        EG = k0 * E / G * h * h
    k1 = c * k0 * l * half
    k2, k3 = k0 * l * l / V.q(3) + EG, k0 * l * l / V.q(6) - EG
    return [[k0, k1, -k0, k1], [k1, k2, -k1, k3], [-k0, -k1, k0, -k1], [k1, k3, -k1, k2]]


def assembled(V, P, info, c, L=None):
    m = 2 * info["m"]
    K = [[V.q(0)] * m for _ in range(m)]
    for (i, j, f), l in zip(info["beams"], L or info["L"]):
        e = element(V, P[f], l, c)
        idx = [2 * i, 2 * i + 1, 2 * j, 2 * j + 1]
        for a in range(4):
            for b in range(4):
                K[idx[a]][idx[b]] = K[idx[a]][idx[b]] + e[a][b]
    return K


def zero(v):
    return all_([eq(x, 0) for x in v])


SHAPES = {"one-beam": ([2], []), "two-beams": ([3], []), "two-fibers": ([2, 2], []),
          "linked": ([3, 3], [((0, 1), (1, 1))]), "three": ([4, 3, 3], [((0, 1), (1, 1)), ((0, 2), (2, 1))])}


@case("C14", "finite", shapes=["one-beam", "two-beams", "two-fibers", "linked"], E="finite", bounds="meshes of 1-2 fibers and 1-4 beams, any beam lengths, any b, h, G, E > 0 per fiber, any coupling in [0, 1] or the default")
@case("C14", "infinite", shapes=["one-beam", "two-beams", "two-fibers", "linked"], E="inf", bounds="meshes of 1-2 fibers and 1-4 beams, E infinite on the first or on all fibers, any lengths, b, h, G")
@case("C14", "three-fibers", shapes=["three"], E="finite", ordered=True, bounds="3 fibers, 7 beams, linked, any lengths with the first the shortest and the last the longest, any b, h, G, E, coupling")
@case("C14", "three-fibers-any", shapes=["three"], E="finite", tier="thorough", bounds="3 fibers, 7 beams, linked, any lengths, b, h, G, E, coupling")
def assembly(V, fm, shapes, E, ordered=False):
    nodes, links = SHAPES[V.pick("shape", shapes)]
    n = len(nodes)
    allinf = E == "inf" and V.bool("all-infinite")
    P = [props_of(V, i, "inf" if E == "inf" and (i == 0 or allinf) else "finite") for i in range(n)]
    mat = flat_mat(V, fm, P)
    mesh, info = chain_mesh(V, fm, nodes, links)
    if ordered:
        L = info["L"]
        V.assume(all_([lt(L[0], l) for l in L[1:]] + [lt(l, L[-1]) for l in L[:-1]]))
    if V.bool("default-coupling"):
        c = V.q(1)
        K, u, F, du, dF = fm.stiffness(mat, mesh)
    else:
        c = V.real("coupling", 0, 1)
        K, u, F, du, dF = fm.stiffness(mat, mesh, coupling=c)
    D = dense(V, K)
    want = assembled(V, P, info, c)
    N = 2 * info["m"]
    V.check("K has two rows and columns per node", len(D) == N and all(len(r) == N for r in D))
    for i in range(N):
        V.check("K is the assembled element matrices", same(D[i], want[i]))
    for v in (u, F, du, dF):
        V.check("u, F, du, dF are zero vectors of matching size", all_(cond(len(vals(v)) == N), zero(vals(v))))
    V.observe("K", [x for r in D for x in r])


def energy(V, D, u):
    e = V.q(0)
    for i, r in enumerate(D):
        for j, k in enumerate(r):
            if getattr(k, "const", k) == 0:
                continue
            e = e + u[i] * k * u[j]
    return e


def shared(V, D, info):
    """K shared out beam by beam: entries (p, q, k, r) of
         [[p, q, -p, q], [q, k, -q, r], [-p, -q, p, -q], [q, r, -q, k]]
    whose energy is p (a - b + q/p (t + s))^2 + ((k + r)/2 - q^2/p) (t + s)^2
    + (k - r)/2 (t - s)^2; None if K is not a sum of such matrices."""
    out, rest = [], {}
    N = 2 * info["m"]
    S = [[V.q(0)] * N for _ in range(N)]
    for i, j, f in info["beams"]:
        p, q, r = -D[2 * i][2 * j], D[2 * i][2 * j + 1], D[2 * i + 1][2 * j + 1]
        k = D[2 * i + 1][2 * i + 1] - rest.get(i, V.q(0))
        rest[j] = k
        out.append((p, q, k, r))
        e = [[p, q, -p, q], [q, k, -q, r], [-p, -q, p, -q], [q, r, -q, k]]
        idx = [2 * i, 2 * i + 1, 2 * j, 2 * j + 1]
        for a in range(4):
            for b in range(4):
                S[idx[a]][idx[b]] = S[idx[a]][idx[b]] + e[a][b]
    for a in range(N):
        for b in range(N):
            if getattr(D[a][b] - S[a][b], "const", None) != 0:
                return None
    return out


def nonneg(V, label, D, info, u):
    """u.K.u >= 0: as a sum of squares read off K whose coefficients the solver shows to be
    non-negative; otherwise the solver decides u.K.u >= 0 itself."""
    half = V.q("1/2")
    beams = shared(V, D, info) if V.sym else None
    if beams is not None and all(
            V.proves(all_(gt(p, 0), ge((k - r) * half, 0))) and V.proves(ge((k + r) * half - q * q / p, 0))
            for p, q, k, r in beams):
        V.proved(label)
        return
    V.check(label, ge(energy(V, D, u), 0))


@case("C15", "energy", shapes=["one-beam", "two-beams"], free=("b", "h", "G", "E"), bounds="1 fiber, 1-2 beams, any lengths, b, h, G, E, coupling in [0, 1] and any vector u")
@case("C15", "linked", shapes=["two-fibers", "linked"], free=("h", "E"), bounds="2 fibers, 2-4 beams, any lengths, h, E, coupling in [0, 1] and any vector u")
@case("C15", "three-fibers", shapes=["three"], free=("h",), tier="thorough", bounds="3 fibers, 7 beams, any lengths, h, coupling in [0, 1] and any vector u")
def positive(V, fm, shapes, free):
    nodes, links = SHAPES[V.pick("shape", shapes)]
    P = [props_of(V, i, "finite", free) for i in range(len(nodes))]
    mat = flat_mat(V, fm, P)
    mesh, info = chain_mesh(V, fm, nodes, links)
    c = V.real("coupling", 0, 1)
    K = fm.stiffness(mat, mesh, coupling=c)[0]
    D = dense(V, K)
    structure(V, D, info)
    u = [V.real("u%d" % i, -10, 10) for i in range(2 * info["m"])]
    nonneg(V, "u.K.u >= 0", D, info, u)
    V.observe("K", [x for r in D for x in r])


@case("C15", "rescaled", bounds="2 fibers, 3 beams, any true lengths >= 0, lmin and lmax given (several values), coupling in {0, 1/2, 99/100, 1}, any vector u")
def positive_rescaled(V, fm):
    P = [props_of(V, i, "finite", ()) for i in range(2)]
    mat = flat_mat(V, fm, P)
    mesh, info = chain_mesh(V, fm, [3, 2], [], gap0=True)
    c = V.q(V.pick("coupling", ["0", "1/2", "99/100", "1"]))
    lo, hi = V.pick("bounds", [("1/2", "3"), ("1", "1"), ("1/100", "20")])
    D = dense(V, fm.stiffness(mat, mesh, lmin=V.q(lo), lmax=V.q(hi), coupling=c)[0])
    structure(V, D, info)
    u = [V.real("u%d" % i, -10, 10) for i in range(2 * info["m"])]
    nonneg(V, "u.K.u >= 0", D, info, u)


def structure(V, D, info):
    N = 2 * info["m"]
    fib = info["fiber"]
    V.check("symmetric", all_([eq(D[i][j], D[j][i]) for i in range(N) for j in range(i)]))
    for f in range(len(info["nodes"])):
        t = [V.q(1 if i % 2 == 0 and fib[i // 2] == f else 0) for i in range(N)]
        V.check("translating one fiber costs nothing", zero([dot(V, r, t) for r in D]))
    V.check("no coupling between different fibers",
            all_([eq(D[i][j], 0) for i in range(N) for j in range(N) if fib[i // 2] != fib[j // 2]]))


# ---------------------------------------------------------------------------- C16
@case("C16", "bounds", bounds="2 fibers, 3 beams of any true lengths >= 0, any lmin and/or lmax > 0 (lmin <= lmax), or none")
def rescale(V, fm):
    P = [dict(b=V.q(1), h=V.q(1), G=V.q(1), E=INF) for i in range(2)]
    mat = flat_mat(V, fm, P)
    kind = V.pick("given", ["none", "lmin", "lmax", "both"])
    mesh, info = chain_mesh(V, fm, [3, 2], [], gap0=kind in ("lmin", "both"))
    L = info["L"]
    kw = {}
    if kind in ("lmin", "both"):
        kw["lmin"] = V.real("lmin", 0, 20, lo_open=True)
    if kind in ("lmax", "both"):
        kw["lmax"] = V.real("lmax", 0, 20, lo_open=True)
    small, big = V.min(L), V.max(L)
    lo, hi = kw.get("lmin", small), kw.get("lmax", big)
    V.assume(le(lo, hi))
    K = fm.stiffness(mat, mesh, **kw)[0]
    D = dense(V, K)
    R = [pi4(V) / (-D[2 * j][2 * i]) for i, j, f in info["beams"]]
    rescaled(V, kind, L, R, lo, hi, small, big)


def rescaled(V, kind, L, R, lo, hi, small, big):
    if kind == "none":
        V.check("without bounds the true lengths are used", same(R, L))
        return
    ext = [V.min([small, lo]), V.max([big, hi])]
    for l, r in zip(L, R):
        V.check("rescaled length within [lmin, lmax]", all_(le(lo, r), le(r, hi)))
        if V.sym or float(ext[1] - ext[0]) > 1e-6:
            V.check("a length at the lower extreme gets lmin", implies(eq(l, ext[0]), any_(eq(r, lo), eq(ext[0], ext[1]))))
            V.check("a length at the upper extreme gets lmax", implies(eq(l, ext[1]), any_(eq(r, hi), eq(ext[0], ext[1]))))
    for i in range(len(L)):
        for j in range(len(L)):
            if i != j:
                V.check("order kept, and equal lengths stay equal", implies(le(L[i], L[j]), le(R[i], R[j])))
    V.observe("rescaled", R)


@case("C16", "model", bounds="1 fiber, 2 beams of any lengths, lmin/lmax given: K is the element model at the rescaled lengths")
def rescaled_model(V, fm):
    P = [props_of(V, 0, "finite", ())]
    mat = flat_mat(V, fm, P)
    mesh, info = chain_mesh(V, fm, [3], [], gap0=True)
    lo, hi = V.pick("bounds", [("1/2", "3"), ("1", "1"), ("1/100", "20")])
    D = dense(V, fm.stiffness(mat, mesh, lmin=V.q(lo), lmax=V.q(hi))[0])
    L = [2 * D[2 * j + 1][2 * i] / (-D[2 * j][2 * i]) for i, j, f in info["beams"]]
    want = assembled(V, P, info, V.q(1), L)
    for i in range(2 * info["m"]):
        V.check("K is the model at the rescaled lengths", same(D[i], want[i]))
    small, big = V.min(info["L"]), V.max(info["L"])
    rescaled(V, "both", info["L"], L, V.q(lo), V.q(hi), small, big)


@case("C16", "same-length", bounds="4 beams on 2 fibers of different materials, two of them of the same length: same rescaled length, any lmin")
def same_length(V, fm):
    P = [dict(b=V.q(1), h=V.q(1), G=V.q(1), E=INF), dict(b=V.q(2), h=V.q(3), G=V.q(5), E=INF)]
    mat = flat_mat(V, fm, P)
    l0, l1, l2 = V.real("a", 0, 20), V.real("b", 0, 20), V.real("c", 0, 20)
    mesh, info = chain_mesh(V, fm, [3, 3], [], s=[l0, l1, l2, l0])
    lo = V.real("lmin", 0, 20, lo_open=True)
    V.assume(le(lo, V.max([l0, l1, l2])))
    D = dense(V, fm.stiffness(mat, mesh, lmin=lo)[0])
    k = [V.q(1), V.q(1), V.q(30), V.q(30)]
    R = [pi4(V) * q / (-D[2 * j][2 * i]) for q, (i, j, f) in zip(k, info["beams"])]
    V.check("the rescaled length depends on the true length only", eq(R[0], R[3]))
    V.observe("R", R)


# ---------------------------------------------------------------------------- C17
LINKS = {
    "ends": ([2, 2], []),
    "one": ([3, 3], [((0, 1), (1, 1))]),
    "chain": ([3, 4, 3], [((0, 1), (1, 1)), ((1, 2), (2, 1))]),
    "two": ([4, 3, 3], [((0, 1), (1, 1)), ((0, 2), (2, 1))]),
}


def contact_spec(V, info, h, u, Z):
    half = V.q("1/2")
    out = []
    pos = [z + u[2 * i] for i, z in enumerate(info["z"])]
    for i in range(info["m"]):
        hi = h[info["fiber"][i]]
        out += [ge(pos[i], hi * half), le(pos[i], Z - hi * half)]
        j = info["con"][i]
        if i < j:
            hj = h[info["fiber"][j]]
            out.append(ge(pos[j] - pos[i], (hi + hj) * half))
    return all_(out)


@case("C17", "all", layouts=["ends", "one", "chain", "two"], bounds="meshes of 2-3 fibers with 0-2 connections, any node heights, any thicknesses, any displacement of nodes and rotations, any displacement of the plate")
def contacts(V, fm, layouts):
    nodes, links = LINKS[V.pick("layout", layouts)]
    n = len(nodes)
    h = [V.real("h%d" % i, 0, 5, lo_open=True) for i in range(n)]
    mat = flat_mat(V, fm, [dict(b=V.q(1), h=h[i], G=V.q(1), E=V.q(1)) for i in range(n)])
    mesh, info = chain_mesh(V, fm, nodes, links, s=[V.q(1)] * 20)
    C, f, H, df, dH = fm.constraint(mat, mesh)
    D, H, dH = dense(V, C), vals(H), vals(dH)
    N, M = 2 * info["m"], len(H)
    V.check("one column per unknown, one bound per row", len(D) == M and all(len(r) == N for r in D) and len(dH) == M)
    V.check("f and df are zero vectors", all_([cond(len(vals(v)) == M) & zero(vals(v)) for v in (f, df)]))
    tops = [z + h[g] * V.q("1/2") for z, g in zip(info["z"], info["fiber"])]
    Z = V.max(tops)
    u = [V.real("u%d" % i, -30, 30) for i in range(N)]
    t = V.real("t", -10, 10)
    rows = [(r, x) for r, x in zip(D, H)]
    sys0 = all_([le(dot(V, r, u), x) for r, x in rows])
    spec0 = contact_spec(V, info, h, u, Z)
    V.check("C u <= H implies non-penetration", implies(sys0, spec0))
    V.check("non-penetration implies C u <= H", implies(spec0, sys0))
    sys1 = all_([le(dot(V, r, u), x + t * y) for (r, x), y in zip(rows, dH)])
    spec1 = contact_spec(V, info, h, u, Z + t)
    V.check("H + t dH is the system for the plate at Z + t", implies(sys1, spec1))
    V.check("H + t dH is the system for the plate at Z + t", implies(spec1, sys1))
    plates = sum(1 for i in range(info["m"]) if info["con"][i] >= i)
    V.check("dH is 1 on the plate rows and 0 elsewhere", all_(
        all_([any_(eq(y, 0), eq(y, 1)) for y in dH]), cond(sum(1 for y in dH if float(y) != 0) == plates)))
    V.check("rotations are unconstrained", all_([eq(r[k], 0) for r in D for k in range(1, N, 2)]))
    ends = sum(1 for i in range(info["m"]) if info["con"][i] == i)
    V.check("fiber-end nodes have no pair condition (bound +inf)",
            sum(1 for x in H if _isinf(x)) == ends and M == 3 * plates)
    V.check("mesh carries the thickness of the fiber of each node",
            "h" in mesh.columns and all_([eq(a, h[g]) for a, g in zip(vals(mesh["h"]), info["fiber"])]))
    V.observe("H", H)


def _isinf(x):
    s = getattr(x, "s", None)
    if hasattr(x, "zreal"):
        return s == INF
    return float(x) == INF
