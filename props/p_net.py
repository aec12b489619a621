"""C04-C07: connections of a network."""
from .common import *

# rational unit vectors of the half plane u >= 0
DIRS = {"x": ("1", "0"), "y": ("0", "1"), "-y": ("0", "-1"), "34": ("3/5", "4/5"),
        "43": ("4/5", "-3/5"), "512": ("5/13", "12/13")}


def direction(V, k):
    return tuple(V.q(c) for c in DIRS[k]) + (V.q(0),)


def fiber(V, l, pos, d, h=1):
    return [l, V.q(1), V.q(h)] + list(pos) + list(d) + [V.q(1), V.q(1)]


class F:
    """Reference view of a fiber: length, centre, direction."""

    def __init__(self, row):
        self.l, self.x, self.y, self.z = row[0], row[3], row[4], row[5]
        self.u, self.v, self.w = row[6:9]


def cross_params(a, b, dx=0, dy=0):
    """det and (sA, sB) times det of the crossing of a with b translated by (dx, dy)."""
    det = a.u * b.v - a.v * b.u
    rx, ry = b.x + dx - a.x, b.y + dy - a.y
    return det, rx * b.v - ry * b.u, rx * a.v - ry * a.u


def crosses(V, a, b, dx=0, dy=0):
    """Condition: the open segments a and b + (dx, dy) cross (directions of sign-definite det)."""
    det, na, nb = cross_params(a, b, dx, dy)
    la, lb = a.l * V.q("1/2"), b.l * V.q("1/2")
    if V.sym and getattr(det, "const", None) is not None or not V.sym:
        d = float(det)
        if abs(d) < 1e-9:
            return cond(False)
        na, nb = na / det, nb / det
        return all_(lt(-la, na), lt(na, la), lt(-lb, nb), lt(nb, lb))
    D = V.abs(det)
    return all_(lt(-la * D, na), lt(na, la * D), lt(-lb * D, nb), lt(nb, lb * D))


def rows_of(net):
    import numpy as np
    out = []
    cols = [vals(net[c]) for c in NETC]
    for r in zip(*cols):
        out.append((int(r[0]), int(r[1])) + tuple(r[2:]))
    return out


def canonical(V, fm, net, rows, fib, n, size, periodic):
    """C07"""
    m = len(rows)
    V.check("row labels 0..m-1", [int(i) for i in net.index] == list(range(m)))
    V.check("integer fiber labels", all(str(net[c].dtype).startswith("int") for c in "AB"))
    keys = [r[:2] for r in rows]
    V.check("rows sorted by (A, B), each pair once, A <= B",
            keys == sorted(set(keys)) and all(a <= b for a, b in keys))
    V.check("one end row per fiber", [k for k in keys if k[0] == k[1]] == [(i, i) for i in range(n)])
    V.check("attributes n, size, periodic", all_([cond(net.attrs["n"] == n), eq(net.attrs["size"], size),
                                                  cond(bool(net.attrs["periodic"]) == periodic)]))
    for r in rows:
        if r[0] == r[1]:
            h = fib[r[0]].l * V.q("1/2")
            V.check("end row carries the two ends", all_(eq(r[2], h), eq(r[3], -h)))
    V.check("passes Net.check", outcome(lambda: fm.Net.check(net))[0] == "ok")


def geometry(V, rows, fib, size, periodic, planar=True):
    """C04"""
    for A, B, sA, sB, xA, yA, zA, xB, yB, zB in rows:
        a, b = fib[A], fib[B]
        V.check("node A at centre + sA * direction",
                all_(eq(xA, a.x + sA * a.u), eq(yA, a.y + sA * a.v), eq(zA, a.z + sA * a.w)))
        V.check("node B at centre + sB * direction",
                all_(eq(xB, b.x + sB * b.u), eq(yB, b.y + sB * b.v), eq(zB, b.z + sB * b.w)))
        if A == B:
            continue
        half = V.q("1/2")
        V.check("nodes inside the fibers", all_(lt(sA, a.l * half), lt(-a.l * half, sA),
                                                lt(sB, b.l * half), lt(-b.l * half, sB)))
        rx, ry, rz = xB - xA, yB - yA, zB - zA
        shifts = [(0, 0)] if not periodic else [(i, j) for i in (0, -1, 1) for j in (0, -1, 1)]
        alts = []
        for i, j in shifts:
            px, py = (rx + i * size, ry + j * size) if periodic else (rx, ry)
            if planar:
                alts.append(all_(eq(px, 0), eq(py, 0)))
            else:
                alts.append(all_(eq(px * a.u + py * a.v + rz * a.w, 0), eq(px * b.u + py * b.v + rz * b.w, 0)))
        V.check("connecting segment perpendicular to both fibers" if not planar else "nodes coincide in projection",
                any_(alts))


def connectivity(V, rows, fib, size, periodic, pairs=None):
    """C05 / C06"""
    n = len(fib)
    got = {r[:2] for r in rows}
    for i in range(n):
        for j in range(i + 1, n):
            if pairs is not None and (i, j) not in pairs:
                V.check("unlisted pair not connected", (i, j) not in got)
                continue
            alts = [crosses(V, fib[i], fib[j])]
            if periodic:
                alts = [crosses(V, fib[i], fib[j], p * size, q * size) for p in (0, -1, 1) for q in (0, -1, 1)]
            V.check("connected iff the axes cross", iff((i, j) in got, any_(alts)))
    if periodic:
        for A, B, sA, sB, xA, yA, zA, xB, yB, zB in rows:
            if A != B:
                a, b = fib[A], fib[B]
                ok = []
                for p in (0, -1, 1):
                    for q in (0, -1, 1):
                        ok.append(all_(eq(xB + p * size, xA), eq(yB + q * size, yA),
                                       crosses(V, a, b, p * size, q * size)))
                V.check("the reported nodes are those of one crossing image", any_(ok))


def run(V, fm, what, rows_in, size, periodic, pairs=None, own=None):
    n = len(rows_in)
    # own: periodic attribute already carried by the set
    mat = make_mat(V, fm, rows_in, size, **({} if own is None else dict(periodic=own)))
    kw = {} if pairs is None else dict(pairs=pairs[0])
    net = fm.Net(mat, periodic=periodic, **kw) if not (periodic and V.bool("default-periodic")) else fm.Net(mat, **kw)
    fib = [F(r) for r in rows_in]
    rows = rows_of(net)
    V.check("labels in range", all(0 <= r[0] < n and 0 <= r[1] < n for r in rows))
    if what == "C04":
        geometry(V, rows, fib, size, periodic)
    elif what in ("C05", "C06"):
        connectivity(V, rows, fib, size, periodic, None if pairs is None else pairs[1])
    else:
        canonical(V, fm, net, rows, fib, n, size, periodic)
    V.observe("rows", [x for r in rows for x in r])
    return net


# ---------------------------------------------------------------------------- non periodic
ROTATIONS = [("0", "1"), ("3/5", "-4/5"), ("-12/13", "5/13"), ("24/25", "7/25"), ("-5/13", "-12/13"),
             ("999999/1000001", "2000/1000001")]


def planar_pair(V, order, free):
    """Two in-plane fibers: B is placed by the abscissae of the crossing point of the two
    supporting lines.  The relative angle is given, or free (|sin angle| >= 1/100)."""
    ua, va = V.unit2("dA")
    if free:
        ub, vb = V.unit2("dB")
        det = ua * vb - va * ub
        V.assume(any_(ge(det, V.q("1/100")), le(det, V.q("-1/100"))))
        c = ua * ub + va * vb
    else:
        c, t = (V.q(k) for k in V.pick("rotation", ROTATIONS))
        ub, vb = c * ua - t * va, t * ua + c * va
    lA, lB = V.real("lA", 0, 30, lo_open=True), V.real("lB", 0, 30, lo_open=True)
    sA, sB = V.real("sA", -40, 40), V.real("sB", -40, 40)
    x, y = V.real("xA", -5, 5), V.real("yA", -5, 5)
    zA, zB = V.real("zA", -5, 5), V.real("zB", -5, 5)
    z = V.q(0)
    xB, yB = x + sA * ua - sB * ub, y + sA * va - sB * vb
    if V.sym:
        # |c| <= 1, hence the squared distance of the centres sA^2 + sB^2 - 2 sA sB c is
        # between (sA - sB)^2 and (sA + sB)^2; and products of |s| < l/2
        P = sA * sA + sB * sB - 2 * sA * sB * c
        plus, minus = (sA + sB) * (sA + sB), (sA - sB) * (sA - sB)
        V.lemma(le(0, P))
        V.lemma(any_(all_(le(minus, P), le(P, plus)), all_(le(plus, P), le(P, minus))))
        M = (lA + lB) * (lA + lB) * V.q("1/4")
        inside = all_(lt(-lA, 2 * sA), lt(2 * sA, lA), lt(-lB, 2 * sB), lt(2 * sB, lB))
        V.lemma(implies(inside, all_(lt(plus, M), lt(minus, M))))
        V.lemma(all_(le(-500, xB), le(xB, 500), le(-500, yB), le(yB, 500)))
        if free:
            V.lemma(le(V.q("1/10000"), det * det))
    ra = fiber(V, lA, (x, y, zA), (ua, va, z))
    rb = fiber(V, lB, (xB, yB, zB), (ub, vb, z))
    half = V.q("1/2")
    if V.sym:
        spec = all_(lt(-lA * half, sA), lt(sA, lA * half), lt(-lB * half, sB), lt(sB, lB * half))
    else:
        spec = None
    return ([ra, rb] if order == 0 else [rb, ra]), spec, (sA, sB)


def planar(V, fm, what, free):
    order = V.pick("order", [0, 1])
    rows, spec, s = planar_pair(V, order, free)
    mat = make_mat(V, fm, rows, V.q(1000))
    net = fm.Net(mat, periodic=False)
    fib = [F(r) for r in rows]
    R = rows_of(net)
    V.check("labels in range", all(0 <= r[0] < 2 and 0 <= r[1] < 2 for r in R))
    if what == "C05":
        hit = (0, 1) in {r[:2] for r in R}
        V.check("connected iff the axes cross", iff(hit, spec if V.sym else crosses(V, fib[0], fib[1])))
    elif what == "C04":
        geometry(V, R, fib, None, False)
    else:
        canonical(V, fm, net, R, fib, 2, V.q(1000), False)
    V.observe("rows", [x for r in R for x in r])


for _w in ("C04", "C05", "C07"):
    case(_w, "planar-pair", what=_w, free=False,
         bounds="2 in-plane fibers, any centres, lengths <= 30, any unit direction of A, B turned from A by one of "
                "%d angles with rational cosine and sine; either label order, non periodic" % len(ROTATIONS))(planar)
    case(_w, "planar-pair-free", what=_w, free=True, tier="thorough",
         bounds="2 in-plane fibers, any real centres, lengths <= 30, any unit directions with |sin angle| >= 1/100, "
                "either label order, non periodic")(planar)

DIRS3 = [(("1", "0", "0"), ("0", "3/5", "4/5")), (("2/3", "1/3", "2/3"), ("2/7", "3/7", "-6/7")),
         (("3/5", "4/5", "0"), ("1/3", "2/3", "-2/3"))]


@case("C04", "spatial-pair", free=False, bounds="2 fibers in space with one of 3 pairs of rational directions, any centres, lengths <= 30, non periodic")
@case("C04", "spatial-pair-free", free=True, tier="thorough", bounds="2 fibers with any unit directions in space (|cos angle| <= 99/100), any centres, lengths <= 30, non periodic")
def spatial(V, fm, free):
    if free:
        d1 = V.unit3("dA")
        d2 = V.unit3("dB")
        c = d1[0] * d2[0] + d1[1] * d2[1] + d1[2] * d2[2]
        V.assume(all_(le(c, V.q("99/100")), le(V.q("-99/100"), c)))
    else:
        d1, d2 = (tuple(V.q(c) for c in d) for d in V.pick("dirs", DIRS3))
    rows = [fiber(V, V.real("l%d" % i, 0, 30, lo_open=True), [V.real("%s%d" % (k, i), -20, 20) for k in "xyz"], d)
            for i, d in enumerate((d1, d2))]
    net = fm.Net(make_mat(V, fm, rows, V.q(1000)), periodic=False)
    R = rows_of(net)
    geometry(V, R, [F(r) for r in rows], None, False, planar=False)
    V.observe("rows", [x for r in R for x in r])


@case("C05", "parallel", what="C05", bounds="2 or 3 parallel or antiparallel in-plane fibers (any common direction), any centres and lengths")
@case("C07", "parallel", what="C07", bounds="2 or 3 parallel or antiparallel in-plane fibers (any common direction), any centres and lengths")
def parallel(V, fm, what):
    u, v = V.unit2("d")
    n = V.pick("n", [2, 3]) if what == "C07" else 2
    rows = []
    for i in range(n):
        s = V.pick("sign%d" % i, [1, -1]) if i else 1
        rows.append(fiber(V, V.real("l%d" % i, 0, 30, lo_open=True),
                          [V.real("%s%d" % (k, i), -20, 20) for k in "xyz"], (u * s, v * s, V.q(0))))
    net = fm.Net(make_mat(V, fm, rows, V.q(1000)), periodic=False)
    R = rows_of(net)
    if what == "C05":
        V.check("parallel fibers are not connected", all(r[0] == r[1] for r in R))
    else:
        canonical(V, fm, net, R, [F(r) for r in rows], n, V.q(1000), False)


PLACES = [("0", "1/3"), ("-3/2", "1"), ("1/5", "-2"), ("2", "2"), ("5", "0")]


def three(V, dirs, lengths=None, free=True):
    rows = []
    for i, d in enumerate(dirs):
        l = V.real("l%d" % i, 0, 10, lo_open=True) if lengths is None else V.q(lengths[i])
        if i == 0:
            pos = [V.q(0), V.q(0), V.q(0)]
        elif i == 1 and not free:
            pos = [V.q(c) for c in V.pick("place", PLACES)] + [V.q(1)]
        else:
            pos = [V.real("x%d" % i, -10, 10), V.real("y%d" % i, -10, 10), V.q(i)]
        rows.append(fiber(V, l, pos, direction(V, d)))
    return rows


SETS3 = [("x", "y", "34"), ("43", "x", "512"), ("y", "34", "x")]


for _w in ("C04", "C05", "C07"):
    for _f in (False, True):
        def _three(V, fm, what, free):
            k = V.pick("dirs", [0, 1, 2])
            lengths = V.pick("lengths", [("4", "4", "4"), ("1", "7", "3")]) if what != "C07" else ("4", "3", "5")
            run(V, fm, what, three(V, SETS3[k], lengths, free), V.q(20), False)
        case(_w, "three-free" if _f else "three", what=_w, free=_f, tier="thorough" if _f else "quick",
             bounds="3 in-plane fibers, directions among rational unit vectors, given lengths; second fiber at "
                    + ("any centre" if _f else "one of five places") + ", third at any centre")(_three)


@case("C04", "pairs", what="C04", bounds="3 in-plane fibers, third anywhere along a line; two sets of `pairs` in several orders, either label first, repeated; both periodicities")
@case("C06", "pairs", what="C06", bounds="3 in-plane fibers in a periodic box, third anywhere along a line; every subset of the pairs given as `pairs` in several orders")
@case("C05", "pairs", what="C05", bounds="3 in-plane fibers, any centres of two of them; every subset of the pairs given as `pairs` in either order")
@case("C07", "pairs", what="C07", bounds="3 in-plane fibers; pairs = the (i, i) pairs and any subset of the others, in several orders, possibly repeated")
def with_pairs(V, fm, what):
    import numpy as np
    rows = three(V, SETS3[0], ("4", "4", "4"), False) if what not in ("C04", "C06") else [
        fiber(V, V.q("4"), (V.q(x), V.q(y), V.q(z)), direction(V, d)) for d, x, y, z in (("x", 0, 0, 0), ("y", "1/3", 1, 1))] + [
        fiber(V, V.q("4"), (V.real("x2", -10, 10), V.q("1/2"), V.q(2)), direction(V, "34"))]
    sub = V.pick("subset", [[(0, 1), (0, 2)], [(0, 1), (1, 2)], [(0, 2)]] if what in ("C04", "C06") else [[], [(0, 1)], [(0, 2)], [(1, 2)], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2), (1, 2)]])
    form = V.pick("form", ["plain", "swapped", "reversed"] + (["repeated"] if what in ("C07", "C04") else []))
    lst = [(i, i) for i in range(3)] + [(b, a) if form == "swapped" else (a, b) for a, b in sub]
    if form == "reversed":
        lst = lst[::-1]
    if form == "repeated":
        lst = lst + [(b, a) for a, b in lst]
    if what in ("C05", "C06") and V.bool("no-ends") and sub:
        lst = [p for p in lst if p[0] != p[1]]
    per = what == "C06" or what == "C04" and V.bool("periodic")
    run(V, fm, what, rows, V.q(20), per, (np.array(lst), set(sub)))


# ---------------------------------------------------------------------------- periodic
PERIODIC = [("x", "y"), ("34", "43"), ("y", "512"), ("34", "x")]


def periodic_pair(V, dirs, lengths, corner, free):
    """A at a given or free place, B anywhere in the box [-2, 2]^2."""
    size = V.q(4)
    rows = []
    for i, d in enumerate(dirs):
        if i == 0 and not free:
            pos = [V.q(c) for c in corner] + [V.q(0)]
        else:
            pos = [V.real("x%d" % i, -2, 2), V.real("y%d" % i, -2, 2), V.q(i)]
        rows.append(fiber(V, V.q(lengths[i]), pos, direction(V, d)))
    if V.pick("order", [0, 1]):
        rows = rows[::-1]
    return rows, size


CORNERS = [("0", "0"), ("9/5", "9/5"), ("-9/5", "9/5"), ("9/5", "-9/5"), ("-9/5", "-9/5"),
           ("9/5", "0"), ("0", "-9/5"), ("-9/5", "1/3"), ("1/7", "19/10")]


def _periodic(V, fm, what, dirs, lengths, corners, free=False):
    corner = V.pick("corner", corners) if not free else None
    rows, size = periodic_pair(V, dirs, lengths, corner, free)
    run(V, fm, what, rows, size, True)


for _what, _cs in (("C04", 2), ("C06", 9), ("C07", 2)):
    for _k, _d in enumerate(PERIODIC[:2] if _what != "C06" else PERIODIC):
        case(_what, "periodic-%d" % _k, what=_what, dirs=_d, lengths=("2", "3/2") if _k % 2 else ("1", "5/2"),
             corners=CORNERS if _what == "C06" and _k < 2 else CORNERS[1:4], tier="quick",
             bounds="2 in-plane fibers in a periodic box of size 4; directions %s, %s; lengths given; first fiber at "
                    "any of several places (corners, sides, centre), second anywhere in the box; both label orders" % _d)(_periodic)
    case(_what, "periodic-free", what=_what, dirs=PERIODIC[1], lengths=("1", "1"), corners=CORNERS, free=True, tier="thorough",
         bounds="2 in-plane fibers of length 1 anywhere in a periodic box of size 4; both label orders")(_periodic)


@case("C06", "lengths", bounds="2 perpendicular in-plane fibers near opposite corners, any lengths up to the box size 4, first fiber on any of 4 corners")
def periodic_lengths(V, fm):
    sx, sy = V.pick("cx", [1, -1]), V.pick("cy", [1, -1])
    l0, l1 = V.real("l0", 0, 4, lo_open=True), V.real("l1", 0, 4, lo_open=True)
    rows = [fiber(V, l0, (V.q("3/2") * sx, V.q("7/4") * sy, V.q(0)), direction(V, "x")),
            fiber(V, l1, (V.q("-7/4") * sx, V.q("-3/2") * sy, V.q(1)), direction(V, "y"))]
    run(V, fm, "C06", rows, V.q(4), True)


@case("C06", "box", bounds="2 perpendicular in-plane fibers of 3/4 of the box size near opposite corners, the first one anywhere along its direction, in a box of any size in [1/16, 64]")
@case("C04", "box", what="C04", bounds="2 perpendicular in-plane fibers of 3/4 of the box size near opposite corners, the first one anywhere along its direction, in a box of any size in [1/16, 64]")
def periodic_box(V, fm, what="C06"):
    size, a = V.real("size", V.q("1/16"), 64), V.real("a", V.q("-1/2"), V.q("1/2"))
    sx, sy = V.pick("cx", [1, -1]), V.pick("cy", [1, -1])
    l = V.q("3/4") * size
    rows = [fiber(V, l, (a * size, V.q("7/16") * sy * size, V.q(0)), direction(V, "x")),
            fiber(V, l, (V.q("-7/16") * sx * size, V.q("-3/8") * sy * size, V.q(1)), direction(V, "y"))]
    run(V, fm, what, rows if sx > 0 else rows[::-1], size, True)


@case("C06", "mixed", bounds="2 perpendicular fibers of length 7/2 in a periodic box of size 4, the first anywhere along its direction, and 4 fibers of length 1/4")
@case("C04", "mixed", what="C04", bounds="2 perpendicular fibers of length 7/2 in a periodic box of size 4, the first anywhere along its direction, and 4 fibers of length 1/4")
def periodic_mixed(V, fm, what="C06"):
    along = V.bool("along-x")
    a, b = V.real("a", -2, 2), V.q(V.pick("b", ["15/8", "-15/8"]))
    c = V.q(V.pick("c", ["7/4", "-7/4"]))
    long = [fiber(V, V.q("7/2"), (a, c, V.q(0)) if along else (c, a, V.q(0)), direction(V, "x" if along else "y")),
            fiber(V, V.q("7/2"), (b, V.q("1/8"), V.q(1)) if along else (V.q("1/8"), b, V.q(1)), direction(V, "y" if along else "x"))]
    short = [fiber(V, V.q("1/4"), (V.q(x), V.q(y), V.q(2)), direction(V, "34"))
             for x, y in (("-3/2", "-3/2"), ("3/2", "1"), ("1/2", "-1"), ("0", "3/2"))]
    rows = long + short if along else short[:1] + long[::-1] + short[1:]
    run(V, fm, what, rows, V.q(4), True)


@case("C07", "default", bounds="1 fiber anywhere in the periodic box, any direction and length up to the box")
@case("C04", "default", bounds="1 fiber anywhere in the periodic box, any direction and length up to the box", what="C04")
def single(V, fm, what="C07"):
    u, v = V.unit2("d")
    size = V.real("size", 1, 10)
    l = V.real("l", 0, 10, lo_open=True)
    V.assume(le(l, size))
    x, y = V.real("x", -5, 5), V.real("y", -5, 5)
    half = size * V.q("1/2")
    V.assume(all_(le(-half, x), le(x, half), le(-half, y), le(y, half)))
    rows = [fiber(V, l, (x, y, V.real("z", -5, 5)), (u, v, V.q(0)))]
    own = V.pick("own", [None, True, False]) if what == "C07" else None
    run(V, fm, what, rows, size, V.bool("periodic"), own=own)


@case("C07", "symbolic-order", bounds="3 in-plane fibers all crossing near the centre, any small displacement of their centres, any heights; both periodicities")
def order3(V, fm):
    rows = []
    for i, d in enumerate(SETS3[1]):
        e = [V.real("%s%d" % (c, i), V.q("-1/10"), V.q("1/10")) for c in "xy"] if i else [V.q(0), V.q(0)]
        rows.append(fiber(V, V.q(4), e + [V.real("z%d" % i, -5, 5)], direction(V, d)))
    run(V, fm, "C07", rows, V.q(20), V.bool("periodic"))
