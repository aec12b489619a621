"""C01, C03: random generation of fiber sets."""
import math

from .common import *

NAMES = dict(length="l", width="b", thickness="h", shear="G", tensile="E")


def params(V, theta=None, psi=None, tensile=None):
    p = {k: V.real(k, 0, 50, lo_open=True) for k in ("length", "width", "thickness", "shear", "tensile")}
    if tensile is not None:
        p["tensile"] = tensile
    p["size"] = V.real("size", 0, 100, lo_open=True)
    p["theta"] = V.real("theta", 0, V.q("63/20")) if theta is None else theta
    p["psi"] = V.real("psi", 0, V.q("63/20")) if psi is None else psi
    return p


def table(V, mat, n, p):
    """Row count, labels, attributes and constant columns."""
    V.check("n rows", len(mat) == n)
    V.check("labels 0..n-1", [int(i) for i in mat.index] == list(range(n)))
    V.check("columns", all(c in mat.columns for c in MATC))
    for k, c in NAMES.items():
        V.check("column %s is the requested %s" % (c, k), all_([eq(v, p[k]) for v in vals(mat[c])]))
    V.check("attribute n", eq(mat.attrs["n"], n))
    V.check("attribute size", eq(mat.attrs["size"], p["size"]))


@case("C01", "table", n=2, bounds="n = 2; all real parameters; every draw")
@case("C01", "table3", n=3, tier="thorough", bounds="n = 3; all real parameters; every draw")
def mat_table_any_draw(V, fm, n):
    V.stub_random()
    p = params(V)
    pos = V.bool("positional")
    seed = V.symint("seed", 0, 5)
    if pos:
        mat = fm.Mat(n, p["length"], p["width"], p["thickness"], p["size"], p["theta"], p["psi"],
                     p["shear"], p["tensile"], seed)
    else:
        mat = fm.Mat(n=n, seed=seed, unused=1, **p)
    table(V, mat, n, p)
    half = p["size"] * V.q("1/2")
    for c in "xyz":
        V.check("%s within the box" % c, all_([all_(le(-half, v), le(v, half)) for v in vals(mat[c])]))
    z = vals(mat["z"])
    V.check("z in increasing order", all_([le(a, b) for a, b in zip(z, z[1:])]))
    for r in range(n):
        u, v, w = (vals(mat[c])[r] for c in "uvw")
        V.check("unit direction", eq(u * u + v * v + w * w, 1))
    V.observe("xyz", [vals(mat[c]) for c in "xyz"])


@case("C01", "small", bounds="n = 0 or 1; finite or infinite tensile modulus; psi = 0 or theta = 0; every draw")
def mat_small(V, fm):
    V.stub_random()
    n = V.pick("n", [0, 1])
    E = V.pick("E", [None, INF])
    z = V.pick("zero", ["psi", "theta"])
    p = params(V, tensile=E, **{z: V.q(0)})
    mat = fm.Mat(n, **p)
    table(V, mat, n, p)
    if n:
        u, v, w = (vals(mat[c])[0] for c in "uvw")
        V.check("psi = 0: in-plane, theta = 0: no lateral component", eq(w if z == "psi" else v, 0))


@case("C01", "law", n=2, bounds="n = 2; all real parameters; all draws equal to one arbitrary t in [0,1)")
def mat_law(V, fm, n):
    """A uniform draw t gives x, y, z = +-(t - 1/2) size and the angles +-(t - 1/2) theta, psi."""
    t = V.real("t", 0, 1, hi_open=True)
    V.stub_random(lambda key, pos: t)
    p = params(V)
    mat = fm.Mat(n, seed=V.pick("seed", [0, 7]), **p)
    d = t - V.q("1/2")
    for c in "xyz":
        V.check("%s uniform over the box" % c,
                all_([any_(eq(v, d * p["size"]), eq(v, -d * p["size"])) for v in vals(mat[c])]))
    cp, sp, cq, sq = (V.cos(d * p["theta"]), V.sin(d * p["theta"]), V.cos(d * p["psi"]), V.sin(d * p["psi"]))
    for i in range(n):
        u, v, w = (vals(mat[c])[i] for c in "uvw")
        V.check("direction: in-plane angle uniform in [-theta/2, theta/2], out-of-plane in [-psi/2, psi/2]",
                all_(eq(u, cp * cq), any_(eq(v, sp * cq), eq(v, -sp * cq)), any_(eq(w, sq), eq(w, -sq))))


@case("C01", "many", n=300, bounds="n = 300; any size; draws in decreasing, increasing or alternating order, scaled by an arbitrary t", opts=dict(branches=30000))
def mat_many(V, fm, n):
    """Labels and heights of a set beyond the range of small integers."""
    t = V.real("t", V.q("1/100"), 1)
    order = V.pick("order", ["down", "up", "zigzag"])
    rank = {"down": lambda k: n - 1 - k, "up": lambda k: k, "zigzag": lambda k: k if k % 2 else n - 1 - k}[order]
    V.stub_random(lambda key, pos: t * (V.q(rank(pos % n)) / n))
    p = params(V, theta=V.q(0), psi=V.q(0), tensile=INF)
    mat = fm.Mat(n, **p)
    table(V, mat, n, p)
    z = vals(mat["z"])
    V.check("z in increasing order", all_([le(a, b) for a, b in zip(z, z[1:])]))
    V.check("heights are the drawn ones", same(z, [(t * (V.q(sorted(rank(k) for k in range(n))[i]) / n) - V.q("1/2")) * p["size"] for i in range(n)]))


@case("C01", "defaults", bounds="default parameters; all draws equal to one arbitrary t")
def mat_defaults(V, fm):
    t = V.real("t", 0, 1, hi_open=True)
    V.stub_random(lambda key, pos: t)
    n = V.pick("n", [1, 2])
    mat = fm.Mat(n)
    p = dict(length=25, width=1, thickness=1, shear=1, tensile=INF, size=50)
    table(V, mat, n, p)
    d = t - V.q("1/2")
    a = d * V.num(math.pi)
    for i in range(n):
        V.check("default box", all_([any_(eq(vals(mat[c])[i], 50 * d), eq(vals(mat[c])[i], -50 * d)) for c in "xyz"]))
        u, v, w = (vals(mat[c])[i] for c in "uvw")
        V.check("default angles", all_(eq(u, V.cos(a)), any_(eq(v, V.sin(a)), eq(v, -V.sin(a))), eq(w, 0)))


@case("C01", "independence", n=2, bounds="n = 2; any parameters, any two histories of draws that differ in one draw")
def mat_independent(V, fm, n):
    """Each draw influences one coordinate of one fiber only (x, y, in-plane angle,
    out-of-plane angle), or the set of heights."""
    k = V.pick("position", list(range(5 * n)))
    draws = [V.real("d%d" % i, 0, 1, hi_open=True) for i in range(5 * n)]
    other = V.real("e", 0, 1, hi_open=True)
    p = params(V)
    feats = []
    for run in (0, 1):
        V.stub_random(lambda key, pos: (other if run and pos == k else draws[pos % (5 * n)]))
        mat = fm.Mat(n, **p)
        z = vals(mat["z"])
        s = z[0]
        for v in z[1:]:
            s = s + v
        feats.append(([[vals(mat["x"])[i]] for i in range(n)] + [[vals(mat["y"])[i]] for i in range(n)]
                      + [[vals(mat[c])[i] for c in "uvw"] for i in range(n)] + [[s]]))
    diff = [not_(same(a, b)) for a, b in zip(*feats)]
    for i in range(len(diff)):
        for j in range(i):
            V.check("one draw, one coordinate", not_(all_(diff[i], diff[j])))
    # heights: changing one draw leaves the heights of the others in the set
    for i in range(n):
        (u1, v1, w1), (u2, v2, w2) = feats[0][2 * n + i], feats[1][2 * n + i]
        V.check("the two angles are drawn separately", any_(eq(w1, w2), eq(u1 * v2, u2 * v1)))


# ---------------------------------------------------------------------------- C03
def same_mat(a, b):
    return all_([cond(len(a) == len(b))] + [same(vals(a[c]), vals(b[c])) for c in MATC])


def gen(V, fm, n, seed, p):
    return fm.Mat(n, seed=seed, **p)


@case("C03", "history", n=2, bounds="n = 1 or 2, psi = 0 or positive; any seed in [0, 2^32), any prior generator state, 0..2 earlier draws or an earlier Mat between the calls; any parameters")
@case("C03", "history3", n=3, tier="thorough", bounds="n = 3; as history")
def mat_history(V, fm, n):
    if V.sym:
        V.stub_random()
    n = V.pick("n", [n, 1])
    p = params(V, theta=V.pick("theta", [V.q(3), V.q(0)]), psi=V.pick("psi", [V.q(0), V.q(1)]),
               tensile=V.pick("E", [None, INF]))
    seed = V.symint("seed", 0, 2 ** 32 - 1)
    kind = V.pick("between", ["nothing", "draws", "mat", "reseed"])
    a = gen(V, fm, n, seed, p)
    if kind == "draws":
        V.rng().uniform(size=V.pick("count", [1, 2]))
    elif kind == "mat":
        gen(V, fm, V.pick("count", [0, 1]), seed + 1, p)
    elif kind == "reseed":
        V.rng().seed(None)
    b = gen(V, fm, n, seed, p)
    V.check("same seed, same table", same_mat(a, b))


@case("C03", "default-seed", bounds="n = 1 or 2; psi = 0 or 1; seed left at its default (0), given as 0 or numpy integer; earlier draws")
def mat_default_seed(V, fm):
    import numpy as np
    if V.sym:
        V.stub_random()
    V.rng().uniform(size=V.pick("count", [0, 1, 3]))
    n = V.pick("n", [2, 1])
    kw = V.pick("angles", [{}, dict(psi=1.0), dict(theta=0.5)])
    a = fm.Mat(n, **kw)
    V.rng().uniform(size=1)
    b = fm.Mat(n, **kw, seed=V.pick("seed", [0, np.int64(0)]))
    V.check("default seed is 0", same_mat(a, b))


@case("C03", "fresh", bounds="n = 2; seed=None twice")
def mat_fresh(V, fm):
    if V.sym:
        V.stub_random()
    p = params(V, theta=V.q(3), psi=V.q(0))
    if V.bool("seeded-before"):
        gen(V, fm, 1, 3, p)
    a = gen(V, fm, 2, None, p)
    if V.bool("seeded-between"):
        gen(V, fm, 1, 3, p)
    b = gen(V, fm, 2, None, p)
    V.possible("seed=None gives fresh tables", not_(same_mat(a, b)))


@case("C03", "seeds-matter", bounds="n = 2; any two different seeds")
def mat_seeds(V, fm):
    if V.sym:
        V.stub_random()
    p = params(V, theta=V.q(3), psi=V.q(0))
    s1 = V.symint("s1", 0, 2 ** 32 - 1)
    s2 = V.symint("s2", 0, 2 ** 32 - 1)
    V.assume(not_(eq(s1, s2)))
    a = gen(V, fm, 2, s1, p)
    b = gen(V, fm, 2, s2, p)
    V.possible("different seeds may differ", not_(same_mat(a, b)))
