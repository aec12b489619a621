"""C18-C21: the incremental packing solver on small piles.

Dimensions, moduli and abscissae are numbers, node heights are symbols: the stiffness and
contact matrices are then numbers, every path of the active-set loop is linear in the heights,
and the solver decides each check for all heights of the path."""
from fractions import Fraction

from .common import *

TOLC = "1/1000000"
# fiber thicknesses, node abscissae per fiber, links (lower, upper)
PILES = {
    "single": (["1"], [["-2", "1/2", "2"]], []),
    "pair": (["1", "1/2"], [["-2", "0", "2"], ["-1", "1/4", "1"]], [((0, 1), (1, 1))]),
    "thin": (["1/4", "2"], [["-2", "0", "2"], ["-1", "1/4", "1"]], [((0, 1), (1, 1))]),
    "bar": (["1"], [["-2", "2"]], []),
    "lever": (["1"], [["-2", "-3/2", "2"]], []),
    "slow": (["1"], [["-2", "-511/256", "2"]], []),
    "bars": (["1", "1/2", "1"], [["-2", "2"], ["-1", "1"], ["-2", "2"]], []),
    "short": (["1", "1/2"], [["-2", "2"], ["-1", "1"]], []),
    "trio": (["1", "1/2", "1"], [["-2", "0", "2"], ["-1", "0", "1"], ["-2", "-1", "1", "2"]],
             [((0, 1), (2, 1)), ((1, 1), (2, 2))]),
    "tower": (["1", "1/2", "1"], [["-2", "0", "2"], ["-1", "-1/2", "1/4", "1"], ["-2", "1", "2"]],
              [((0, 1), (1, 1)), ((1, 2), (2, 1))]),
    "double": (["1", "1/2"], [["-2", "-1", "1", "2"], ["-2", "-1", "1", "2"]], [((0, 1), (1, 1)), ((0, 2), (1, 2))]),
    "heap": (["1", "1/2", "3/4", "1"], [["-2", "-1", "1", "2"], ["-2", "0", "3/2", "2"], ["-3", "-1", "1/2", "2"], ["-2", "-1/2", "1", "3"]],
             [((0, 1), (1, 1)), ((0, 2), (2, 1)), ((1, 2), (3, 1)), ((2, 2), (3, 2))]),
}
GIVEN = ["3/8", "7/4", "5/8", "9/4", "1/2", "11/8", "2", "3/4", "13/8", "1/4", "19/8", "7/8"]
RANGE = 5


class Pile:
    pass


def pile(V, fm, name, free="all", inf=False, attrs=None, stress="1"):
    """A mat and a mesh of touching fibers.  free: which heights are symbols: 'all' node heights
    above their contacts, 'gaps' only one height per fiber (flat fibers)."""
    hs, S, links = PILES[name]
    h = [V.q(x) for x in hs]
    n = len(hs)
    P = Pile()
    rows = []
    for i in range(n):
        rows.append([V.q(S[i][-1]) - V.q(S[i][0]), V.q(1), h[i], V.q(0), V.q(i), V.q(0), V.q(1), V.q(0), V.q(0),
                     V.q(["1", "2", "1/2"][i % 3]) * V.q(stress), INF if inf and i == 0 else V.q(["2", "1", "3"][i % 3]) * V.q(stress)])
    P.mat = make_mat(V, fm, rows, V.q(50))
    start = [sum(len(s) for s in S[:f]) for f in range(n)]
    m = sum(len(s) for s in S)
    half = V.q("1/2")
    con, low = list(range(m)), {}
    for (f, k), (g, j) in links:
        a, b = start[f] + k, start[g] + j
        con[a], con[b] = b, a
        low[b] = a
    z, fiber, s, beam = [None] * m, [], [], []
    seated = set()
    if free in ("one", "near"):
        lo, hi = (0, RANGE) if free == "one" else (1, V.q("3/2"))
        some = V.pick("free", [sum(len(x) for x in S[:f]) + len(S[f]) - 1 for f in range(n)])
        up = lambda c, i: V.real("%s%d" % (c, i), lo, hi) if i == some else V.q(GIVEN[i % len(GIVEN)])  # noqa: E731
    else:
        up = lambda c, i: V.real("%s%d" % (c, i), 0, RANGE)  # noqa: E731
    for f in range(n):
        lower = [start[f] + k for k in range(len(S[f])) if start[f] + k in low]
        for k in range(len(S[f])):
            i = start[f] + k
            fiber.append(f)
            s.append(V.q(S[f][k]))
            beam.append(start[f] + (k + 1) % len(S[f]))
            if i in low:
                base = z[low[i]] + (h[f] + h[fiber[low[i]]]) * half
                if f in seated:
                    if free == "flat":
                        z[i] = base
                    else:
                        z[i] = base + up("gap", i)
                else:
                    seated.add(f)
                    z[i] = base
            elif not lower and k == 0:
                z[i] = h[f] * half
            elif free == "flat" and not lower:
                z[i] = h[f] * half
            else:
                z[i] = h[f] * half + up("up", i)
    P.z, P.fiber, P.con, P.m, P.n, P.h, P.s, P.beam = z, fiber, con, m, n, h, s, beam
    P.mesh = fm.Mesh(V.frame({"fiber": fiber, "s": s, "x": [V.q(0)] * m, "y": [V.q(0)] * m, "z": z,
                              "beam": beam, "constraint": con}, attrs=dict(n=n, size=V.q(50), periodic=False)))
    return P


class Run:
    pass


def states(V, P, out):
    """The stored results as plain lists."""
    R = Run()
    K, C, u, f, F, H, Z, rl, mask, err = out
    R.K, R.C = dense(V, K), dense(V, C)
    R.N, R.M = len(R.K), len(R.C)
    two = lambda y: [list(r) for r in np.asarray(y(), dtype=object)]  # noqa: E731
    R.u, R.f, R.F, R.H, R.mask = two(u), two(f), two(F), two(H), two(mask)
    R.Z, R.rl, R.err = vals(Z()), vals(rl()), vals(err())
    R.steps = len(R.Z) - 1
    R.at = lambda t: [vals(y(t)) for y in (u, f, F, H)]  # noqa: E731
    return R


def gap(V, R, u, H):
    return [H[r] if infinite(None, H[r]) else H[r] - dot(V, R.C[r], u) for r in range(R.M)]


def residual(V, R, u, f, F):
    """Both sides of the equilibrium of each free unknown, and of u = 0 for the unknowns
    frozen by an infinite stiffness."""
    out = []
    for i in range(R.N):
        if any(infinite(None, x) for x in R.K[i]):
            out.append((u[i], V.q(0)))
            continue
        out.append((dot(V, R.K[i], u) + dot(V, [R.C[r][i] for r in range(R.M)], f), F[i]))
    return out


def infinite(P, x):
    return finite(x).margin() < 0


def run(V, fm, P, **kw):
    kw.setdefault("coupling", 0.5)
    kw.setdefault("verbose", False)
    out = fm.solve(P.mat, P.mesh, **kw)
    return states(V, P, out)


import numpy as np  # noqa: E402


def equilibrium(V, label, R, u, f, F):
    V.check(label, all_([eq(a, b) for a, b in residual(V, R, u, f, F)]))


def nonpenetration(V, label, R, u, H):
    tol = V.q("2/1000000")
    V.check(label, all_([fine(ge(d, -tol)) for d in gap(V, R, u, H)]))


ALL = ["single", "short", "pair"]


@case("C18", "steps", names=["single", "short", "lever"], steps=2, couplings=[0.5, 1.0], bounds="piles of 1-2 fibers (3-4 nodes, coupling 1/2 or 1) with any node heights above their contacts, up to 2 steps")
@case("C18", "slow", names=["slow"], steps=3, bounds="1 fiber of 3 nodes, one 1/256 away from the end (its contacts close 1000 times slower than the plate moves), any heights, up to 3 steps")
@case("C18", "pair", names=["pair"], steps=3, free="flat", bounds="a fiber across a flat one (6 nodes), any heights of its ends, up to 3 steps")
@case("C18", "stiff", names=["single", "short", "pair"], steps=2, inf=True, free="flat", bounds="the same piles, flat floor fibers, first fiber with infinite tensile modulus")
@case("C18", "pair-any", names=["pair"], steps=2, tier="thorough", bounds="two crossing fibers (6 nodes) with any node heights above their contacts, up to 2 steps")
@case("C18", "stiff-any", names=["single", "pair"], steps=2, inf=True, tier="thorough", bounds="piles of 1-2 fibers with any node heights, first fiber with infinite tensile modulus")
@case("C18", "flat", names=["trio", "tower"], steps=2, free="flat", tier="thorough", bounds="piles of 3 fibers (10 nodes) with flat floor fibers and any other heights, up to 2 steps", opts=dict(validate=1))
@case("C18", "deep", names=["single", "short", "pair", "double"], steps=5, tier="thorough", bounds="piles of 1-2 fibers with any node heights, up to 5 steps")
@case("C18", "heap", names=["heap"], steps=6, free="near", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber in [1, 3/2], up to 6 steps", opts=dict(validate=1))
@case("C18", "heap-deep", names=["heap"], steps=12, free="one", tier="thorough", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber, up to 12 steps", opts=dict(validate=1))
@case("C18", "trio", names=["trio", "tower"], steps=4, tier="thorough", bounds="piles of 3 fibers with any node heights, up to 4 steps")
def equilibrium_everywhere(V, fm, names, steps, free="all", inf=False, couplings=(0.5,)):
    P = pile(V, fm, V.pick("pile", names), free=free, inf=inf)
    c = V.pick("coupling", list(couplings))
    R = run(V, fm, P, packing=1000, itermax=steps, coupling=c)
    V.check("one u, f, F, H per step", all(len(x) == R.steps + 1 for x in (R.u, R.f, R.F, R.H)))
    V.check("initial state is u = 0, f = 0", all_([eq(x, 0) for x in R.u[0] + R.f[0]]))
    K0 = dense(V, fm.stiffness(P.mat, P.mesh, coupling=c)[0])
    C0 = fm.constraint(P.mat, P.mesh)
    V.check("K is the stiffness matrix", all_([same(a, b) for a, b in zip(R.K, K0)], cond(len(K0) == R.N)))
    V.check("C is the contact matrix", all_([same(a, b) for a, b in zip(R.C, dense(V, C0[0]))], cond(C0[0].shape[0] == R.M)))
    V.check("F and H start as given by the model", all_([eq(x, 0) for x in R.F[0]], same(R.H[0], vals(C0[2]))))
    for k in range(R.steps + 1):
        V.check("all values are finite", all_([finite(x) for x in R.u[k] + R.f[k] + R.F[k]]))
        equilibrium(V, "equilibrium at a step", R, R.u[k], R.f[k], R.F[k])
        nonpenetration(V, "non-penetration at a step", R, R.u[k], R.H[k])
    V.observe("u", R.u[-1])
    V.observe("Z", R.Z)


@case("C18", "soft", steps=2, bounds="piles of 1-2 fibers (3-6 nodes) with moduli 1e-9 or 1e4 times the usual ones, any heights (of the upper fiber), up to 2 steps; balance in the same unit", opts=dict(validate=1))
def equilibrium_soft(V, fm, steps):
    stress = V.pick("stress", ["1/1000000000", "10000"])
    name = V.pick("pile", ["lever", "pair"])
    P = pile(V, fm, name, free="flat" if name == "pair" else "all", stress=stress)
    R = run(V, fm, P, packing=1000, itermax=steps)
    k = 1 / V.q(stress)
    for i in range(R.steps + 1):
        V.check("equilibrium at a step", all_([eq(a * k, b * k) for a, b in residual(V, R, R.u[i], R.f[i], R.F[i])]))
        nonpenetration(V, "non-penetration at a step", R, R.u[i], R.H[i])


@case("C18", "between", names=["single", "pair"], steps=2, free="flat", bounds="piles of 1-2 fibers with flat floor fibers and any other node heights, up to 2 steps, any pseudo-time in [0, 1], results resampled to 2-3 values or not")
@case("C18", "between-deep", names=["single", "pair", "double"], steps=3, tier="thorough", bounds="piles of 1-2 fibers, up to 3 steps, any pseudo-time, resampled to 2-3 values or not")
def between(V, fm, names, steps, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    R = run(V, fm, P, packing=1000, itermax=steps, interp_size=V.pick("size", [None, 2, 3]))
    t = V.real("t", 0, 1)
    u, f, F, H = R.at(t)
    V.check("all values are finite", all_([finite(x) for x in u + f + F]))
    equilibrium(V, "equilibrium at any pseudo-time", R, u, f, F)
    nonpenetration(V, "non-penetration at any pseudo-time", R, u, H)


@case("C18", "inexact", names=["lever"], steps=2, bounds="1 fiber of 3 nodes at any heights, a linear solver off by 1e-4 in its first value, errors accepted up to 1, up to 2 steps: stored values stay finite")
def finite_values(V, fm, names, steps):
    P = pile(V, fm, V.pick("pile", names))
    exact = V.spsolve

    def wrong(A, b):
        x = vals(exact(A, b))
        return V.arr([x[0] + V.q("1/10000")] + x[1:])
    R = run(V, fm, P, packing=1000, itermax=steps, solve=wrong, errtol=1)
    for k in range(R.steps + 1):
        V.check("all values are finite", all_([finite(x) for x in R.u[k] + R.f[k] + R.F[k]], finite(R.err[k])))
        V.check("no stored step has an error above errtol", le(R.err[k], 1))
    V.observe("Z", R.Z)


# ---------------------------------------------------------------------------- C19
def kkt(V, R, active):
    """Rate (du, df) of the state with the given closed contacts for a unit rise of the plate:
    exact rational elimination; None when the system is singular."""
    n = R.N + len(active)
    num = lambda x: Fraction(x.const) if hasattr(x, "const") else Fraction(float(x))  # noqa: E731
    A = [[Fraction(0)] * (n + 1) for _ in range(n)]
    for i in range(R.N):
        for j in range(R.N):
            A[i][j] = num(R.K[i][j])
        for a, r in enumerate(active):
            A[i][R.N + a] = A[R.N + a][i] = num(R.C[r][i])
    for a, r in enumerate(active):
        A[R.N + a][n] = Fraction(int(r % 3 == 2))
    eps = 0 if V.sym else Fraction(1, 10 ** 11)
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if abs(A[p][c]) <= eps:
            return None
        A[c], A[p] = A[p], A[c]
        piv = A[c][c]
        A[c] = [x / piv for x in A[c]]
        for i in range(n):
            if i != c and A[i][c]:
                q = A[i][c]
                A[i] = [x - q * y for x, y in zip(A[i], A[c])]
    return [A[i][n] for i in range(R.N)]


def number(V, x):
    return V.q(x) if V.sym else float(x)


def closed(V, R, k):
    """Contacts closed at step k; None when one gap is about as large as the tolerance."""
    out = []
    for r, d in enumerate(gap(V, R, R.u[k], R.H[k])):
        if infinite(None, d):
            continue
        if V.decide(le(d, V.q("1/2000000"))):
            out.append(r)
        elif V.decide(le(d, V.q("2/1000000"))):
            return None
    return out


def top(V, P):
    Z = P.z[0] + P.h[P.fiber[0]] * V.q("1/2")
    for z, f in zip(P.z[1:], P.fiber[1:]):
        Z = V.max([Z, z + P.h[f] * V.q("1/2")])
    return Z


@case("C19", "steps", names=["single", "short", "lever"], steps=2, packing=None, couplings=[0.5, 1.0], bounds="piles of 1-2 fibers with any node heights, coupling 1/2 or 1, itermax 0-2, packing out of reach")
@case("C19", "slow", names=["slow"], steps=3, packing=None, bounds="1 fiber of 3 nodes, one 1/256 away from the end (its contacts close 1000 times slower than the plate moves), any heights, up to 3 steps")
@case("C19", "pair", names=["pair"], steps=2, packing=None, free="flat", bounds="a fiber across a flat one, any heights of its ends, itermax 0-2, packing out of reach")
@case("C19", "packing", names=["single", "short"], steps=2, packing=(1, 20), bounds="piles of 1-2 fibers with any node heights, any packing in [1, 20], itermax 2")
@case("C19", "flat", names=["trio"], steps=2, packing=None, free="flat", bounds="pile of 3 fibers (10 nodes), flat floor fibers, any other heights, itermax 0-2", opts=dict(validate=1))
@case("C19", "limit", names=["bars"], steps=2, packing=None, bounds="3 separate fibers of 2 nodes at any heights, itermax 0-2, packing out of reach")
@case("C19", "heap", names=["heap"], steps=6, packing=None, free="near", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber in [1, 3/2], itermax 6", opts=dict(validate=1))
@case("C19", "heap-deep", names=["heap"], steps=12, packing=None, free="one", tier="thorough", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber, itermax 12", opts=dict(validate=1))
@case("C19", "deep", names=["single", "short", "pair", "double"], steps=5, packing=None, tier="thorough", bounds="piles of 1-2 fibers, itermax 0-5")
@case("C19", "deep-packing", names=["single", "pair", "trio"], steps=4, packing=(1, 20), tier="thorough", bounds="piles of 1-3 fibers, any packing in [1, 20], itermax 4")
def bookkeeping(V, fm, names, steps, packing, free="all", couplings=(0.5,)):
    P = pile(V, fm, V.pick("pile", names), free=free)
    if packing:
        goal = V.real("packing", *packing)
        itermax = steps
    else:
        goal = V.q(10 ** 6)
        itermax = V.int("itermax", 0, steps) if steps < 6 else steps
    R = run(V, fm, P, packing=goal, itermax=itermax, coupling=V.pick("coupling", list(couplings)))
    n = R.steps
    V.check("one Z, stretch, mask and error per step", all(len(x) == n + 1 for x in (R.Z, R.rl, R.mask, R.err, R.u, R.f, R.F, R.H)))
    V.check("at most itermax steps", n <= itermax)
    V.check("Z starts at the top surface", eq(R.Z[0], top(V, P)))
    V.check("stretch factor is Z(0) / Z", all_([eq(R.rl[k] * R.Z[k], R.Z[0]) for k in range(n + 1)]))
    V.check("Z stays positive", all_([gt(z, 0) for z in R.Z]))
    for k in range(1, n + 1):
        V.check("Z decreases at every step", lt(R.Z[k], R.Z[k - 1]))
        V.check("steps are only made below the requested packing", lt(R.rl[k - 1], goal))
    for k in range(n + 1):
        V.check("plate bounds follow Z, other bounds and loads stay",
                all_([eq(x, 0) for x in R.F[k]],
                     [eq(R.H[k][r], R.H[0][r] + (R.Z[k] - R.Z[0]) if r % 3 == 2 else R.H[0][r])
                      for r in range(R.M) if not infinite(None, R.H[0][r])],
                     [cond(infinite(None, R.H[k][r])) for r in range(R.M) if infinite(None, R.H[0][r])]))
        V.check("no stored step has an error above errtol", le(R.err[k], V.q(TOLC)))
        d = gap(V, R, R.u[max(k - 1, 0)], R.H[max(k - 1, 0)])
        V.check("mask marks the contacts closed when the step began",
                all_(cond(all(bool(x) for x in R.mask[k][:R.N])),
                     [cond(not R.mask[k][R.N + r]) if infinite(None, d[r]) else
                      (fine(le(d[r], V.q("2/1000000"))) if bool(R.mask[k][R.N + r]) else fine(gt(d[r], V.q("1/2000000")))) for r in range(R.M)]))
        if k:
            e = gap(V, R, R.u[k], R.H[k])
            V.check("no step goes beyond the closure of a contact", all_([fine(ge(e[r], V.q("-2/1000000"))) for r in range(R.M) if not infinite(None, e[r])]))
            V.check("every step closes a contact", any_([all_(fine(gt(d[r], V.q("1/2000000"))), fine(le(e[r], V.q("2/1000000"))))
                                                         for r in range(R.M) if not infinite(None, d[r])]))
    if n < itermax and (not packing or V.decide(lt(R.rl[n], goal))):
        shut = closed(V, R, n)
        du = None if shut is None else kkt(V, R, shut)
        if du is not None:
            d = gap(V, R, R.u[n], R.H[n])
            for r in range(R.M):
                if infinite(None, d[r]) or r in shut:
                    continue
                v = Fraction(int(r % 3 == 2)) - sum(c * x for c, x in zip([Fraction(float(getattr(c, "const", c))) for c in R.C[r]], du))
                V.check("the solver stops early only when no contact can close any more", v <= (0 if V.sym else Fraction(1, 10 ** 9)))
        else:
            V.check("the solver stops when the pile is jammed", True)
    V.observe("Z", R.Z)


@case("C19", "inexact", names=["single", "pair"], bounds="piles of 1-2 fibers with any node heights, a linear solver wrong by any error in its first value, any errtol in [1e-6, 1]")
def inexact(V, fm, names):
    P = pile(V, fm, V.pick("pile", names), free="flat")
    e = V.real("error", -10, 10)
    errtol = V.real("errtol", V.q(TOLC), 1)
    exact = V.spsolve
    seen = []

    def wrong(A, b):
        x = exact(A, b)
        D = dense(V, A)
        x = V.arr([y + e if i == 0 else y for i, y in enumerate(vals(x))])
        r = [dot(V, row, vals(x)) - c for row, c in zip(D, vals(b))]
        t = V.q(0)
        for y in r:
            t = t + y * y
        seen.append(t)
        return x
    R = run(V, fm, P, packing=1000, itermax=1, solve=wrong, errtol=errtol)
    for t in seen[:1]:
        if R.steps:
            V.check("a step with an error above errtol is not stored", le(t, errtol * errtol))
            V.check("the error stored is the norm of the residual", all_(eq(R.err[1] * R.err[1], t), ge(R.err[1], 0)))


# ---------------------------------------------------------------------------- C20
@case("C20", "steps", names=["single", "short", "lever"], steps=3, couplings=[0.5, 1.0], bounds="piles of 1-2 fibers with any node heights, coupling 1/2 or 1, up to 3 steps")
@case("C20", "pair", names=["pair"], steps=3, free="flat", bounds="a fiber across a flat one, any heights of its ends, up to 3 steps")
@case("C20", "flat", names=["trio", "tower"], steps=2, free="flat", tier="thorough", bounds="piles of 3 fibers (10 nodes) with flat floor fibers, any other heights, up to 2 steps", opts=dict(validate=1))
@case("C20", "heap", names=["heap"], steps=6, free="near", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber in [1, 3/2], up to 6 steps", opts=dict(validate=1))
@case("C20", "heap-deep", names=["heap"], steps=12, free="one", tier="thorough", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber, up to 12 steps", opts=dict(validate=1))
@case("C20", "deep", names=["single", "short", "pair", "double", "trio", "tower"], steps=4, tier="thorough", bounds="piles of 1-3 fibers with any node heights, up to 4 steps")
def complementarity(V, fm, names, steps, free="all", couplings=(0.5,)):
    P = pile(V, fm, V.pick("pile", names), free=free)
    R = run(V, fm, P, packing=1000, itermax=steps, coupling=V.pick("coupling", list(couplings)))
    for k in range(R.steps + 1):
        d = gap(V, R, R.u[k], R.H[k])
        V.check("a contact that is not closed carries no force",
                all_([eq(R.f[k][r], 0) if infinite(None, d[r]) else any_(eq(R.f[k][r], 0), fine(le(d[r], V.q("2/1000000")))) for r in range(R.M)]))
        lo, hi = V.q(0), V.q(0)
        for r in range(0, R.M, 3):
            lo, hi = lo + R.f[k][r], hi + R.f[k][r + 2]
        V.check("floor forces balance plate forces", eq(lo, hi))
        V.check("the plate is never pulled", ge(hi, 0))
        if k:
            V.check("compaction needs no less force than before", ge(hi, last))
        last = hi
    V.observe("f", R.f[-1])


@case("C20", "push", names=["bar", "short"], steps=3, bounds="1-2 separate fibers of 2 nodes at any heights, up to 3 steps: every contact force pushes")
@case("C20", "sign", names=["single"], steps=1, bounds="1 bent fiber of 3 nodes at any heights, 1 step: every contact force pushes (known finding: floor contacts are never released)")
def pushing(V, fm, names, steps):
    P = pile(V, fm, V.pick("pile", names))
    R = run(V, fm, P, packing=1000, itermax=steps)
    for k in range(R.steps + 1):
        V.check("contact forces push", all_([ge(x, 0) for x in R.f[k]]))


# ---------------------------------------------------------------------------- C33
@case("C33", "steps", names=["single", "short", "lever"], steps=2, couplings=[0.5, 1.0], bounds="piles of 1-2 fibers with any node heights, coupling 1/2 or 1, up to 2 steps")
@case("C33", "pair", names=["pair", "thin"], steps=3, free="flat", bounds="a fiber across a flat one, thinner or thicker, any heights of its ends, up to 3 steps")
@case("C33", "between", names=["single"], steps=2, anytime=True, bounds="1 fiber of 3 nodes with any heights, up to 2 steps, any pseudo-time")
@case("C33", "tower", names=["trio"], steps=2, free="flat", bounds="pile of 3 fibers (10 nodes), flat floor fibers, any other heights, up to 2 steps", opts=dict(validate=1))
@case("C33", "heap", names=["heap"], steps=6, free="near", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber in [1, 3/2], up to 6 steps", opts=dict(validate=1))
@case("C33", "heap-deep", names=["heap"], steps=12, free="one", tier="thorough", bounds="pile of 4 fibers (16 nodes), node heights numbers except the last one of any one fiber, up to 12 steps", opts=dict(validate=1))
@case("C33", "deep", names=["single", "short", "pair", "thin", "double", "trio", "tower"], steps=4, tier="thorough", bounds="piles of 1-3 fibers with any node heights, up to 4 steps")
@case("C33", "between-deep", names=["single", "pair", "double"], steps=3, anytime=True, tier="thorough", bounds="piles of 1-2 fibers with any node heights, up to 3 steps, any pseudo-time")
def in_place(V, fm, names, steps, free="all", couplings=(0.5,), anytime=False):
    """Geometry and statics of the packed pile, without the matrices of the model but the
    contact matrix that carries forces to the nodes."""
    P = pile(V, fm, V.pick("pile", names), free=free)
    c = V.pick("coupling", list(couplings))
    K, C, u, f, F, H, Z, rl, mask, err = fm.solve(P.mat, P.mesh, packing=1000, itermax=steps, verbose=False, coupling=c)
    n = len(vals(Z())) - 1
    times = [V.real("t", 0, 1)] if anytime else [V.q(k) / V.q(n) if n else V.q(0) for k in range(n + 1)]
    C = dense(V, C)
    half, tol = V.q("1/2"), V.q("2/1000000")
    links = [(i, j) for i, j in enumerate(P.con) if P.fiber[i] < P.fiber[j]]
    for t in times:
        U, f_, top_ = vals(u(t)), vals(f(t)), vals(Z(t))[0]
        V.check("a height and a rotation per node, a force per contact", len(U) == 2 * P.m and len(f_) == len(C))
        z = [P.z[i] + U[2 * i] for i in range(P.m)]
        hh = [P.h[P.fiber[i]] * half for i in range(P.m)]
        V.check("every fiber stays above the floor", all_([fine(ge(z[i] - hh[i], -tol)) for i in range(P.m)]))
        V.check("every fiber stays under the plate", all_([fine(le(z[i] + hh[i], top_ + tol)) for i in range(P.m)]))
        V.check("crossing fibers stay apart", all_([fine(ge(z[j] - z[i], hh[i] + hh[j] - tol)) for i, j in links]))
        w = [dot(V, [C[r][c] for r in range(len(C))], f_) for c in range(2 * P.m)]
        for g in range(P.n):
            nodes = [i for i in range(P.m) if P.fiber[i] == g]
            force, moment = V.q(0), V.q(0)
            for i in nodes:
                force = force + w[2 * i]
                moment = moment + w[2 * i] * P.s[i] + w[2 * i + 1]
            V.check("the contact forces on each fiber balance", eq(force, 0))
            if c == 1:
                V.check("the contact forces on each fiber have no moment", eq(moment, 0))
    V.observe("u", U)


# ---------------------------------------------------------------------------- C32
@case("C32", "times", names=["single", "lever"], steps=2, bounds="1 fiber of 3 nodes at any heights, up to 2 steps, results resampled to 1-4 values or not, any pseudo-time in [0, 1]")
@case("C32", "pair", names=["pair"], steps=2, free="flat", sizes=[None, 2, 4], bounds="a fiber across a flat one, any heights of its ends, up to 2 steps, results resampled to 2 or 4 values or not, any pseudo-time in [0, 1]")
@case("C32", "inexact", names=["lever"], steps=2, sizes=[None, 2], off=True, bounds="1 fiber of 3 nodes at any heights, a linear solver off by 1e-4 in its first value, up to 2 steps, resampled to 2 values or not, any pseudo-time")
@case("C32", "deep", names=["single", "short", "pair", "double"], steps=4, tier="thorough", bounds="piles of 1-2 fibers with any node heights, up to 4 steps, resampled to 1-4 values or not, any pseudo-time")
def common_times(V, fm, names, steps, free="all", sizes=(None, 1, 2, 3, 4), off=False):
    P = pile(V, fm, V.pick("pile", names), free=free)
    kw = dict(packing=1000, itermax=steps)
    if off:
        exact = V.spsolve

        def wrong(A, b):
            x = vals(exact(A, b))
            return V.arr([x[0] + V.q("1/10000")] + x[1:])
        kw.update(solve=wrong, errtol=1)
    plain = run(V, fm, P, **kw)
    n = plain.steps
    size = V.pick("size", list(sizes))
    K, C, *res = fm.solve(P.mat, P.mesh, coupling=0.5, verbose=False, **kw, **({} if size is None else dict(interp_size=size)))
    names_ = ["u", "f", "F", "H", "Z", "rlambda", "mask", "err"]
    steps_ = [plain.u, plain.f, plain.F, plain.H, [[z] for z in plain.Z], [[z] for z in plain.rl], plain.mask, [[e] for e in plain.err]]
    knot = lambda k: V.q(k) / V.q(n) if n else V.q(0)  # noqa: E731

    def linear(Y, t):
        """Straight lines between the steps at equally spaced pseudo-times."""
        k = 0
        while k < n - 1 and V.decide(ge(t, knot(k + 1))):
            k += 1
        if not n:
            return Y[0]
        a = t * V.q(n) - V.q(k)
        return [p if infinite(None, p) else p + (q - p) * a for p, q in zip(Y[k], Y[k + 1])]
    count = size or n + 1
    T = [V.q(j) / V.q(count - 1) if count > 1 else V.q(0) for j in range(count)]
    for name, g, Y in zip(names_, res, steps_):
        if name in ("u", "f", "F", "H", "Z"):
            V.check("u, f, F, H, Z: one value per resampled pseudo-time", all_(cond(len(vals(g())) == count * len(Y[0])), same(vals(g.t), T)))
            V.check("resampled u, f, F, H, Z lie on the stored steps", same(vals(g()), [x for t in T for x in linear(Y, t)]))
    for name, g, Y in zip(names_, res, steps_):
        if name in ("mask", "err"):
            V.check("mask and err: one value per step", same(vals(g()), [x for y in Y for x in y]))
    t = V.real("t", 0, 1)
    k = 0
    while k < n and V.decide(ge(t, knot(k + 1))):
        k += 1
    if size in (None, n + 1):
        for name, g, Y in zip(names_, res, steps_):
            if name not in ("mask", "err"):
                V.check("u, f, F, H, Z and the stretch factor vary linearly between steps", same(vals(g(t)), linear(Y, t)))
        H, Z = vals(res[3](t)), vals(res[4](t))[0]
        V.check("plate bounds follow Z at any pseudo-time", all_([eq(H[r], plain.H[0][r] + (Z - plain.Z[0])) for r in range(2, plain.M, 3) if not infinite(None, H[r])]))
    if k < n:
        V.assume(lt(t + V.q("1/1000000"), knot(k + 1)))
    for name, g, Y in zip(names_, res, steps_):
        if name in ("mask", "err"):
            V.check("mask and err hold the step last reached", same(vals(g(t)), Y[k]))
    V.observe("u", [x for g in res[:1] for x in vals(g(t))])


# ---------------------------------------------------------------------------- C21
def permutation(V, kind, n):
    ident = list(range(n))
    if kind == "swap":
        i = V.int("i", 0, n - 2)
        j = V.int("j", i + 1, n - 1)
        ident[i], ident[j] = ident[j], ident[i]
        return ident
    if kind == "reversed":
        return ident[::-1]
    if kind == "rotated":
        return ident[5:] + ident[:5]
    if kind == "interleaved":
        return ident[::2] + ident[1::2]
    if kind == "forces-first":
        return ident[n // 2:][::-1] + ident[:n // 2]
    return ident


def agree(V, label, A, B):
    V.check(label + " gives the same number of steps", A.steps == B.steps)
    if A.steps != B.steps:
        return
    V.check(label + " gives the same K and C", all_([same(a, b) for a, b in zip(A.K + A.C, B.K + B.C)]))
    for k in range(A.steps + 1):
        V.check(label + " gives the same u", same(A.u[k], B.u[k]))
        V.check(label + " gives the same f", same(A.f[k], B.f[k]))
    V.check(label + " gives the same Z", same(A.Z, B.Z))
    V.check(label + " gives the same stretch factor", same(A.rl, B.rl))


@case("C21", "silent", names=["lever"], steps=2, bounds="1 fiber of 3 nodes at any heights, a linear solver off by any value in its first unknown, any errtol in [0, 1/10], up to 2 steps: verbose on or off")
def silent(V, fm, names, steps):
    P = pile(V, fm, V.pick("pile", names))
    e, errtol = V.real("e", 0, V.q("1/10")), V.real("errtol", 0, V.q("1/10"))

    def off(A, b):
        x = vals(V.spsolve(A, b))
        return V.arr([x[0] + e] + x[1:])
    A, B = (run(V, fm, P, packing=1000, itermax=steps, solve=off, errtol=errtol, verbose=v) for v in (True, False))
    agree(V, "verbosity", A, B)


@case("C21", "perm", names=["single", "pair"], steps=2, kinds=["reversed", "rotated", "interleaved", "forces-first"], free="flat", bounds="piles of 1-2 fibers with flat floor fibers and any other heights, 2 steps, 4 permutations of all unknowns")
@case("C21", "bent", names=["single"], steps=2, kinds=["rotated", "interleaved"], bounds="1 fiber with any node heights, 2 steps, 2 permutations of all unknowns")
@case("C21", "swap", names=["bar"], steps=2, kinds=["swap"], bounds="1 fiber of 2 nodes at any heights, 2 steps, every exchange of two unknowns")
@case("C21", "deep", names=["double", "trio"], steps=3, kinds=["identity", "reversed", "rotated", "interleaved", "forces-first"], tier="thorough", bounds="piles of 2-3 fibers, 3 steps, 5 permutations")
@case("C21", "deep-swap", names=["single", "pair"], steps=2, kinds=["swap"], tier="thorough", bounds="piles of 1-2 fibers, 2 steps, every exchange of two unknowns")
def permuted(V, fm, names, steps, kinds, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    A = run(V, fm, P, packing=1000, itermax=steps)
    p = permutation(V, V.pick("perm", kinds), A.N + A.M)
    B = run(V, fm, P, packing=1000, itermax=steps, perm=V.ints(p))
    agree(V, "a permutation", A, B)


@case("C21", "solver", names=["single", "pair"], steps=2, free="flat", bounds="piles of 1-2 fibers with flat floor fibers and any other heights, 2 steps; a dense exact solver, one that solves the reversed system, verbose on or off, a permutation with them")
def other_solver(V, fm, names, steps, free="all"):
    P = pile(V, fm, V.pick("pile", names), free=free)
    before, cols = snapshot(P.mat), list(P.mesh.columns)
    mbefore = snapshot(P.mesh)
    A = run(V, fm, P, packing=1000, itermax=steps)
    unchanged(V, "mat is left unchanged", before, P.mat)
    V.check("mat keeps its attributes", dict(P.mat.attrs) == before[3])
    unchanged(V, "mesh is left unchanged but for h", mbefore, P.mesh, extra=("h",))
    V.check("mesh keeps its attributes", dict(P.mesh.attrs) == mbefore[3])
    V.check("mesh gets the thickness column", "h" in P.mesh.columns and not [c for c in P.mesh.columns if c not in cols + ["h"]])
    if "h" in P.mesh.columns:
        V.check("h is the thickness of each node's fiber", same(vals(P.mesh["h"]), [P.h[f] for f in P.fiber]))
    exact = V.spsolve

    def reversed_(A_, b):
        r = list(range(len(b)))[::-1]
        M, c = dense(V, A_), vals(b)
        x = exact(V.csc(V.arr([M[i][j] for i in r for j in r], (len(r), len(r)))), V.arr([c[i] for i in r]))
        return V.arr(vals(x)[::-1])

    def wrapped(A_, b):
        return exact(A_, b)
    kw = {}
    if V.bool("solve"):
        kw["solve"] = reversed_ if V.bool("reverse") else wrapped
    if V.bool("verbose"):
        kw["verbose"] = True
    if V.bool("perm"):
        kw["perm"] = V.ints(permutation(V, "reversed", A.N + A.M))
    B = run(V, fm, P, packing=1000, itermax=steps, **kw)
    agree(V, "another solver or verbosity", A, B)
