"""C30: plot_system."""
from .common import *
from .p_solver import PILES, pile, gap, states, permutation, Run

CLASSES = ["stiffness", "inner", "lower", "upper", "inactive"]


class Ax:
    """Axes that record what is drawn."""

    def __init__(self, V):
        self.V, self.spied, self.legends = V, {}, 0

    def spy(self, M, *a, label=None, **k):
        self.spied[label] = dense(self.V, M)

    def legend(self, *a, **k):
        self.legends += 1

    def __getattr__(self, name):
        return lambda *a, **k: None


def filled(x):
    """x (a number) is not zero"""
    return abs(float(getattr(x, "const", x))) > 1e-13


@case("C30", "classes", names=["single", "short"], bounds="piles of 1-2 fibers with any node heights, initial state or after 1 step; natural or 3 other orders of the unknowns")
@case("C30", "pair", names=["pair"], free="flat", bounds="a fiber across a flat one, any heights of its ends, initial state or after 1 step; natural or other orders", tier="thorough")
def classes(V, fm, names, free="all"):
    import numpy as np
    P = pile(V, fm, V.pick("pile", names), free=free)
    K, u, F, du, dF = fm.stiffness(P.mat, P.mesh, coupling=0.5)
    C, f, H, df, dH = fm.constraint(P.mat, P.mesh)
    if V.bool("stepped"):
        out = fm.solve(P.mat, P.mesh, packing=1000, itermax=1, coupling=0.5, verbose=False)
        u, f, F, H = (V.arr(vals(y(1.0))) for y in out[2:6])
    N, M = K.shape[0], C.shape[0]
    kind = V.pick("perm", ["natural", "identity", "reversed", "rotated", "forces-first"])
    p = list(range(N + M)) if kind in ("natural", "identity") else permutation(V, kind, N + M)
    given = [vals(x) for x in (u, F, du, dF, f, H, df, dH)] + [x for r in dense(V, K) + dense(V, C) for x in r]
    ax = Ax(V)
    printed = []
    fm.model.print = lambda *a, **k: printed.append(a)
    try:
        kw = {} if kind == "natural" else dict(perm=V.ints(p))
        got = fm.plot_system(K, u, F, du, dF, C, f, H, df, dH, ax=ax, **kw)
    finally:
        del fm.model.print
    V.check("the axes are returned", got is ax)
    now = [vals(x) for x in (u, F, du, dF, f, H, df, dH)] + [x for r in dense(V, K) + dense(V, C) for x in r]
    flat = lambda L: [y for x in L for y in (x if isinstance(x, list) else [x])]  # noqa: E731
    V.check("inputs are left unchanged", same(flat(given), flat(now)))
    V.check("every class is drawn", sorted(ax.spied) == sorted(CLASSES) and ax.legends == 1)
    KD, CD = dense(V, K), dense(V, C)
    R = Run()
    R.C, R.M = CD, M
    d = gap(V, R, vals(u), vals(H))
    kind_of = []
    for r in range(M):
        fin = finite(d[r]).margin() >= 0
        if fin and V.decide(eq(d[r], 0)):
            kind_of.append(["lower", "inner", "upper"][r % 3])
        elif not fin or V.decide(gt(d[r], V.q("1/100"))):
            kind_of.append("inactive")
        else:
            V.assume(cond(False))
    size = N + M
    V.check("matrices have the size of the system", all(len(m) == size and all(len(r) == size for r in m) for m in ax.spied.values()))
    for a in range(size):
        for b in range(size):
            i, j = p[a], p[b]
            x = KD[i][j] if i < N and j < N else CD[i - N][j] if i >= N and j < N else CD[j - N][i] if j >= N and i < N else 0
            on = filled(x)
            k = "stiffness" if i < N and j < N else kind_of[(i if i >= N else j) - N] if (i >= N) != (j >= N) else None
            V.check("each coefficient is drawn under its class, at its place",
                    all((filled(ax.spied[c][a][b])) == (on and c == k) for c in CLASSES))


@case("C30", "error", names=["single", "bar", "short"], bounds="piles of 1-2 fibers with any node heights whose active system is regular; a linear solver wrong by any error in its first value; natural or reversed order")
def error(V, fm, names):
    P = pile(V, fm, V.pick("pile", names))
    K, u, F, du, dF = fm.stiffness(P.mat, P.mesh, coupling=0.5)
    C, f, H, df, dH = fm.constraint(P.mat, P.mesh)
    e = V.real("error", -10, 10)
    exact = V.spsolve
    seen = []

    def wrong(A, b):
        x = exact(A, b)
        if not all(finite(y).margin() >= 0 for y in vals(x)):
            V.assume(cond(False))
        x = V.arr([y + e if i == 0 else y for i, y in enumerate(vals(x))])
        t = V.q(0)
        for row, c in zip(dense(V, A), vals(b)):
            y = dot(V, row, vals(x)) - c
            t = t + y * y
        seen.append(t)
        return x
    N = K.shape[0] + C.shape[0]
    printed = []
    fm.model.print = lambda *a, **k: printed.append(a)
    try:
        fm.plot_system(K, u, F, du, dF, C, f, H, df, dH, ax=Ax(V), solve=wrong,
                       perm=V.ints(list(range(N))[::-1]) if V.bool("reversed") else None)
    finally:
        del fm.model.print
    V.check("one error is printed", len(printed) == 1 and len(printed[0]) == 1 and len(seen) == 1)
    if len(printed) == 1 and len(seen) == 1:
        x = printed[0][0]
        V.check("the error printed is the norm of the residual", all_(eq(x * x, seen[0]), ge(x, 0)))
