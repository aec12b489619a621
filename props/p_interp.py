"""C22: interpolation of stored results."""
from .common import *


def interp(V, fm):
    return fm.Interpolate


def data(V, N, shape):
    """N values (rows of 2 for vectors), any reals."""
    if shape == "scalar":
        return [V.real("y%d" % i, -100, 100) for i in range(N)], 1
    rows = []
    for i in range(N):
        r = [V.real("y%d_%d" % (i, j), -100, 100) for j in range(2)]
        if shape == "bounds":
            r.append(V.num(INF))
        rows.append(V.arr(r))
    return rows, 3 if shape == "bounds" else 2


def row(x):
    return vals(x)


def knot(V, k, N):
    return V.q(k) / V.q(N - 1) if N > 1 else V.q(0)


SHAPES = ["scalar", "vector", "bounds"]


@case("C22", "knots", most=5, bounds="1 to 5 scalars or vectors (an infinite component included), any values; linear and previous; the knots, and the call without argument")
def knots(V, fm, most):
    N = V.int("N", 1, most)
    y, w = data(V, N, V.pick("shape", SHAPES))
    kind = V.pick("kind", ["linear", "previous", "default"])
    f = interp(V, fm)(y) if kind == "default" else interp(V, fm)(y, kind=kind)
    for k in range(N):
        V.check("y[k] at its knot", same(row(f(float(k) / (N - 1) if N > 1 else 0.0) if not V.sym else f(knot(V, k, N))), row(y[k])))
    a = row(f())
    V.check("called without argument: the knots", all_(cond(len(a) == N * w), same(a, [e for r in y for e in row(r)])))
    V.check("t: equally spaced pseudo-times", same(row(f.t), [knot(V, k, N) for k in range(N)]))
    V.observe("f()", a)


@case("C22", "between", most=4, bounds="2 to 4 scalars or vectors, any values, any t in [0, 1]; linear stays within the two neighbours, previous holds the last one")
def between(V, fm, most):
    N = V.int("N", 2, most)
    y, w = data(V, N, V.pick("shape", SHAPES))
    kind = V.pick("kind", ["linear", "previous"])
    t = V.real("t", 0, 1)
    k = N - 2
    for j in range(N - 2):
        if V.decide(lt(t, knot(V, j + 1, N))):
            k = j
            break
    f = interp(V, fm)(y, kind=kind)
    got = row(f(t))
    V.check("one value per component", len(got) == w)
    lo, hi = row(y[k]), row(y[k + 1])
    for g, a, b in zip(got, lo, hi):
        if kind == "linear":
            V.check("within the neighbouring values", any_(all_(le(a, g), le(g, b)), all_(le(b, g), le(g, a))))
        else:
            V.assume(any_(lt(t + V.q("1/1000000"), knot(V, k + 1, N)), eq(t, 1)))
            V.check("holds the last reached value", any_(all_(eq(g, a), lt(t, 1)), all_(eq(g, b), eq(t, 1))))
    V.observe("f(t)", got)


@case("C22", "outside", bounds="1 to 3 scalars or vectors, any values, any t < 0 or t > 1; linear and previous, with or without size")
def outside(V, fm):
    N = V.int("N", 1, 3)
    y, w = data(V, N, V.pick("shape", SHAPES))
    kw = V.pick("kw", [{}, dict(size=4), dict(kind="previous"), dict(kind="previous", size=3)])
    f = interp(V, fm)(y, **kw)
    t = V.real("t", -5, 5)
    if V.bool("below"):
        V.assume(lt(t, 0))
    else:
        V.assume(gt(t, 1))
    V.check("last value outside [0, 1]", same(row(f(t)), row(y[-1])))


@case("C22", "constant", bounds="a single scalar or vector, any value, any t; with or without size, linear and previous")
def constant(V, fm):
    y, w = data(V, 1, V.pick("shape", SHAPES))
    kw = V.pick("kw", [{}, dict(size=4), dict(kind="previous"), dict(kind="previous", size=3)])
    f = interp(V, fm)(y, **kw)
    t = V.real("t", -2, 2)
    V.check("a single value is constant", same(row(f(t)), row(y[0])))
    n = kw.get("size", 1)
    V.check("called without argument: size values", same(row(f()), row(y[0]) * n))


@case("C22", "resampled", bounds="1 to 4 scalars or vectors, any values, size 2 to 5; linear and previous")
def resampled(V, fm):
    N = V.int("N", 1, 4)
    M = V.int("size", 2, 5)
    y, w = data(V, N, V.pick("shape", SHAPES))
    kind = V.pick("kind", ["linear", "previous"])
    if kind == "previous":
        # the knots of one sampling are not rounded onto those of the other
        V.assume(cond(N == 1 or M == N or (M - 1) % (N - 1) == 0 or N in (2,)))
    f = interp(V, fm)(y, kind=kind)
    g = interp(V, fm)(y, size=M, kind=kind)
    T = [V.q(j) / V.q(M - 1) for j in range(M)]
    got = row(g())
    V.check("size values", len(got) == M * w)
    V.check("size equally spaced pseudo-times", same(row(g.t), T))
    if kind == "linear" or N in (1, 2) or M == N:
        want = [e for t in T for e in row(f(t))]
        V.check("the values at the resampled pseudo-times", same(got, want))
    V.check("first value at 0, last at 1", all_(same(row(g(V.q(0))), row(y[0])), same(row(g(V.q(1))), row(y[-1]))))
    V.observe("g()", got)


@case("C22", "resampled-between", bounds="1 to 4 scalars or vectors, any values, size 1 to 4, any t in [0, 1]; linear: straight between the resampled values, previous: the last resampled value reached")
def resampled_between(V, fm):
    N = V.int("N", 1, 4)
    M = V.int("size", 1, 4)
    y, w = data(V, N, V.pick("shape", SHAPES))
    kind = V.pick("kind", ["linear", "previous"])
    if kind == "previous":
        V.assume(cond(N == 1 or M in (1, N) or (M - 1) % (N - 1) == 0))
    f = interp(V, fm)(y, kind=kind)
    g = interp(V, fm)(y, size=M, kind=kind)
    if M == 1:
        V.check("size 1: the first value", same(row(g()), row(y[0])))
        V.check("size 1: pseudo-time 0", same(row(g.t), [V.q(0)]))
        t = V.real("t", 0, 1)
        if kind == "previous" and N > 1:
            V.assume(all_([any_(lt(t + V.q("1/1000000"), knot(V, j, N)), ge(t, knot(V, j, N))) for j in range(1, N)]))
        V.check("size 1: the data themselves at any time", same(row(g(t)), row(f(t))))
        return
    knots_ = [row(f(knot(V, j, M))) for j in range(M)]
    t = V.real("t", 0, 1)
    k = M - 2
    for j in range(M - 2):
        if V.decide(lt(t, knot(V, j + 1, M))):
            k = j
            break
    got = row(g(t))
    a = t * V.q(M - 1) - V.q(k)
    if kind == "linear":
        want = [p if j == 2 else p + (q - p) * a for j, (p, q) in enumerate(zip(knots_[k], knots_[k + 1]))]
    else:
        V.assume(any_(lt(t + V.q("1/1000000"), knot(V, k + 1, M)), eq(t, 1)))
        want = knots_[k + 1] if V.decide(eq(t, 1)) else knots_[k]
    V.check("between two resampled values", same(got, want))


@case("C22", "arrays", bounds="3 scalars or vectors, an array of two times in [0, 1]: the values at each")
def arrays(V, fm):
    y, w = data(V, 3, V.pick("shape", SHAPES))
    kw = V.pick("kw", [{}, dict(size=5)])
    f = interp(V, fm)(y, **kw)
    t = [V.real("t0", 0, 1), V.real("t1", 0, 1)]
    got = row(f(V.arr(t)))
    V.check("one result per time", same(got, row(f(t[0])) + row(f(t[1]))))


@case("C22", "types", bounds="2 to 3 booleans or vectors of booleans, any values and t in [0, 1] away from knots: previous keeps booleans; integers stay integers")
def types(V, fm):
    import numpy as np
    N = V.int("N", 1, 3)
    vec = V.bool("vector")
    y = [np.array([V.bool("b%d" % i), True]) if vec else V.bool("b%d" % i) for i in range(N)]
    f = interp(V, fm)(y, kind="previous")
    t = V.real("t", 0, 1)
    k = 0
    for j in range(N - 1):
        if V.decide(ge(t, knot(V, j + 1, N))):
            k = j + 1
    if k < N - 1:
        V.assume(lt(t + V.q("1/1000000"), knot(V, k + 1, N)))
    got = f(t)
    V.check("booleans stay booleans", str(getattr(got, "dtype", type(got).__name__)) in ("bool", "object"))
    V.check("the boolean reached last", [bool(b) for b in vals(got)] == [bool(b) for b in vals(y[k])])
    whole = f()
    V.check("booleans stay booleans", [bool(b) for b in vals(whole)] == [bool(b) for r in y for b in vals(r)])
    z = [V.int("i%d" % i, 0, 2) for i in range(N)] if not vec else [1, 2, 3][:N]
    g = interp(V, fm)(z)
    V.check("integers stay integers", str(getattr(g(), "dtype", "")).startswith("int") or V.sym)
    V.check("integers keep their values", same(vals(g()), z))
