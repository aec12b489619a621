"""C26: notebook settings."""
import math

from .common import *

NAMES = ["n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed", "periodic", "threshold",
         "packing", "itermax", "tol", "lmin", "lmax", "coupling", "interp_size", "verbose"]
OPTIONAL = ["seed", "threshold", "lmin", "lmax", "interp_size"]
DEFAULTS = dict(n=0, length=25., width=1., thickness=1., size=50., theta=1., shear=1., tensile=INF, seed=0,
                periodic=True, threshold=None, packing=1., itermax=1000, tol=1e-6, lmin=None, lmax=None,
                coupling=1.0, interp_size=None, verbose=True)


def settings(V, fm):
    import importlib
    return importlib.import_module(fm.__name__ + ".widgets").Settings


def infinite(V, tag):
    """Every way a user writes infinity."""
    import numpy as np
    return [np.inf, float("inf"), np.float64("inf"), math.inf][V.pick("inf" + tag, [0, 1, 2, 3])]


def value(V, name, tag=""):
    k = name + tag
    if name in ("n", "seed", "interp_size"):
        if name in OPTIONAL and V.bool("none." + k):
            return None
        return V.symint(k, 0 if name != "interp_size" else 1, 10 ** 6)
    if name in ("periodic", "verbose"):
        return V.bool(k)
    if name == "itermax":
        return [V.symint(k, 1, 6), 10, 1000, 999, 123456, 10 ** 6][V.pick("kind." + k, range(6))]
    if name == "theta":
        return V.real(k, 0, 1)
    if name == "tol":
        return [V.real(k, V.q("1/9000000000"), V.q("1/11")), 1e-10, 1e-1][V.pick("kind." + k, range(3))]
    if name in ("shear", "tensile"):
        if V.bool("infinite." + k):
            return infinite(V, k)
        return V.real(k, 0, 10 ** 9)
    if name in OPTIONAL and V.bool("none." + k):
        return None
    return V.real(k, 0, 1000)


def reads(V, label, got, name, want):
    if want is None:
        V.check(label, got is None)
    elif got is None:
        V.check(label, False)
    elif name in ("periodic", "verbose"):
        V.check(label, bool(got) == want)
    elif isinstance(want, float) and math.isinf(want):
        V.check(label, _inf(got))
    elif name == "theta":
        V.check(label, eq(got, want * V.q(math.pi)))
    elif name == "tol":
        V.check(label, eq(got * V.q(10 ** 10), want * V.q(10 ** 10)))
    else:
        V.check(label, eq(got, want))
        if name == "itermax":
            V.check("itermax is an integer", isinstance(got, int))


def _inf(x):
    s = getattr(x, "s", None)
    return (s == INF) if hasattr(x, "zreal") else float(x) == INF


def all_read(V, s, want, label):
    for n in NAMES:
        reads(V, "%s: %s" % (label, n), s[n], n, want[n])


def default(n):
    return DEFAULTS[n]


CONST = dict(n=7, length=3.5, width=0.25, thickness=0.75, size=40., theta=0.5, shear=2., tensile=11., seed=5,
             periodic=False, threshold=1.5, packing=4., itermax=50, tol=1e-4, lmin=0.125, lmax=8., coupling=0.75,
             interp_size=33, verbose=False)


@case("C26", "construct", bounds="Settings(name=value) for each of the 19 parameters, any value of its domain (None and every spelling of infinity included), the others at their defaults or at given other values")
def construct(V, fm):
    name = V.pick("name", NAMES)
    v = value(V, name)
    others = dict(CONST) if V.bool("others") else {}
    others[name] = v
    s = settings(V, fm)(**others)
    want = dict(DEFAULTS)
    want.update(others)
    all_read(V, s, want, "constructed")


@case("C26", "assign", bounds="Settings()(name=value) or settings[name] = value for each of the 19 parameters, any value of its domain, on default or on given other settings")
def assign(V, fm):
    name = V.pick("name", NAMES)
    v = value(V, name)
    start = dict(CONST) if V.bool("others") else {}
    s = settings(V, fm)(**start)
    if V.bool("call"):
        s(**{name: v})
    else:
        s[name] = v
    want = dict(DEFAULTS)
    want.update(start)
    want[name] = v
    all_read(V, s, want, "assigned")


@case("C26", "twice", bounds="two assignments (any two parameters, the same one included, any values) in one call or two")
def twice(V, fm):
    a = V.pick("first", NAMES)
    b = V.pick("second", NAMES)
    simple = lambda n, tag: value(V, n, tag) if n in ("shear", "tensile") or n in OPTIONAL else (  # noqa: E731
        CONST[n] if tag == ".1" else DEFAULTS[n])
    va, vb = simple(a, ".1"), simple(b, ".2")
    s = settings(V, fm)()
    if a != b and V.bool("one-call"):
        s(**{a: va, b: vb})
    else:
        s(**{a: va})
        s(**{b: vb})
    want = dict(DEFAULTS)
    want[a] = va
    want[b] = vb
    all_read(V, s, want, "assigned")


@case("C26", "unpack", bounds="** unpacking and iteration on settings holding given values of all 19 parameters, optional ones given or not, moduli finite or not")
def unpack(V, fm):
    want = dict(CONST)
    for n in OPTIONAL:
        if V.bool("none." + n):
            want[n] = None
    for n in ("shear", "tensile"):
        if V.bool("infinite." + n):
            want[n] = INF
    s = settings(V, fm)(**want)
    V.check("** covers every parameter", sorted({**s}) == sorted(NAMES) and sorted(s.keys()) == sorted(NAMES))
    got = {**s}
    for n in NAMES:
        reads(V, "unpacked: " + n, got.get(n), n, want[n])
    it = list(s)
    V.check("iteration covers every parameter", len(it) == len(NAMES) and len({id(w) for w in it}) == len(it))
    inner = []
    for w in it:
        inner += list(getattr(w, "children", ()) or ()) + [w]
    V.check("iteration covers every parameter", all(any(getattr(s, n) is w for w in inner) for n in NAMES))
    settings(V, fm)()(n=3)
    V.check("other settings are independent", s["n"] == want["n"])
