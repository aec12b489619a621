"""Harness back ends.  A harness is written once against the V interface; SymV runs it on
symbolic inputs (solver-decided checks), ConcV runs it on the numbers of a model against the
real package (replay / validation)."""
import math

import numpy as np
from fractions import Fraction

TOL = 1e-6          # relative tolerance of a concrete check


class AssumeFailed(Exception):
    pass


# -- case registry --------------------------------------------------------------
CASES = {}


class Case:
    def __init__(self, prop, name, fn, params, tier, bounds, weight, opts):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.tier, self.bounds, self.weight = tier, bounds, weight
        self.opts = opts

    @property
    def id(self):
        return "%s/%s" % (self.prop, self.name)


def case(prop, name=None, tier="quick", bounds="", weight=1.0, opts=None, **params):
    """Register a harness for a property (may be stacked)."""
    def deco(fn):
        n = name or fn.__name__
        key = (prop, n)
        if key in CASES:
            raise ValueError("duplicate case %s/%s" % key)
        CASES[key] = Case(prop, n, fn, params, tier, bounds or (fn.__doc__ or "").strip(),
                          weight, opts or {})
        return fn
    return deco


def cases_of(prop, tier):
    return [c for (p, _), c in CASES.items() if p == prop and (tier == "thorough" or c.tier == "quick")]


# -- shared condition helpers -----------------------------------------------------
from .core import Cond, cond, Rl, Bl, Ctx, lift  # noqa: E402


def lt(a, b):
    return Cond("lt", a, b)


def le(a, b):
    return Cond("le", a, b)


def gt(a, b):
    return Cond("lt", b, a)


def ge(a, b):
    return Cond("le", b, a)


def eq(a, b):
    return Cond("eq", a, b)


def all_(*cs):
    cs = [c for g in cs for c in (g if isinstance(g, (list, tuple)) else [g])]
    return Cond("and", *[cond(c) for c in cs])


def any_(*cs):
    cs = [c for g in cs for c in (g if isinstance(g, (list, tuple)) else [g])]
    return Cond("or", *[cond(c) for c in cs])


def fine(c):
    """Comparisons with a tolerance: decided with margins of that size."""
    return Cond("fine", cond(c))


def not_(c):
    return Cond("not", cond(c))


def implies(a, b):
    return Cond("or", Cond("not", cond(a)), cond(b))


def iff(a, b):
    """a: concrete bool, b: condition."""
    if isinstance(a, bool):
        return cond(b) if a else not_(b)
    return all_(implies(a, b), implies(b, a))


def same(A, B):
    """Element-wise equality of two sequences of numbers (shape included)."""
    import numpy as np
    A = [x for x in np.asarray(A, dtype=object).flat]
    B = [x for x in np.asarray(B, dtype=object).flat]
    if len(A) != len(B):
        return Cond("const", False)
    return all_([eq(a, b) for a, b in zip(A, B)])


def finite(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Rl):
        return Cond("const", x.s is None)
    return Cond("const", math.isfinite(float(x)))


# -- concrete back end --------------------------------------------------------------
class ConcV:
    sym = False

    def __init__(self, inputs, tol=TOL, ties=False):
        self.inp = dict(inputs)
        self.tol = tol
        self.ties = ties           # decide boundary cases by exact equality of the floats
        self.fails = []
        self.reached = []
        self.obs = []
        self.cleanup = []
        self.invalid = None

    # inputs
    def _get(self, name, default):
        v = self.inp.get(name, default)
        return Fraction(v) if isinstance(v, str) else v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = Fraction(lo if lo is not None else (hi if hi is not None else 1))
        if lo is not None and hi is not None:
            d = (Fraction(lo) + Fraction(hi)) / 2
        return float(self._get(name, d))

    def symint(self, name, lo, hi):
        return int(self._get(name, lo))

    def pick(self, name, options):
        options = list(options)
        i = int(self._get(name, 0))
        return options[i if 0 <= i < len(options) else 0]

    def int(self, name, lo, hi):
        return self.pick(name, range(lo, hi + 1))

    def bool(self, name):
        return self.pick(name, [False, True])

    def unit2(self, name, half=True):
        u, v = self._get(name + ".u", 1), self._get(name + ".v", 0)
        u, v = float(u), float(v)
        r = math.hypot(u, v) or 1.0
        return u / r, v / r

    def unit3(self, name):
        u, v, w = (float(self._get(name + k, d)) for k, d in ((".u", 1), (".v", 0), (".w", 0)))
        r = math.sqrt(u * u + v * v + w * w) or 1.0
        return u / r, v / r, w / r

    @property
    def spsolve(self):
        from scipy.sparse.linalg import spsolve
        return spsolve

    @property
    def csc(self):
        from scipy.sparse import csc_matrix
        return csc_matrix

    # numbers
    def q(self, x):
        return float(Fraction(x)) if not isinstance(x, float) else x

    def arr(self, xs, shape=None):
        import numpy as np
        a = np.array([float(x) for x in xs], dtype=float)
        return a if shape is None else a.reshape(shape)

    def ints(self, xs):
        import numpy as np
        return np.array([int(x) for x in xs], dtype=int)

    def num(self, x):
        return float(x)

    def frame(self, cols, index=None, attrs=None):
        """DataFrame with integer (list of int) and real columns."""
        import numpy as np
        import pandas as pd
        df = pd.DataFrame({c: (np.array(v, dtype=int) if all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in v) and len(v)
                               else np.array([float(e) for e in v], dtype=float)) for c, v in cols.items()})
        if index is not None:
            df.index = list(index)
        if attrs is not None:
            df.attrs = dict(attrs)
        return df

    # logic
    def assume(self, c):
        m = cond(c).margin()
        if m < -1e-7:
            raise AssumeFailed()

    def lemma(self, c):
        pass

    def proves(self, c):
        return False

    def decide(self, c):
        m = cond(c).margin()
        return m >= (-1e-12)

    def check(self, label, c, exact=False):
        c = cond(c)
        self.reached.append(label)
        if exact:
            if not c.holds():
                self.fails.append((label, "exact"))
            return
        if self.ties and c.tri(self.tol) is False:
            self.fails.append((label, "tie"))
            return
        m = c.margin()
        if m < -self.tol:
            self.fails.append((label, m if math.isfinite(m) else str(m)))

    def fail(self, label):
        self.reached.append(label)
        self.fails.append((label, "reached"))

    def reach(self, label):
        self.reached.append(label)

    def observe(self, name, value):
        import numpy as np
        try:
            vals = [float(x) for x in np.asarray(value, dtype=object).flat]
        except Exception:
            vals = [str(value)]
        self.obs.append([name, vals])

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def rng(self):
        import numpy as np
        return np.random

    def possible(self, label, c):
        """c must hold for some outcome of the random generator (here: for this one)."""
        self.check(label, c, exact=True)

    def stub_random(self, draw=None):
        import numpy as np
        self.done()
        rng = ConcRandom(self)
        rng.hook = draw
        saved = {}
        for k in ("seed", "uniform", "random", "random_sample", "rand", "ranf", "sample",
                  "default_rng", "RandomState"):
            saved[k] = getattr(np.random, k)
            setattr(np.random, k, getattr(rng, k))
        self.cleanup.append(lambda: [setattr(np.random, k, v) for k, v in saved.items()])

    def set_points(self, f):
        from . import provider
        provider.state["points"] = f

    def done(self):
        for f in self.cleanup:
            f()
        self.cleanup = []


class ConcRandom:
    def __init__(self, V, hook=None):
        self.V = V
        self.hook = hook
        self.key = ("prior",)
        self.pos = 0
        self.fresh = 0

    def seed(self, s=None):
        self.pos = 0
        if s is None:
            self.fresh += 1
            self.key = ("entropy", self.fresh)
        else:
            self.key = ("seed", int(s))

    def _unit(self):
        name = "draw:%s:%d" % ("/".join(str(k) for k in self.key), self.pos)
        self.pos += 1
        if self.hook is not None:
            return min(max(float(self.hook(self.key, self.pos - 1)), 0.0), 1 - 2.0 ** -53)
        if name not in self.V.inp:
            alt = "draw:seed/S:%d" % (self.pos - 1)
            name = alt if alt in self.V.inp and self.key[0] == "seed" else name
        x = float(self.V._get(name, Fraction(3, 8)))
        return min(max(x, 0.0), 1 - 2.0 ** -53)

    def _arr(self, size, f):
        import numpy as np
        if size is None:
            return f()
        n = np.empty(size)
        for i in range(n.size):
            n.flat[i] = f()
        return n

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        if np.ndim(low) or np.ndim(high):
            L, H = np.broadcast_arrays(low, high)
            L, H = (np.broadcast_to(a, L.shape if size is None else size) for a in (L, H))
            o = np.empty(L.shape)
            for i in range(o.size):
                o.flat[i] = L.flat[i] + (H.flat[i] - L.flat[i]) * self._unit()
            return o
        return self._arr(size, lambda: low + (high - low) * self._unit())

    def random(self, size=None):
        return self._arr(size, self._unit)
    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._arr(shape or None, self._unit)

    def default_rng(self, s=None):
        r = ConcRandom(self.V, self.hook)
        if s is None:
            self.fresh += 1
            r.key = ("entropy", self.fresh)
        else:
            r.key = ("rng", int(s))
        return r

    def RandomState(self, s=None):
        r = ConcRandom(self.V, self.hook)
        r.fresh = self.fresh
        r.seed(s)
        return r
