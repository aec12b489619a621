"""Symbolic execution core.

Real numbers are kept as exact quotients of polynomials (``Rl``), booleans as z3
terms (``Bl``).  The code under test runs unchanged on these values; whenever it
asks for the truth value of a symbolic condition the engine forks the path
(depth-first re-execution, the solver decides which sides are feasible).
"""
import math
import numbers
import time
from fractions import Fraction

import z3

F0, F1 = Fraction(0), Fraction(1)


# ----------------------------------------------------------------------------
# control-flow exceptions (BaseException: the code under test cannot swallow them)
# ----------------------------------------------------------------------------
class Abort(BaseException):
    """Stop the current path."""


class PathLimit(Abort):
    pass


class Unencodable(Exception):
    """A stand-in does not cover this operation (becomes an 'unencodable' path)."""


# ----------------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}, monomial = tuple of (var, exp) sorted
# ----------------------------------------------------------------------------
def p_const(c):
    return {(): c} if c else {}


def p_add(p, q, sgn=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c if sgn == 1 else -c
        else:
            v = v + c if sgn == 1 else v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(p, q, rules):
    if not p or not q:
        return {}
    if len(q) < len(p):
        p, q = q, p
    if len(p) == 1 and () in p:
        return p_scale(q, p[()])
    r = {}
    need = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            if rules and not need:
                for v, e in m:
                    if e >= 2 and v in rules:
                        need = True
                        break
            c = r.get(m)
            c = c1 * c2 if c is None else c + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    if need:
        r = p_reduce(r, rules)
    return r


def p_reduce(p, rules):
    """Rewrite v**2 -> rules[v] until no reducible power is left."""
    out = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        hit = None
        for v, e in m:
            if e >= 2 and v in rules:
                hit = (v, e)
                break
        if hit is None:
            s = out.get(m, 0) + c
            if s:
                out[m] = s
            else:
                out.pop(m, None)
            continue
        v, e = hit
        rest = tuple((w, k) for w, k in m if w != v)
        if e > 2:
            rest = _mmul(rest, ((v, e - 2),))
        for m2, c2 in rules[v].items():
            work.append((_mmul(rest, m2), c * c2))
    return out


def p_is_const(p):
    return not p or (len(p) == 1 and () in p)


def p_cval(p):
    return p.get((), F0)


def p_key(p):
    return frozenset(p.items())


def p_lead(p):
    return max(p)  # deterministic choice of a monomial


def p_divexact(p, q):
    """Exact quotient p/q, or None.  Multivariate division with lex order."""
    if not p:
        return {}
    if p_is_const(q):
        return p_scale(p, 1 / p_cval(q))
    if len(p) * len(q) > 4000:
        return None
    vs = sorted({v for m in list(p) + list(q) for v, _ in m})

    def order(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)
    ql = max(q, key=order)
    qd = dict(ql)
    qc = q[ql]
    r, out = dict(p), {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        rl = max(r, key=order)
        rd = dict(rl)
        for v, e in qd.items():
            if rd.get(v, 0) < e:
                return None
        t = tuple(sorted((v, e - qd.get(v, 0)) for v, e in rd.items() if e - qd.get(v, 0)))
        c = r[rl] / qc
        out[t] = c
        for m, k in q.items():
            mm = _mmul(m, t)
            s = r.get(mm, 0) - k * c
            if s:
                r[mm] = s
            else:
                r.pop(mm, None)
    return out


def p_mono_content(p):
    """Largest monomial dividing every term."""
    it = iter(p)
    d = dict(next(it))
    for m in it:
        if not d:
            break
        dm = dict(m)
        d = {v: min(e, dm[v]) for v, e in d.items() if v in dm}
    return d


def p_div_mono(p, d):
    if not d:
        return p
    out = {}
    for m, c in p.items():
        mm = tuple((v, e - d.get(v, 0)) for v, e in m if e - d.get(v, 0))
        out[mm] = c
    return out


# ----------------------------------------------------------------------------
# context of the run
# ----------------------------------------------------------------------------
class Stats:
    FIELDS = ["paths", "infeasible", "queries", "sat", "unsat", "unknown",
              "solver_s", "asserts", "asserts_solver", "asserts_struct", "undecided", "concretised", "rounding",
              "unencodable", "forks", "raised", "cache_hits", "cvc5_queries",
              "cvc5_disagree", "unexplored", "spurious", "limit_paths"]

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Var:
    __slots__ = ("id", "name", "z", "kind")


class Ctx:
    cur = None

    def __init__(self, timeout_ms=8000, assert_ms=60000, max_branches=4000):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.assert_ms = assert_ms
        self.cache = {}
        self.zcache = {}
        self.deadline = None
        self.max_branches = max_branches
        self.reset([])
        self.todo = []

    # -- per-path state -------------------------------------------------------
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []          # decisions taken
        self.pc = []             # path condition (z3 Bool), incl. axioms
        self.pcset = set()
        self.vars = []           # Var by id
        self.names = {}
        self.rules = {}
        self.inputs = {}         # name -> Rl, in order of creation
        self.sqrtmemo = {}
        self.divmemo = {}
        self.model = None        # model of pc known to hold (or None)
        self.flags = set()       # 'concretised', 'unknown-feasibility'
        self.notes = []

    # -- variables ------------------------------------------------------------
    def var(self, name, kind="real"):
        base, k = name, 1
        while name in self.names:
            k += 1
            name = "%s#%d" % (base, k)
        v = Var()
        v.id = len(self.vars)
        v.name = name
        v.kind = kind
        v.z = z3.Int(name) if kind == "int" else z3.Real(name)
        self.vars.append(v)
        self.names[name] = v
        return v

    def real(self, name, inp=True):
        v = self.var(name)
        r = Rl({((v.id, 1),): F1})
        if inp:
            self.inputs[v.name] = r
        return r

    def integer(self, name, inp=True):
        v = self.var(name, "int")
        r = Rl({((v.id, 1),): F1})
        if inp:
            self.inputs[v.name] = r
        return r

    # -- z3 conversion --------------------------------------------------------
    def z(self, p):
        k = (p_key(p), tuple(sorted({(v, self.vars[v].name) for m in p for v, _ in m})))
        e = self.zcache.get(k)
        if e is None:
            terms = []
            for m in sorted(p):
                c = p[m]
                f = [] if c == 1 and m else [z3.RealVal(c)]
                for v, ex in m:
                    t = self.vars[v].z
                    if self.vars[v].kind == "int":
                        t = z3.ToReal(t)
                    f += [t] * ex
                t = f[0]
                for g in f[1:]:
                    t = t * g
                terms.append(t)
            e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.zcache[k] = e
        return e

    # -- solver ---------------------------------------------------------------
    def assume(self, cond):
        """Add a constraint (no fork).  cond: Bl or bool."""
        if isinstance(cond, Cond):
            cond = cond.bl()
        if isinstance(cond, Bl):
            e = cond.e
        elif cond:
            return
        else:
            raise Abort("false assumption")
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Abort("false assumption")
        self._push(e)

    def _push(self, e):
        i = e.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(e)
        if self.model is not None and not self._holds(self.model, e):
            self.model = None

    @staticmethod
    def _holds(model, e):
        try:
            return z3.is_true(model.eval(e, model_completion=True))
        except z3.Z3Exception:
            return False

    def slice(self, extra):
        """Constraints of pc transitively sharing variables with extra."""
        want = set()
        for e in extra:
            want |= self._vars_of(e)
        left = [(c, self._vars_of(c)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, vs in left:
                if vs & want:
                    out.append(c)
                    want |= vs
                    changed = True
                else:
                    rest.append((c, vs))
            left = rest
        return out

    _vcache = {}

    def _vars_of(self, e):
        k = e.get_id()
        hit = Ctx._vcache.get(k)
        if hit is not None and hit[0].eq(e):
            return hit[1]
        seen, stack, out = set(), [e], set()
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
        out = frozenset(out)
        Ctx._vcache[k] = (e, out)
        return out

    def query(self, extra, timeout_ms=None, want_model=False, full=False):
        """check-sat of pc & extra -> ('sat'|'unsat'|'unknown', model|None)"""
        base = list(self.pc) if full else self.slice(extra)
        cs = base + list(extra)
        key = frozenset(c.get_id() for c in cs)
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != "unknown" or (timeout_ms or 0) <= hit[3]):
            self.stats.cache_hits += 1
            if not want_model or hit[1] is not None or hit[0] != "sat":
                return hit[0], hit[1]
        tmo = timeout_ms or self.timeout_ms
        t0 = time.time()
        res, model = self._solve(cs, tmo)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        self.cache[key] = (res, model, cs, tmo)
        return res, model

    def _solve(self, cs, tmo):
        left = tmo
        for attempt in self._portfolio(cs):
            t0 = time.time()
            s = attempt[0]()
            s.set("timeout", int(max(200, min(left, attempt[1] * tmo))))
            s.add(*cs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
            left -= (time.time() - t0) * 1000
            if left < 300:
                break
        return "unknown", None

    @staticmethod
    def _portfolio(cs):
        return [(z3.Solver, 0.4), (z3.SimpleSolver, 0.3),
                (lambda: z3.Tactic("qfnra-nlsat").solver(), 1.0)]

    # -- branching ------------------------------------------------------------
    def branch(self, e):
        """Decide a symbolic boolean, forking if both sides are feasible."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        if i in self.pcset:
            return True
        ne = z_not(e)
        if ne.get_id() in self.pcset:
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d[0] == "f":
                self._push(e if d[1] else ne)
            # implied decisions need not be pushed
            return d[1]
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("deadline")
        if len(self.trail) > self.max_branches:
            raise PathLimit("branches")
        side = None
        if self.model is not None:
            side = self._holds(self.model, e)
            res = "sat"
            mod = self.model
        if side is None:
            res, mod = self.query([e], want_model=True)
            side = True
            if res == "unsat":
                self.trail.append(("i", False))
                self.pos += 1
                return False
        other = ne if side else e
        ores, omod = self.query([other], want_model=True)
        self.pos += 1
        if ores == "unsat":
            self.trail.append(("i", side))
            return side
        if ores == "unknown" or res == "unknown":
            self.flags.add("unknown-feasibility")
        # fork
        self.stats.forks += 1
        self.todo.append(self.trail + [("f", not side)])
        self.trail.append(("f", side))
        self._push(e if side else ne)
        return side

    def full_model(self, extra=(), timeout_ms=None):
        """A model of the whole path condition (+extra)."""
        if self.model is not None and not extra:
            return "sat", self.model
        res, m = self.query(list(extra), timeout_ms=timeout_ms or self.assert_ms,
                            want_model=True, full=True)
        if res == "sat" and not extra:
            self.model = m
        return res, m

    def refresh_model(self):
        if self.model is None:
            res, m = self.query([], want_model=True, full=True, timeout_ms=2000)
            if res == "sat":
                self.model = m

    def choose_int(self, r):
        """Concretise an integer-valued Rl by complete case split."""
        z = z3.simplify(r.zreal())
        lo = 0
        while True:
            res, m = self.query([], want_model=True, full=True) if self.model is None else ("sat", self.model)
            if res != "sat":
                raise Abort("no model for int choice")
            val = m.eval(z, model_completion=True)
            f = z3_to_fraction(val)
            if f is None or f.denominator != 1:
                raise Unencodable("non-integer value used as an index")
            # branch on equality; deterministic prefix replay needs the same value
            v = self._int_decision(int(f))
            if self.branch(z == v):
                return v
            lo += 1
            if lo > 256:
                raise PathLimit("int split")

    def _int_decision(self, v):
        # record the proposed value in the trail so that replay proposes it again
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            return d[1]
        self.trail.append(("v", v))
        self.pos += 1
        return v


def z_not(e):
    return e.arg(0) if z3.is_not(e) else z3.Not(e)


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.as_fraction()
    return None


# ----------------------------------------------------------------------------
# symbolic booleans
# ----------------------------------------------------------------------------
class Bl:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        return mkbool(self.e == bexpr(o))

    def __ne__(self, o):
        return mkbool(self.e != bexpr(o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "Bl(%s)" % self.e

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def logical_not(self):
        return ~self

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


def bexpr(o):
    if isinstance(o, Bl):
        return o.e
    return z3.BoolVal(bool(o))


def mkbool(e):
    e = z3.simplify(e) if z3.is_and(e) or z3.is_or(e) or z3.is_not(e) else e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Bl(e)


# ----------------------------------------------------------------------------
# symbolic reals
# ----------------------------------------------------------------------------
INF, NAN = float("inf"), float("nan")


def lift(o):
    """Any number -> Rl, or None."""
    if isinstance(o, Rl):
        return o
    if isinstance(o, Bl):
        return Rl(p_const(Fraction(int(bool(o)))))
    if isinstance(o, bool):
        return Rl(p_const(Fraction(int(o))))
    if isinstance(o, (int, Fraction)):
        return Rl(p_const(Fraction(o)))
    if isinstance(o, float) or isinstance(o, numbers.Real) and not isinstance(o, numbers.Rational):
        o = float(o)
        if math.isnan(o) or math.isinf(o):
            return Rl(None, special=o)
        return Rl(p_const(Fraction(o)))
    if isinstance(o, numbers.Integral):
        return Rl(p_const(Fraction(int(o))))
    if type(o).__name__ in ("bool_", "bool"):
        return Rl(p_const(Fraction(int(o))))
    if getattr(o, "shape", None) == () and hasattr(o, "item") and hasattr(o, "ndim"):
        return lift(o[()])
    return None


_ONE = {(): F1}


class Rl(numbers.Number):
    """num/den with den > 0 on the current path; or a special float (inf, nan);
    or (lazily) the square root of a non-negative Rl."""
    __slots__ = ("n", "d", "s", "sq")
    __array_priority__ = 0

    def __init__(self, n, d=_ONE, special=None, sq=None):
        self.n = n
        self.d = d
        self.s = special
        self.sq = sq

    # -- helpers --------------------------------------------------------------
    @property
    def const(self):
        if self.s is None and self.n is not None and p_is_const(self.n) and p_is_const(self.d):
            return p_cval(self.n) / p_cval(self.d)
        return None

    def mat(self):
        """Materialise a lazy square root."""
        if self.sq is not None and self.n is None:
            ctx = Ctx.cur
            S = self.sq
            key = (p_key(S.n), p_key(S.d))
            v = ctx.sqrtmemo.get(key)
            if v is None:
                v = ctx.var("sqrt")
                ctx.sqrtmemo[key] = v
                rv = Rl({((v.id, 1),): F1})
                ctx._push(v.z >= 0)
                if p_is_const(S.d):
                    num = p_scale(S.n, 1 / p_cval(S.d))
                    ctx._push(v.z * v.z == ctx.z(num))
                    ctx.rules[v.id] = num
                else:
                    ctx._push(v.z * v.z * ctx.z(S.d) == ctx.z(S.n))
                ctx.model = None
            self.n = {((v.id, 1),): F1}
            self.d = _ONE
        return self

    def zreal(self):
        self.mat()
        ctx = Ctx.cur
        if self.s is not None:
            raise Unencodable("special value in a solver term")
        if p_is_const(self.d):
            return ctx.z(p_scale(self.n, 1 / p_cval(self.d)))
        return ctx.z(self.n) / ctx.z(self.d)

    def sgn_expr(self, op):
        """z3 term for self op 0 (den > 0)."""
        self.mat()
        ctx = Ctx.cur
        p = self.n
        if p_is_const(p):
            c = p_cval(p)
            return z3.BoolVal({"<": c < 0, "<=": c <= 0, "==": c == 0,
                               ">": c > 0, ">=": c >= 0, "!=": c != 0}[op])
        if op in ("<", ">="):
            # sums of even powers with positive coefficients are never negative
            if all(c > 0 and all(ex % 2 == 0 for _, ex in m) for m, c in p.items()):
                return z3.BoolVal(op == ">=")
        # canonical scale: leading coefficient magnitude 1
        lead = p[p_lead(p)]
        sc = 1 / abs(lead)
        p = p_scale(p, sc)
        if lead < 0:
            p = p_scale(p, Fraction(-1))
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        e = ctx.z(p)
        if op == "<":
            return e < 0
        if op == "<=":
            return e <= 0
        if op == ">":
            return z3.Not(e <= 0)
        if op == ">=":
            return z3.Not(e < 0)
        if op == "==":
            return e == 0
        return z3.Not(e == 0)

    def sign(self):
        """-1, 0 or 1; forks."""
        c = self.const
        if c is not None:
            return (c > 0) - (c < 0)
        ctx = Ctx.cur
        if ctx.branch(self.sgn_expr(">")):
            return 1
        if ctx.branch(self.sgn_expr("==")):
            return 0
        return -1

    # -- arithmetic -----------------------------------------------------------
    def _bin(self, o, f):
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, _add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: _add(a, b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _add(b, a, -1))

    def __mul__(self, o):
        return self._bin(o, _mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(b, a))

    def __neg__(self):
        if self.s is not None:
            return Rl(None, special=-self.s)
        self.mat()
        return Rl(p_scale(self.n, Fraction(-1)), self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.s is not None:
            return Rl(None, special=abs(self.s))
        c = self.const
        if c is not None:
            return lift(abs(c))
        if self.sq is not None:
            return self
        ctx = Ctx.cur
        # known sign?
        if ctx.branch(self.sgn_expr(">=")):
            return self
        return -self

    def __pow__(self, k):
        k2 = lift(k)
        if k2 is None:
            return NotImplemented
        c = k2.const
        if c is None:
            raise Unencodable("symbolic exponent")
        if self.sq is not None and c == 2 and self.n is None:
            return self.sq
        if c.denominator == 1:
            c = int(c)
            if c == 0:
                return lift(1)
            r = self
            for _ in range(abs(c) - 1):
                r = r * self
            return r if c > 0 else lift(1) / r
        if c == Fraction(1, 2):
            return self.sqrt()
        raise Unencodable("fractional exponent")

    def __rpow__(self, o):
        c = self.const
        if c is not None:
            return lift(o) ** c
        raise Unencodable("symbolic exponent")

    def sqrt(self):
        if self.s is not None:
            return lift(math.sqrt(self.s)) if not self.s < 0 else lift(NAN)
        c = self.const
        if c is not None:
            if c < 0:
                return lift(NAN)
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return lift(Fraction(rn, rd))
            return Rl(None, sq=self)
        self.mat()
        q = p_perfect_square(self.n) if p_is_const(self.d) else None
        if q is not None:
            return abs(Rl(p_scale(q, Fraction(1)), _ONE) / _rsqrt(p_cval(self.d))) \
                if _rsqrt(p_cval(self.d)) else Rl(None, sq=self)
        if self < 0:
            return lift(NAN)
        return Rl(None, sq=self)

    # -- comparisons ----------------------------------------------------------
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if self.s is not None or o.s is not None:
            a = self.s if self.s is not None else 0.0
            b = o.s if o.s is not None else 0.0
            return {"<": a < b, "<=": a <= b, "==": a == b,
                    ">": a > b, ">=": a >= b, "!=": a != b}[op]
        if self is o:
            return op in ("<=", "==", ">=")
        # lazy square roots: compare squares
        if self.sq is not None and self.n is None or o.sq is not None and o.n is None:
            r = _cmp_sqrt(self, o, op)
            if r is not None:
                return r
        d = _add(self, o, -1)
        return mkbool(d.sgn_expr(op))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return 7

    def __bool__(self):
        if self.s is not None:
            return True
        return bool(self != 0)

    # -- conversions ----------------------------------------------------------
    def __float__(self):
        if self.s is not None:
            return self.s
        c = self.const
        if c is not None:
            return float(c)
        return float(concretise(self))

    def __int__(self):
        if self.s is not None:
            raise ValueError("cannot convert float %r to integer" % self.s)
        c = self.const
        if c is not None:
            return int(c)
        ctx = Ctx.cur
        r = self
        if not self.is_int():
            r = self.__trunc__sym()
        return ctx.choose_int(r)

    def is_int(self):
        return (self.s is None and self.n is not None and p_is_const(self.d)
                and all(Ctx.cur.vars[v].kind == "int" for m in self.n for v, _ in m)
                and all(c.denominator == 1 for c in p_scale(self.n, 1 / p_cval(self.d)).values()))

    def __index__(self):
        c = self.const
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integer index")
            return int(c)
        return int(self)

    def __trunc__sym(self):
        f = self.floor()
        if self < 0:
            return -((-self).floor())
        return f

    def floor(self):
        if self.s is not None:
            return self
        c = self.const
        if c is not None:
            return lift(math.floor(c))
        if self.is_int():
            return self
        ctx = Ctx.cur
        k = ctx.integer("floor", inp=False)
        ctx.assume(k <= self)
        ctx.assume(self < k + 1)
        ctx.model = None
        return k

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    def rint(self):
        # ties to even are split off as a fork
        f = self.floor()
        d = self - f
        if d < Fraction(1, 2):
            return f
        if d > Fraction(1, 2):
            return f + 1
        k = f.__floordiv__(2) * 2
        return f if f == k else f + 1

    def __round__(self, nd=None):
        if nd:
            return self.round_digits(int(nd))
        return self.rint()

    def round_digits(self, nd):
        """Nearest multiple of 10**-nd (either one at a tie)."""
        if self.s is not None:
            return self
        S = Fraction(10) ** nd
        c = self.const
        if c is not None:
            return lift(round(float(c), nd))
        ctx = Ctx.cur
        self.mat()
        key = ("round", nd, p_key(self.n), p_key(self.d))
        k = ctx.divmemo.get(key)
        if k is None:
            k = ctx.divmemo[key] = ctx.integer("round", inp=False)
            ctx.assume(2 * (self * S - k) <= 1)
            ctx.assume(2 * (k - self * S) <= 1)
            ctx.model = None
        return k / lift(S)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.trunc()

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return lift(o) % self

    def __format__(self, spec):
        c = self.const
        if c is not None:
            return format(float(c), spec)
        if self.s is not None:
            return format(self.s, spec)
        return "<sym>"

    def __repr__(self):
        if self.s is not None:
            return repr(self.s)
        c = self.const
        if c is not None:
            return repr(float(c))
        if self.n is None:
            return "<sqrt>"
        try:
            return "<%s>" % z3.simplify(self.zreal())
        except Exception:
            return "<sym>"
    __str__ = __repr__

    # numpy calls these for object arrays
    def conjugate(self):
        return self

    def conj(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0)

    def item(self):
        return self

    # methods of numpy scalars
    def copy(self, *a, **k):
        return self

    max = min = sum = mean = copy

    def all(self, *a, **k):
        return bool(self != 0)

    any = all

    def square(self):
        return self * self

    def hypot(self, o):
        return (self * self + lift(o) * lift(o)).sqrt()

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return s / c

    def arctan2(self, o):
        raise Unencodable("arctan2")

    def isnan(self):
        return self.s is not None and math.isnan(self.s)

    def isinf(self):
        return self.s is not None and math.isinf(self.s)

    def isfinite(self):
        return self.s is None

    def logical_not(self):
        return not bool(self)

    def reciprocal(self):
        return lift(1) / self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value pickled")


numbers.Number.register(Rl)


def _rsqrt(c):
    if c < 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(rn, rd) if rn * rn == c.numerator and rd * rd == c.denominator else None


def p_perfect_square(p):
    """q with q*q == p for the easy cases (monomials, squares of linear forms)."""
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        r = _rsqrt(c)
        if r is None or any(e % 2 for _, e in m):
            return None
        return {tuple((v, e // 2) for v, e in m): r}
    if len(p) > 30:
        return None
    # square of a sum of distinct degree-1 (or constant) terms
    sq = [(m, c) for m, c in p.items() if not m or (len(m) == 1 and m[0][1] == 2)]
    q = {}
    first = None
    for m, c in sorted(sq):
        r = _rsqrt(c)
        if r is None:
            return None
        t = () if not m else ((m[0][0], 1),)
        if first is None:
            first = t
            q[t] = r
        else:
            cross = p.get(_mmul(first, t), F0)
            if not cross:
                return None
            q[t] = cross / (2 * q[first])
    if not q:
        return None
    if p_mul(q, q, None) == p:
        return q
    return None


def _norm(n, d):
    """Normalise a quotient (den > 0 stays > 0)."""
    if not n:
        return Rl({}, _ONE)
    if p_is_const(d):
        c = p_cval(d)
        return Rl(n if c == 1 else p_scale(n, 1 / c), _ONE)
    # exact division
    q = p_divexact(n, d)
    if q is not None:
        return Rl(q, _ONE)
    lead = d[p_lead(d)]
    if abs(lead) != 1:
        k = 1 / abs(lead)
        n, d = p_scale(n, k), p_scale(d, k)
    return Rl(n, d)


def _add(a, b, sgn=1):
    if a.s is not None or b.s is not None:
        x = a.s if a.s is not None else 0.0
        y = b.s if b.s is not None else 0.0
        return lift(x + sgn * y)
    a.mat(), b.mat()
    if a.d == b.d:
        return _norm(p_add(a.n, b.n, sgn), a.d)
    R = Ctx.cur.rules if Ctx.cur else None
    # try to use one denominator as a multiple of the other
    if p_is_const(b.d):
        return _norm(p_add(a.n, p_mul(b.n, a.d, R), sgn), a.d)
    if p_is_const(a.d):
        return _norm(p_add(p_mul(a.n, b.d, R), b.n, sgn), b.d)
    q = p_divexact(a.d, b.d)
    if q is not None:
        return _norm(p_add(a.n, p_mul(b.n, q, R), sgn), a.d)
    q = p_divexact(b.d, a.d)
    if q is not None:
        return _norm(p_add(p_mul(a.n, q, R), b.n, sgn), b.d)
    return _norm(p_add(p_mul(a.n, b.d, R), p_mul(b.n, a.d, R), sgn), p_mul(a.d, b.d, R))


def _mul(a, b):
    if a.s is not None or b.s is not None:
        x, y = (a, b) if a.s is not None else (b, a)
        if math.isnan(x.s):
            return lift(NAN)
        s = y.s if y.s is not None else float(y.sign())
        return lift(x.s * s)
    if a.const == 0 or b.const == 0:
        return lift(0)
    if a.n is None and b.n is None and a.sq is b.sq:
        return a.sq
    a.mat(), b.mat()
    R = Ctx.cur.rules if Ctx.cur else None
    an, ad, bn, bd = a.n, a.d, b.n, b.d
    if not p_is_const(bd):
        q = p_divexact(an, bd)
        if q is not None:
            an, bd = q, _ONE
    if not p_is_const(ad):
        q = p_divexact(bn, ad)
        if q is not None:
            bn, ad = q, _ONE
    return _norm(p_mul(an, bn, R), p_mul(ad, bd, R))


def _div(a, b):
    if b.s is not None:
        if a.s is not None or math.isnan(b.s):
            return lift(NAN)
        return lift(0)      # finite / inf (sign of zero dropped)
    sb = b.sign()
    if sb == 0:             # numpy semantics of float division by zero
        if a.s is not None:
            return lift(a.s)
        sa = a.sign()
        return lift(NAN if sa == 0 else (INF if sa > 0 else -INF))
    if a.s is not None:
        return lift(a.s * sb)
    a.mat(), b.mat()
    n, d = b.d, b.n
    if sb < 0:
        n, d = p_scale(n, Fraction(-1)), p_scale(d, Fraction(-1))
    # cancel a common monomial when its sign is harmless is not attempted here
    r = _mul(a, Rl(n, d) if not p_is_const(d) else Rl(p_scale(n, 1 / p_cval(d)), _ONE))
    return r


def _cmp_sqrt(a, b, op):
    """Compare with lazy square roots without introducing a variable."""
    A = a.sq if a.sq is not None and a.n is None else None
    B = b.sq if b.sq is not None and b.n is None else None
    if A is not None and B is not None:
        return A._cmp(B, op)
    if B is not None:
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
        return _cmp_sqrt(b, a, flip[op])
    # sqrt(A) op b
    sqcmp = A._cmp(b * b, op)
    if op in ("<", "<="):
        g = b._cmp(0, ">" if op == "<" else ">=")
        return _and(g, sqcmp)
    if op in (">", ">="):
        g = b._cmp(0, "<" if op == ">" else "<=")
        if op == ">=":
            g = b._cmp(0, "<=")
        return _or(g, sqcmp)
    if op == "==":
        return _and(b._cmp(0, ">="), sqcmp)
    return _or(b._cmp(0, "<"), sqcmp)


def _and(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return mkbool(z3.And(bexpr(x), bexpr(y)))


def _or(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return mkbool(z3.Or(bexpr(x), bexpr(y)))


def trig(r):
    """(cos, sin) of a symbolic angle: fresh pair on the unit circle, one per angle."""
    ctx = Ctx.cur
    c = r.const
    if c == 0:
        return lift(1), lift(0)
    r.mat()
    key = ("trig", p_key(r.n), p_key(r.d))
    if key in ctx.divmemo:
        return ctx.divmemo[key]
    # parity: cos(-x) = cos x, sin(-x) = -sin x
    nkey = ("trig", p_key(p_scale(r.n, Fraction(-1))), p_key(r.d))
    if nkey in ctx.divmemo:
        cc, ss = ctx.divmemo[nkey]
        return cc, -ss
    cc = ctx.real("cos", inp=False)
    ss = ctx.real("sin", inp=False)
    cv, sv = ctx.vars[-2], ctx.vars[-1]
    ctx._push(cv.z * cv.z + sv.z * sv.z == 1)
    ctx._push(z3.And(cv.z >= -1, cv.z <= 1, sv.z >= -1, sv.z <= 1))
    ctx.rules[sv.id] = {(): F1, ((cv.id, 2),): -F1}
    # small-angle enclosures, valid for every real angle a:
    #   |sin a| <= |a|,  cos a >= 1 - a^2/2 ; and the sign facts on [-pi, pi]
    a = r.zreal()
    ctx._push(z3.And(z3.If(a >= 0, sv.z <= a, sv.z >= a), z3.If(a >= 0, sv.z >= -a, sv.z <= -a)))
    pi_lo, pi_hi = z3.RealVal("3.1415926"), z3.RealVal("3.1415928")
    ctx._push(z3.Implies(z3.And(a > 0, a <= pi_lo), sv.z > 0))
    ctx._push(z3.Implies(z3.And(a < 0, a >= -pi_lo), sv.z < 0))
    ctx._push(z3.Implies(z3.And(a <= pi_lo / 2, a >= -pi_lo / 2), cv.z >= 0))
    ctx._push(z3.Implies(z3.And(a >= pi_hi / 2, a <= 3 * pi_lo / 2), cv.z < 0))
    ctx._push(z3.Implies(z3.And(a <= -pi_hi / 2, a >= -3 * pi_lo / 2), cv.z < 0))
    ctx.model = None
    # monotonicity between the angles met so far (|a|, |b| in [0, pi])
    az = z3.If(a >= 0, a, -a)
    others = ctx.divmemo.setdefault("angles", [])
    for bz, bc in others:
        ctx._push(z3.Implies(z3.And(az <= pi_lo, bz <= pi_lo),
                             z3.And(z3.Implies(az < bz, cv.z > bc), z3.Implies(az == bz, cv.z == bc),
                                    z3.Implies(az > bz, cv.z < bc))))
    others.append((az, cv.z))
    ctx.divmemo[key] = (cc, ss)
    return cc, ss


def concretise(r):
    """float() on a symbolic value: pick the value of a model (under-approximation)."""
    ctx = Ctx.cur
    res, m = ctx.full_model()
    if res != "sat":
        raise Unencodable("cannot concretise")
    f = z3_to_fraction(m.eval(r.zreal(), model_completion=True))
    if f is None:
        raise Unencodable("cannot concretise")
    f = Fraction(ctx._int_decision(f))
    ctx.flags.add("concretised")
    ctx.assume(r == f)
    return f


# ----------------------------------------------------------------------------
# property conditions with a robust (margin) negation for replayable models
# ----------------------------------------------------------------------------
FINE = Fraction(1, 10 ** 7)


class Cond:
    """Small condition language over numbers.

    kinds: const(bool) | lt(a,b) | le(a,b) | eq(a,b) | and | or | not | bl
         | fine(c): c compares with a tolerance, its margins are that small too
    """

    def __init__(self, kind, *a):
        self.k = kind
        self.a = a

    def __and__(self, o):
        return Cond("and", self, cond(o))
    __rand__ = __and__

    def __or__(self, o):
        return Cond("or", self, cond(o))
    __ror__ = __or__

    def __invert__(self):
        return Cond("not", self)

    def __bool__(self):
        raise TypeError("Cond has no truth value; use V.decide")

    # exact term
    def bl(self):
        e = self.sat(0)
        return e if isinstance(e, (bool, Bl)) else mkbool(e)

    def sat(self, d):
        """z3 term: satisfied with margin d."""
        k, a = self.k, self.a
        if k == "const":
            return z3.BoolVal(bool(a[0])) if not isinstance(a[0], Bl) else a[0].e
        if k in ("lt", "le"):
            x, y = lift(a[0]), lift(a[1])
            if x.s is None and y.s is None:
                return bexpr((x + d) < y if (k == "lt" or d) else x <= y)
            return bexpr(x < y if k == "lt" else x <= y)
        if k == "eq":
            x, y = lift(a[0]), lift(a[1])
            if x.s is not None or y.s is not None:
                return z3.BoolVal(x.s is not None and y.s is not None
                                  and (x.s == y.s or (math.isnan(x.s) and math.isnan(y.s))))
            return bexpr(x == y)
        if k == "and":
            return z3.And(*[c.sat(d) for c in a])
        if k == "or":
            return z3.Or(*[c.sat(d) for c in a])
        if k == "not":
            return a[0].viol(d)
        if k == "fine":
            return a[0].sat(min(d, FINE))
        raise AssertionError(k)

    def viol(self, d):
        """z3 term: violated with margin d (d = 0: exact negation)."""
        k, a = self.k, self.a
        if k == "const":
            return z3.Not(self.sat(0))
        if k in ("lt", "le"):
            x, y = lift(a[0]), lift(a[1])
            if x.s is None and y.s is None:
                if d:
                    return bexpr((y + d) <= x)
                return bexpr(y <= x if k == "lt" else y < x)
            return z3.Not(self.sat(0))
        if k == "eq":
            x, y = lift(a[0]), lift(a[1])
            if x.s is not None or y.s is not None or not d:
                return z3.Not(self.sat(0))
            return z3.Or(bexpr((x + d) <= y), bexpr((y + d) <= x))
        if k == "and":
            return z3.Or(*[c.viol(d) for c in a])
        if k == "or":
            return z3.And(*[c.viol(d) for c in a])
        if k == "not":
            return a[0].sat(d)
        if k == "fine":
            return a[0].viol(min(d, FINE))
        raise AssertionError(k)

    # concrete evaluation: exact truth (float arithmetic)
    def holds(self):
        k, a = self.k, self.a
        if k == "const":
            return bool(a[0])
        if k == "lt":
            return bool(float(a[0]) < float(a[1]))
        if k == "le":
            return bool(float(a[0]) <= float(a[1]))
        if k == "eq":
            x, y = float(a[0]), float(a[1])
            return x == y or (math.isnan(x) and math.isnan(y))
        if k == "and":
            return all(c.holds() for c in a)
        if k == "or":
            return any(c.holds() for c in a)
        if k == "not":
            return not a[0].holds()
        if k == "fine":
            return a[0].holds()
        raise AssertionError(k)

    # concrete evaluation, three-valued: comparisons of numbers that differ by less than the
    # tolerance count only when they are exactly equal
    def tri(self, tol):
        k, a = self.k, self.a
        if k == "const":
            return bool(a[0])
        if k in ("lt", "le", "eq"):
            x, y = float(a[0]), float(a[1])
            if x == y:
                return k != "lt"
            if math.isnan(x) or math.isnan(y):
                return k == "eq" and math.isnan(x) and math.isnan(y)
            if not (math.isinf(x) or math.isinf(y)) and abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
                return None
            return False if k == "eq" else x < y
        if k == "fine":
            return a[0].tri(float(FINE) / 10)
        if k == "not":
            t = a[0].tri(tol)
            return None if t is None else not t
        ts = [c.tri(tol) for c in a]
        if k == "and":
            return False if False in ts else None if None in ts else True
        if k == "or":
            return True if True in ts else None if None in ts else False
        raise AssertionError(k)

    # concrete evaluation: signed margin, > 0 satisfied
    def margin(self):
        k, a = self.k, self.a
        if k == "const":
            return math.inf if a[0] else -math.inf
        if k in ("lt", "le"):
            x, y = float(a[0]), float(a[1])
            if math.isnan(x) or math.isnan(y):
                return -math.inf
            if math.isinf(x) or math.isinf(y):
                return math.inf if (x < y or (k == "le" and x == y)) else -math.inf
            return (y - x) / max(1.0, abs(x), abs(y))
        if k == "eq":
            x, y = float(a[0]), float(a[1])
            if math.isnan(x) and math.isnan(y):
                return 0.0
            if math.isnan(x) or math.isnan(y):
                return -math.inf
            if math.isinf(x) or math.isinf(y):
                return 0.0 if x == y else -math.inf
            return -abs(x - y) / max(1.0, abs(x), abs(y))
        if k == "and":
            return min([c.margin() for c in a], default=math.inf)
        if k == "or":
            return max([c.margin() for c in a], default=-math.inf)
        if k == "not":
            return -a[0].margin()
        if k == "fine":
            m = a[0].margin()
            return math.copysign(math.inf, m) if abs(m) > float(FINE) / 10 else 0.0
        raise AssertionError(k)


def cond(o):
    if isinstance(o, Cond):
        return o
    return Cond("const", o)
