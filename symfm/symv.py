"""Symbolic back end of the harness interface and the path runner."""
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp
import z3

from . import core, provider
from .core import (Abort, Bl, Cond, Ctx, F1, PathLimit, Rl, Unencodable, bexpr, cond, lift,
                   mkbool, z3_to_fraction)
from .harness import AssumeFailed

DELTAS = (Fraction(1, 50), Fraction(1, 2000), Fraction(1, 10 ** 5), Fraction(0))


class Violated(Abort):
    """A check has a counterexample on this path."""


class SymV:
    sym = True

    def __init__(self, ctx, case, rec):
        self.ctx, self.case, self.rec = ctx, case, rec
        self.obs = []
        self.reached = []
        self.pending = []          # (label, Cond, z3 viol) to decide at the end of the path

    # inputs -------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        c = self.ctx
        x = c.real(name)
        if lo is not None:
            c.assume(x > lo if lo_open else x >= lo)
        if hi is not None:
            c.assume(x < hi if hi_open else x <= hi)
        return x

    def symint(self, name, lo, hi):
        c = self.ctx
        x = c.integer(name)
        c.assume(x >= lo)
        c.assume(x <= hi)
        return x

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        x = self.symint(name, 0, len(options) - 1)
        return options[self.ctx.choose_int(x)]

    def int(self, name, lo, hi):
        return self.pick(name, range(lo, hi + 1))

    def bool(self, name):
        return self.pick(name, [False, True])

    def unit2(self, name, half=True):
        """Arbitrary unit vector of the plane (half: u >= 0, as generated by Mat)."""
        c = self.ctx
        u = c.real(name + ".u")
        v = c.real(name + ".v")
        uv, vv = c.vars[-2], c.vars[-1]
        c._push(uv.z * uv.z + vv.z * vv.z == 1)
        c._push(z3.And(uv.z >= (0 if half else -1), uv.z <= 1, vv.z >= -1, vv.z <= 1))
        c.rules[vv.id] = {(): F1, ((uv.id, 2),): -F1}
        return u, v

    def unit3(self, name):
        c = self.ctx
        u, v, w = c.real(name + ".u"), c.real(name + ".v"), c.real(name + ".w")
        a, b, d = c.vars[-3:]
        c._push(a.z * a.z + b.z * b.z + d.z * d.z == 1)
        c._push(z3.And(a.z >= -1, a.z <= 1, b.z >= -1, b.z <= 1, d.z >= -1, d.z <= 1))
        c.rules[d.id] = {(): F1, ((a.id, 2),): -F1, ((b.id, 2),): -F1}
        return u, v, w

    @property
    def spsolve(self):
        from .shims import SP
        return SP.sparse.linalg.spsolve

    @property
    def csc(self):
        from .shims import SP
        return SP.sparse.csc_matrix

    # numbers ------------------------------------------------------------------
    def q(self, x):
        return lift(Fraction(x)) if not isinstance(x, float) else lift(x)

    def arr(self, xs, shape=None):
        from .shims import SArr
        xs = list(xs)
        o = rnp.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            o[i] = lift(x)
        o = o.view(SArr)
        return o if shape is None else o.reshape(shape)

    def ints(self, xs):
        return rnp.array([int(x) for x in xs], dtype=int)

    def num(self, x):
        return lift(x)

    def frame(self, cols, index=None, attrs=None):
        import pandas as pd
        d = {}
        for c, v in cols.items():
            if len(v) and all(isinstance(e, (int, rnp.integer)) and not isinstance(e, bool) for e in v):
                d[c] = rnp.array(v, dtype=int)
            else:
                d[c] = rnp.asarray(self.arr(v)).view(rnp.ndarray)
        df = pd.DataFrame(d)
        if index is not None:
            df.index = list(index)
        if attrs is not None:
            df.attrs = dict(attrs)
        return df

    # logic --------------------------------------------------------------------
    def assume(self, c):
        # earlier checks hold without it
        c = cond(c).bl()
        if self.pending and c is not True:
            self.flush()
        self.ctx.assume(c)
        if self.ctx.model is None:
            res, m = self.ctx.query([], want_model=True, full=True)
            if res == "unsat":
                raise Abort("assumption")
            if res == "sat":
                self.ctx.model = m

    def lemma(self, c):
        """A tautology over the inputs that helps the solver (no restriction)."""
        e = cond(c).bl()
        if isinstance(e, Bl):
            self.ctx._push(e.e)

    def decide(self, c):
        e = cond(c).bl()
        return bool(e)

    def max(self, xs):
        xs = list(xs)
        m = lift(xs[0])
        for x in xs[1:]:
            if bool(lift(x) > m):
                m = lift(x)
        return m

    def min(self, xs):
        xs = list(xs)
        m = lift(xs[0])
        for x in xs[1:]:
            if bool(lift(x) < m):
                m = lift(x)
        return m

    def abs(self, x):
        return abs(lift(x))

    def sqrt(self, x):
        return lift(x).sqrt()

    def cos(self, x):
        return lift(x).cos()

    def sin(self, x):
        return lift(x).sin()

    def stub_random(self, draw=None):
        from .shims import NP
        NP.random.reset()
        NP.random.draw_hook = draw

    def rng(self):
        from .shims import NP
        return NP.random

    def proves(self, c):
        """The solver shows c on this path (a step towards a check; counts as a query)."""
        v = z3.simplify(cond(c).viol(0))
        if z3.is_false(v):
            return True
        return self.ctx.query([v], timeout_ms=self.ctx.assert_ms)[0] == "unsat"

    def proved(self, label):
        """Record a check whose conditions were shown by V.proves."""
        self.ctx.stats.asserts += 1
        self.ctx.stats.asserts_solver += 1
        self.reached.append(label)

    def possible(self, label, c):
        """c must be satisfiable on this path (for some outcome of the draws)."""
        self.ctx.stats.asserts += 1
        self.reached.append(label)
        e = z3.simplify(cond(c).sat(0))
        if z3.is_true(e):
            self.ctx.stats.asserts_struct += 1
            return
        res, m = self.ctx.query([e], timeout_ms=self.ctx.assert_ms)
        if res == "sat":
            self.ctx.stats.asserts_solver += 1
        elif res == "unsat":
            self.pending.append((label, Cond("const", False), z3.BoolVal(True)))
        else:
            self.ctx.stats.undecided += 1
            self.rec["undecided"].append(label)

    def set_points(self, f):
        provider.state["points"] = f

    def reach(self, label):
        self.reached.append(label)

    def fail(self, label):
        self.check(label, Cond("const", False))

    def observe(self, name, value):
        self.obs.append((name, [v for v in rnp.asarray(value, dtype=object).flat]))

    def check(self, label, c, exact=False):
        st = self.ctx.stats
        st.asserts += 1
        self.reached.append(label)
        c = cond(c)
        v = z3.simplify(c.viol(0))
        if z3.is_false(v):
            st.asserts_struct += 1
            return
        self.pending.append((label, c, v))
        if len(self.pending) >= 400:
            self.flush()

    def flush(self):
        """Decide all pending checks on the path condition reached so far."""
        pend, self.pending = self.pending, []
        if not pend:
            return
        ctx, st = self.ctx, self.ctx.stats
        groups = _groups(pend)
        for grp in groups:
            left = grp
            while left:
                res, m = ctx.query([z3.Or([v for _, _, v in left]) if len(left) > 1 else left[0][2]],
                                   timeout_ms=ctx.assert_ms if len(left) == 1 else ctx.assert_ms // 3,
                                   want_model=True, full=False)
                if res == "unsat":
                    st.asserts_solver += len(left)
                    self._second_solver(left)
                    break
                if len(left) > 1:
                    if res == "sat":
                        hit = [p for p in left if z3.is_true(m.eval(p[2], model_completion=True))]
                        bad = hit[0] if hit else left[0]
                        self._violation(bad)
                        left = [p for p in left if p is not bad]
                        continue
                    # unknown: one by one
                    for p in left:
                        self._single(p)
                    break
                if res == "sat":
                    self._violation(left[0])
                else:
                    st.undecided += 1
                    self.rec["undecided"].append(left[0][0])
                break

    def _single(self, p):
        ctx, st = self.ctx, self.ctx.stats
        res, m = ctx.query([p[2]], timeout_ms=ctx.assert_ms, want_model=True)
        if res == "unsat":
            st.asserts_solver += 1
        elif res == "sat":
            self._violation(p)
        else:
            st.undecided += 1
            self.rec["undecided"].append(p[0])

    def _second_solver(self, left):
        n = self.rec["cvc5_every"]
        if not n:
            return
        self.rec["cvc5_i"] += 1
        if self.rec["cvc5_i"] % n:
            return
        ctx = self.ctx
        e = z3.Or([v for _, _, v in left])
        r = run_cvc5(ctx.slice([e]) + [e])
        if r in ("sat", "unsat"):
            ctx.stats.cvc5_queries += 1
            if r == "sat":
                ctx.stats.cvc5_disagree += 1
                self.rec["notes"].append("cvc5 disagrees on %s" % left[0][0])

    def _violation(self, p):
        """A check can fail: find models (robust ones first) and replay them."""
        label, c, v = p
        if label in self.rec["dead"]:
            return
        ctx = self.ctx
        tried = 0
        tiny = True              # no violation larger than the smallest positive margin
        for d in DELTAS:
            if not d and tiny:
                # only a difference below rounding scale is left: either a boundary case
                # (exactly equal numbers), confirmed on the real code by exact ties, or the code
                # and the check use different float constants
                if self._tie(label, v):
                    return
                ctx.stats.rounding += 1
                return
            e = z3.simplify(c.viol(d)) if d else v
            if z3.is_false(e):
                continue
            for strong in ((True, False) if d else (False,)):
                extra = [e] + (strengthened(ctx, d) if strong else [])
                res, m = ctx.query(extra, timeout_ms=min(ctx.assert_ms, 15000), want_model=True, full=True)
                if res != "unsat" and not strong:
                    tiny = False
                if res != "sat":
                    continue
                tiny = False
                inp = model_inputs(ctx, m)
                tried += 1
                out = self.rec["replay"](self.case, inp)
                if out.get("fails"):
                    if report(self.rec, self.case, label, inp, out["fails"], delta=str(d)):
                        raise Violated("violation")
                    self.rec["dead"].add(label)
                    return
                self.rec["last_spurious"] = dict(label=label, inputs=inp, out=out)
                if tried >= 4:
                    break
            if tried >= 4:
                break
        ctx.stats.spurious += 1
        self.rec["spurious"].append(dict(label=label, tried=tried, info=self.rec.get("last_spurious")))


    def _tie(self, label, v):
        """Replay boundary counterexamples whose inputs are short binary fractions."""
        ctx = self.ctx
        for grid in (2, 8, 64, 0):
            extra = [v]
            if grid:
                for name, r in ctx.inputs.items():
                    if r.is_int() or any(len(m) != 1 or m[0][1] != 1 for m in r.n):
                        continue
                    extra.append(z3.IsInt(r.zreal() * grid))
            res, m = ctx.query(extra, timeout_ms=4000, want_model=True, full=True)
            if res != "sat":
                continue
            inp = model_inputs(ctx, m)
            out = self.rec["replay"](self.case, inp, True)
            fails = [f for f in out.get("fails", []) if f[0] == label]
            if fails:
                if report(self.rec, self.case, label, inp, fails, delta="tie", ties=True):
                    raise Violated("violation")
                self.rec["dead"].add(label)
                return True
        return False


def _groups(pend):
    lin, non = [], []
    for p in pend:
        (lin if _linear(p[2]) else non).append(p)
    g = [lin[i:i + 100] for i in range(0, len(lin), 100)]
    return g + [[p] for p in non]


def _linear(e):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_mul(t):
            if sum(1 for c in t.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
                return False
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            return False
        st.extend(t.children())
    return True


def _has_real(*es):
    seen, st = set(), list(es)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.RealSort():
            return True
        st.extend(t.children())
    return False


def _internal(*es):
    """Mentions a variable of a stand-in's optimality conditions."""
    seen, st = set(), list(es)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("lp_"):
            return True
        st.extend(t.children())
    return False


def strengthened(ctx, d):
    """Strict versions of the inequalities on the path (with margin d)."""
    out = []
    d = z3.RealVal(d)
    for e in ctx.pc:
        n = e
        neg = False
        if z3.is_not(n):
            n, neg = n.arg(0), True
        if z3.is_app(n) and n.num_args() == 2 and z3.is_arith(n.arg(0)):
            a, b = n.arg(0), n.arg(1)
            k = n.decl().kind()
            if a.sort() != z3.RealSort() or not _has_real(a, b) or _internal(a, b):
                continue
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                out.append(a >= b + d if neg else a + d <= b)
            elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                out.append(a + d <= b if neg else a >= b + d)
            elif k == z3.Z3_OP_EQ and neg:
                out.append(z3.Or(a >= b + d, a + d <= b))
    return out


def model_inputs(ctx, m):
    out = {}
    for name, r in ctx.inputs.items():
        f = z3_to_fraction(m.eval(r.zreal(), model_completion=True))
        out[name] = str(f if f is not None else 0)
    return out


def run_cvc5(cs, tlimit=8000):
    import subprocess
    s = z3.Solver()
    s.add(*cs)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info"))
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % tlimit, "-q"], input=txt, capture_output=True,
                           text=True, timeout=tlimit / 1000 + 5)
    except Exception:
        return "error"
    o = p.stdout.strip().splitlines()
    if "(error" in p.stdout or not o:
        return "error"
    return o[0]


# ----------------------------------------------------------------------------
def eval_obs(ctx, m, obs):
    out = []
    for name, vals in obs:
        r = []
        for v in vals:
            if isinstance(v, Rl) or lift(v) is not None:
                x = lift(v)
                if x.s is not None:
                    r.append(x.s)
                    continue
                c = x.const
                if c is None:
                    f = z3_to_fraction(m.eval(x.zreal(), model_completion=True))
                    if f is None:
                        r.append(None)
                        continue
                    c = f
                r.append(float(c))
            else:
                r.append(str(v))
        out.append([name, r])
    return out


def report(rec, case, label, inp, fails, **extra):
    """File a confirmed failure of the real code; False if it is a listed finding."""
    d = dict(label=label, inputs=inp, real=fails[:5], **extra)
    rules = [k for k in rec["known_rules"] if k["case"] == case.name]
    if rules and all(any(str(f[0]).startswith(k["label"].replace("_", " ")) for k in rules) for f in fails):
        rec["known"].append(d)
        return False
    rec["violations"].append(d)
    return True


def run_path(ctx, case, fm, rec, prefix):
    """Execute one path.  rec: accumulators."""
    st = ctx.stats
    ctx.reset(prefix)
    Ctx.cur = ctx
    V = SymV(ctx, case, rec)
    status, exc = "ok", None
    try:
        case.fn(V, fm, **case.params)
        V.flush()
    except Violated:
        status = "violated"
    except PathLimit as e:
        status = "limit"
        st.limit_paths += 1
    except Abort as e:
        status = "infeasible"
        st.infeasible += 1
    except AssumeFailed:
        status = "infeasible"
        st.infeasible += 1
    except Exception as e:
        status, exc = "raised", e
    if status in ("ok", "violated", "raised", "limit"):
        st.paths += 1
    if status == "raised":
        # decide what it is by running this path's model on the real code
        st.raised += 1
        try:
            V.flush()
        except Abort:
            return "violated"
        except Exception:
            pass
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        where = "".join(tb[-4:])[-1500:]
        key = type(exc).__name__ + ":" + str(exc)[:200]
        n = rec["raised"].setdefault(key, dict(n=0, where=where, replayed=0, real_ok=0))
        n["n"] += 1
        if n["replayed"] < 12:
            for d in (DELTAS[0], DELTAS[1], 0):
                res, m = ctx.query(strengthened(ctx, d) if d else [], want_model=True, full=True,
                                   timeout_ms=5000)
                if res == "sat":
                    inp = model_inputs(ctx, m)
                    out = rec["replay"](case, inp)
                    n["replayed"] += 1
                    if out.get("fails"):
                        report(rec, case, "raised " + key, inp, out["fails"])
                        return "violated"
                    n["real_ok"] += 1
                    break
        st.unencodable += 1
        return status
    if status == "ok":
        for l in V.reached:
            rec["labels"][l] = rec["labels"].get(l, 0) + 1
        if "concretised" in ctx.flags:
            st.concretised += 1
        # validation of the encoding on this path's model, against the real code
        if rec["validate_left"].get(case.id, 0) > 0 and "concretised" not in ctx.flags:
            for d in (DELTAS[0], DELTAS[1]):
                res, m = ctx.query(strengthened(ctx, d), want_model=True, full=True, timeout_ms=3000)
                if res == "sat":
                    break
                if res == "unknown":
                    # too hard to solve with a margin: not tried again in this task
                    rec["validate_left"][case.id] = -1
                    break
            if res == "sat":
                rec["validate_left"][case.id] -= 1
                inp = model_inputs(ctx, m)
                out = rec["replay"](case, inp)
                if out.get("fails"):
                    report(rec, case, "path model on the real code", inp, out["fails"])
                    return "violated"
                if out.get("status") == "ok":
                    bad = compare_obs(eval_obs(ctx, m, V.obs), out["obs"])
                    if sorted(set(V.reached)) != sorted(set(out["reached"])):
                        bad = bad or "labels differ: %s only symbolically, %s only in the real run" % (
                            sorted(set(V.reached) - set(out["reached"]))[:4], sorted(set(out["reached"]) - set(V.reached))[:4])
                    if bad:
                        rec["mismatch"].append(dict(case=case.id, inputs=inp, what=bad))
                    else:
                        rec["validated"] += 1
                        if len(rec["samples"]) < 3:
                            rec["samples"].append(dict(case=case.id, inputs=inp,
                                                       checks=len(V.reached), pc=len(ctx.pc)))
    return status


def compare_obs(a, b):
    if len(a) != len(b):
        return "observation count %d/%d" % (len(a), len(b))
    for (n1, x), (n2, y) in zip(a, b):
        if n1 != n2 or len(x) != len(y):
            return "shape of %s/%s" % (n1, n2)
        for p, q in zip(x, y):
            if p is None or q is None:
                continue
            if isinstance(p, str) or isinstance(q, str):
                if p != q:
                    return "%s: %r / %r" % (n1, p, q)
                continue
            if math.isnan(p) and math.isnan(q) or p == q:
                continue
            if not abs(p - q) <= 1e-6 * max(1, abs(p), abs(q)):
                return "%s: %r / %r" % (n1, p, q)
    return None
