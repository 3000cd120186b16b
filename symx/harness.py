"""Harness API, path exploration, obligations, counterexample search."""
import json
import math
import os
import random
import sys
import time
import traceback

import numpy as np

from . import solve, sym
from . import term as T
from .sym import Budget, Infeasible, PathAbort, PathCtx, Sym, SymBool, lift
from .term import Unsupported

TOL = 1e-9          # relative tolerance of symbolic equality obligations
CTOL = 1e-6         # relative tolerance of a concrete replay


class Violation(Exception):
    pass


class Skip(Exception):
    """harness precondition not met on this path"""


def val(x):
    """strip units"""
    return getattr(x, "value", x)


def flat(x):
    if isinstance(x, np.ndarray):
        return [i for i in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        r = []
        for i in x:
            r += flat(i)
        return r
    return [x]


class M:
    """math usable by specifications on both Sym and float values"""

    @staticmethod
    def exp(x):
        return x.exp() if isinstance(x, Sym) else math.exp(x)

    @staticmethod
    def log(x):
        if isinstance(x, Sym):
            return x.log()
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    @staticmethod
    def log10(x):
        if isinstance(x, Sym):
            return x.log10()
        return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    @staticmethod
    def sqrt(x):
        if isinstance(x, Sym):
            return x.sqrt()
        return math.sqrt(x) if x >= 0 else math.nan

    @staticmethod
    def cos(x):
        return x.cos() if isinstance(x, Sym) else math.cos(x)

    @staticmethod
    def pow(x, p):
        if isinstance(x, Sym) or isinstance(p, Sym):
            return lift(x) ** p
        with np.errstate(all="ignore"):
            return float(np.float64(x) ** np.float64(p))

    @staticmethod
    def div(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return lift(a) / b
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))


class Base:
    """common part of symbolic / concrete harness contexts"""
    m = M

    def q(self, x, unit):
        import astropy.units as u

        return u.Quantity(x, unit)

    def pos(self, name, lo=1e-3, hi=1e3):
        return self.real(name, lo, hi)

    def bool(self, name):
        return self.choice(name, [False, True])

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def vec(self, name, n, lo=None, hi=None):
        return self.arr(self.reals(name, n, lo, hi))

    def eqq(self, label, a, b, rel=None, unit=None):
        """Quantity equality: compares shape, physical unit, and value"""
        import astropy.units as u

        ua, ub = getattr(a, "unit", None), getattr(b, "unit", None)
        if unit is not None:
            self.true(label + ":unit", ua is not None and u.Unit(unit) == ua,
                      "unit %s != %s" % (ua, unit))
        if (ua is None) != (ub is None):
            if ua is None:
                ua = u.dimensionless_unscaled
                a = u.Quantity(a, ua)
            else:
                ub = u.dimensionless_unscaled
                b = u.Quantity(b, ub)
        if ua is not None and not ua.is_equivalent(ub):
            self.true(label + ":dimension", False, "%s vs %s" % (ua, ub))
            return
        if ua is not None:
            b = b.to(ua)
        self.eq(label, a, b, rel)

    def eq(self, label, a, b, rel=None):
        a, b = val(a), val(b)
        sa, sb = np.shape(a), np.shape(b)
        if sa != sb:
            self.true(label + ":shape", False, "shape %s vs %s" % (sa, sb))
            return
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            self.eq1("%s[%d]" % (label, i) if sa else label, x, y, rel)


class ConcCtx(Base):
    """Concrete replay on unpatched code."""
    mode = "conc"
    sym = False
    ctol = CTOL         # a harness sets less where values are only copied

    def __init__(self, inputs):
        self.inputs = inputs
        self.fails = []
        self.obs = {}
        self.nobl = 0
        self.skipped = False

    def real(self, name, lo=None, hi=None):
        return float(self.inputs["vars"][name])

    def const(self, x):
        return x

    def texts(self):
        pass

    def intern(self, x):
        return x

    def choice(self, name, options):
        return options[self.inputs["choices"].get(name, 0)]

    def arr(self, xs):
        return np.array([float(x) if not isinstance(x, (bool, np.bool_)) else x for x in xs])

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def table(self, name):
        return [(tuple(a), v) for a, v in self.inputs["uf"].get(name, [])]

    def dist(self, name, unit="1/eV", argunit="eV", lo=1e-3, hi=1e3, zero=False):
        return ConcDist(self.table(name), unit, argunit)

    def uf(self, name, *args, lo=None, hi=None, sign="?"):
        best = None
        for a, v in self.table(name):
            d = sum(abs(x - float(y)) / (abs(x) + abs(float(y)) + 1e-300) for x, y in zip(a, args))
            if best is None or d < best[0]:
                best = (d, v)
        if best is None:
            return 1.0
        return best[1]

    def fail(self, label, msg):
        self.fails.append((label, msg))

    def eq1(self, label, a, b, rel=None):
        self.nobl += 1
        a, b = float(a), float(b)
        self.obs[label] = a
        if math.isnan(a) and math.isnan(b):
            return
        if a == b:
            return
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            self.fail(label, "%r != %r" % (a, b))
            return
        if abs(a - b) > max(self.ctol, (rel or 0) * 1.01) * max(abs(a), abs(b)) and \
                abs(a - b) > 1e-290:
            self.fail(label, "%r != %r" % (a, b))

    def zero(self, label, x, scale):
        """x == 0 relative to the positive scale"""
        self.nobl += 1
        x, s = float(val(x)), abs(float(val(scale)))
        if not abs(x) <= CTOL * s:
            self.fail(label, "%r not zero (scale %r)" % (x, s))

    def le(self, label, a, b, slack=1e-9):
        self.nobl += 1
        for x, y in _pairs(a, b):
            x, y = float(x), float(y)
            if not (x <= y + CTOL * max(abs(x), abs(y))):
                self.fail(label, "%r > %r" % (x, y))

    def lt(self, label, a, b):
        self.nobl += 1
        for x, y in _pairs(a, b):
            x, y = float(x), float(y)
            if not (x < y):
                self.fail(label, "not %r < %r" % (x, y))

    def true(self, label, cond, msg=""):
        self.nobl += 1
        if not bool(cond):
            self.fail(label, msg or "false")

    def note(self, *a):
        pass


def _pairs(a, b):
    a, b = flat(val(a)), flat(val(b))
    if len(a) == 1 and len(b) > 1:
        a = a * len(b)
    if len(b) == 1 and len(a) > 1:
        b = b * len(a)
    return list(zip(a, b))


class ConcDist:
    """log-log interpolated particle distribution through given points"""

    def __init__(self, pts, unit, argunit):
        pts = sorted((a[0], v) for a, v in pts)
        self.x = np.array([p[0] for p in pts]) if pts else np.array([1.0])
        self.y = np.array([p[1] for p in pts]) if pts else np.array([1.0])
        self.unit, self.argunit = unit, argunit

    def __call__(self, E):
        import astropy.units as u

        e = np.atleast_1d(E.to_value(self.argunit))
        out = np.empty(e.shape)
        lx = np.log(self.x)
        for i, x in np.ndenumerate(e):
            j = int(np.argmin(np.abs(lx - math.log(x))))
            if abs(lx[j] - math.log(x)) < 1e-7 or len(self.x) < 2:
                out[i] = self.y[j]
            else:
                with np.errstate(all="ignore"):
                    ly = np.log(np.maximum(self.y, 1e-300))
                # power law of index -3 beyond the given points
                d = min(0.0, math.log(x) - lx[0]) + max(0.0, math.log(x) - lx[-1])
                out[i] = math.exp(np.interp(math.log(x), lx, ly) - 3.0 * d)
        if np.ndim(E.value) == 0:
            out = out[0]
        return u.Quantity(out, self.unit)


class SymDist:
    def __init__(self, ctx, name, unit, argunit, lo, hi, zero):
        self.ctx, self.name, self.unit, self.argunit = ctx, name, unit, argunit
        self.lo, self.hi, self.zero = lo, hi, zero

    def __call__(self, E):
        import astropy.units as u

        e = E.to_value(self.argunit)
        f = lambda x: self.ctx.uf(self.name, x, lo=self.lo, hi=self.hi,
                                  sign="0+" if self.zero else "+")
        if isinstance(e, np.ndarray) and e.ndim:
            out = np.empty(e.shape, dtype=object)
            for i in np.ndindex(e.shape):
                out[i] = f(e[i])
        else:
            if isinstance(e, np.ndarray):
                e = e[()]
            out = f(e)
        return u.Quantity(out, self.unit)


class SymCtx(PathCtx, Base):
    sym = True
    ctol = CTOL

    def __init__(self, prefix, limits, res):
        super().__init__(prefix, limits)
        self.res = res
        self.vars = {}       # name -> atom id
        self.ufs = {}        # name -> list of (arg Terms, atom)
        self.choices = {}
        self.obs = {}
        self.point = None
        self.points = []

    # -- inputs
    def real(self, name, lo=None, hi=None):
        if name in self.vars:
            return Sym(T.Term({((self.vars[name], T.ONE_EXPO),): 1.0}))
        sg = "+" if lo is not None and lo > 0 else ("0+" if lo == 0 else "?")
        t = T.var(name, sg, lo, hi)
        (k, _) = t.single()
        self.vars[name] = k[0][0]
        return Sym(t)

    def const(self, x):
        return Sym.of(x)

    def choice(self, name, options):
        if len(options) == 1:
            self.choices[name] = 0
            return options[0]
        i = self.fork([()] * len(options), feas=False)
        self.choices[name] = i
        return options[i]

    def arr(self, xs):
        r = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            # plain floats in object arrays would divide the Python way
            r[i] = Sym.of(x) if type(x) is float else x
        return r

    def dist(self, name, unit="1/eV", argunit="eV", lo=1e-3, hi=1e3, zero=False):
        return SymDist(self, name, unit, argunit, lo, hi, zero)

    def uf(self, name, *args, lo=None, hi=None, sign="?"):
        ts = []
        for a in args:
            a = lift(a)
            if a.sp is not None:
                raise Unsupported("uf at non-finite argument")
            ts.append(T.expand(a.t))
        at = T.atom_for("uf", name, tuple(ts), sign)
        if at.lo is None and lo is not None:
            at.lo, at.hi = lo, hi
        self.ufs.setdefault(name, {})[at.id] = (tuple(ts), at)
        return Sym(T.Term({((at.id, T.ONE_EXPO),): 1.0}))

    def assume(self, cond):
        if isinstance(cond, SymBool):
            s = self.iv.sign(cond.t)
            self.constrain(cond.t, cond.op)
            r, _ = self.ps.check([], timeout=self.limits.get("branch_ms", 1000))
            if r == "unsat":
                raise Skip()
        elif not bool(cond):
            raise Skip()

    def note(self, *a):
        pass

    def texts(self):
        """give symbolic values texts, bytes and identities that agree exactly
        when the values do (cache keys, printed tables)"""
        self.tokens, self.objs = [], []
        sym.KEEP = []

    def intern(self, x):
        """the representative of x: the same object for equal values"""
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                r[i] = self.intern(x[i])
            return r
        x = lift(x)
        for o in self.objs:
            if o.sp is not None or x.sp is not None:
                if o.sp == x.sp:
                    return o
            elif o.t.same(x.t) or (sym.stems(o.t) & sym.stems(x.t) and
                                   self.decide(x.t - o.t, "==")):
                return o
        self.objs.append(x)
        return x

    # -- points
    def free_atoms(self):
        ids = list(self.vars.values())
        for d in self.ufs.values():
            ids += list(d)
        return ids

    def sat_at(self, cons, env, tol=0.0):
        cache = {}
        for t, op in cons:
            try:
                v = T.evaluate(t, env, cache)
            except T.EvalError:
                return False
            mag = scale_at(t, env, cache)
            e = 1e-12 * mag
            ok = {">": v > e, ">=": v >= -e, "<": v < -e, "<=": v <= e,
                  "==": abs(v) <= e, "!=": abs(v) > e}[op]
            if not ok:
                return False
        return True

    def find_point(self, goals=(), tries=60, test=None, rng=None):
        """float assignment satisfying path constraints (+goals), or None"""
        rng = rng or random.Random(int(os.environ.get("VERIF_SEED", "1") or 1) + len(self.trace))
        cons = self.ps.constraints + list(goals)
        ids = self.free_atoms()
        if not goals and test is None:
            # plain sampling is enough on most paths
            for i in range(24):
                env = self.sample(ids, rng)
                if self.sat_at(cons, env):
                    return env
        r, model = self.ps.check(list(goals), timeout=self.limits.get("model_ms", 3000), full=True)
        if r == "unsat":
            return None
        cands = []
        if model is not None:
            cands.append(self.ps.values(model, ids))
        for i in range(tries):
            if i < len(cands):
                env = cands[i]
            elif self.deadline and time.time() > self.deadline:
                break
            else:
                env = self.sample(ids, rng, cands[0] if cands and i % 2 else None)
            env = self.consistent(env)
            if env is None:
                continue
            if self.sat_at(cons, env) and (test is None or test(env)):
                return env
            # repair through the solver: fix some variables at the sampled values
            if i % 4 == 3 and cons:
                fix = {a: float("%.6g" % env[a])
                       for a in rng.sample(ids, max(1, len(ids) // 2))}
                r, model = self.ps.check(list(goals), timeout=self.limits.get("point_ms", 800),
                                         fix=fix, full=True)
                if model is not None:
                    e2 = self.consistent(self.ps.values(model, ids))
                    if e2 is not None and self.sat_at(cons, e2) and (test is None or test(e2)):
                        return e2
        return None

    def consistent(self, env):
        """uf atoms: nothing to do, arguments distinct generically"""
        return env

    def sample(self, ids, rng, base=None):
        env = {}
        for a in ids:
            at = T.ATOMS[a]
            lo, hi = self.iv.facts.get(a, (-math.inf, math.inf))
            lo = max(lo, at.lo if at.lo is not None else -math.inf)
            hi = min(hi, at.hi if at.hi is not None else math.inf)
            if base is not None and rng.random() < 0.5:
                env[a] = base[a]
                continue
            if at.sign == "+" and lo <= 0:
                lo = min(1e-6, hi / 2 if hi < math.inf else 1e-6)
            if lo == -math.inf:
                lo = min(-10.0, hi - 10) if hi < math.inf else -10.0
            if hi == math.inf:
                hi = max(10.0, lo + 10)
            if lo > 0 and hi / lo > 3:
                env[a] = math.exp(rng.uniform(math.log(lo), math.log(hi)))
            else:
                env[a] = rng.uniform(lo, hi)
        return env

    def inputs_at(self, env):
        vs = {n: env[a] for n, a in self.vars.items()}
        uf = {}
        for n, d in self.ufs.items():
            lst = []
            for ts, at in d.values():
                try:
                    lst.append(([T.evaluate(t, env) for t in ts], env[at.id]))
                except T.EvalError:
                    pass
            uf[n] = lst
        return {"vars": vs, "choices": dict(self.choices), "uf": uf}

    # -- obligations
    def record(self, label, status, env=None, msg=""):
        r = self.res
        r.obl += 1
        r.by_label.setdefault(strip(label), [0, 0])[0] += 1
        if status == "proved":
            r.proved += 1
            r.by_label[strip(label)][1] += 1
        elif status == "cand":
            r.candidates.append({"label": label, "msg": msg, "inputs": self.inputs_at(env)})
            if PARTIAL is not None and len(r.candidates) <= 4:
                PARTIAL(r)
        else:
            r.inconclusive.append("%s: %s" % (label, msg))

    def quick_cap(self, label):
        """stop adding work for a label that already has confirmed-looking candidates"""
        return len(self.res.candidates) >= self.limits.get("max_candidates", 12)

    def eq1(self, label, a, b, rel=None):
        rel = rel or TOL
        if isinstance(a, (SymBool,)):
            a = bool(a)
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            self.true(label, a == b, "%r != %r" % (a, b))
            return
        a, b = la, lb
        if a.sp is not None or b.sp is not None:
            if a.sp is not None and b.sp is not None and \
                    (a.sp == b.sp or (a.sp != a.sp and b.sp != b.sp)):
                self._trivial(label)
                return
            self._cand(label, (), "%r != %r" % (a, b))
            return
        self.obs[label] = a.t
        d = a.t - b.t

        def differs(env):
            try:
                va, vb = T.evaluate(a.t, env), T.evaluate(b.t, env)
            except T.EvalError:
                return False
            return abs(va - vb) > max(rel, 3 * self.ctol) * max(abs(va), abs(vb)) and \
                abs(va - vb) > 1e-280

        zero = d.is_zero() or small_residue(d, a.t, b.t)
        env = None
        if not zero and T.heavy(d) and not self.quick_cap(label):
            env = self.find_point((), tries=4, test=differs)
        if env is None and (zero or T.normal_zero(d)):
            self.record(label, "proved")
            self.ps.confirm(a.t, b.t)
            return
        if self.quick_cap(label):
            self.record(label, "inconclusive", msg="skipped after many counterexamples")
            return
        if env is None:
            env = self.find_point((), tries=25, test=differs)
        if env is not None:
            self.record(label, "cand", env, "values differ: %.10g vs %.10g" % (
                T.evaluate(a.t, env), T.evaluate(b.t, env)))
            return
        # ask the solver
        sb = self.iv.sign(b.t)
        goals = []
        if sb in ("+", "0+"):
            band = b.t.scale(rel)
        elif sb in ("-", "0-"):
            band = b.t.scale(-rel)
        else:
            band = T.ZERO
        st = "unsat"
        for g in ([(d - band, ">")], [(-d - band, ">")]):
            r, model = self.ps.check(g, timeout=self.limits.get("obl_ms", 8000))
            if r == "sat":
                env = self.find_point(g, tries=40, test=differs)
                if env is not None:
                    self.record(label, "cand", env, "values differ")
                    return
            if r != "unsat":
                st = r
        if st == "unsat":
            self.record(label, "proved")
        else:
            self.record(label, "inconclusive", msg="eq undecided (%s): %s" % (st, short(d)))

    def _trivial(self, label, neg=None):
        self.ps.decided(neg)
        self.record(label, "proved", msg="trivial")

    def _cand(self, label, goals, msg, test=None):
        env = self.find_point(goals, tries=80, test=test)
        if env is None:
            r, _ = self.ps.check(list(goals))
            if r == "unsat":
                self.record(label, "proved")
            else:
                self.record(label, "inconclusive", msg="no concrete point: " + msg)
        else:
            self.record(label, "cand", env, msg)

    def zero(self, label, x, scale):
        x, s = lift(val(x)), lift(val(scale))
        self.eq1(label, x + s, s)

    def holds(self, label, t, op, msg=""):
        """obligation  t op 0"""
        s = self.iv.sign(t)
        known = {
            ">": s == "+", ">=": s in ("+", "0", "0+"), "<": s == "-",
            "<=": s in ("-", "0", "0-"), "==": s == "0", "!=": s in ("+", "-"),
        }[op]
        if known or (op in (">=", "<=", "==") and T.normal_zero(t)):
            self._trivial(label, (t, sym.FLIP[op]))
            return
        neg = (t, sym.FLIP[op])
        r, model = self.ps.check([neg], timeout=self.limits.get("obl_ms", 8000))
        if r == "unsat":
            self.record(label, "proved")
            return

        def test(env):
            try:
                v = T.evaluate(t, env)
                mag = scale_at(t, env, {})
            except T.EvalError:
                return False
            if op in (">=", ">"):
                return v < -3e-6 * mag or (op == ">" and v <= 0 and False)
            if op in ("<=", "<"):
                return v > 3e-6 * mag
            return True

        env = self.find_point([neg], tries=60, test=test)
        if env is None and op in (">", "<"):
            env = self.find_point([neg], tries=20)
        if env is not None:
            self.record(label, "cand", env, msg)
        else:
            self.record(label, "inconclusive", msg="%s undecided (%s) %s" % (op, r, short(t)))

    def _rel(self, label, a, b, op):
        for i, (x, y) in enumerate(_pairs(a, b)):
            x, y = lift(x), lift(y)
            if x.sp is not None or y.sp is not None:
                self.true(label, x._cmp(y, op), "%r %s %r" % (x, op, y))
                continue
            self.holds(label, x.t - y.t, op, "%r %s %r" % (x, op, y) if len(repr(x)) < 200 else "")

    def le(self, label, a, b, slack=1e-9):
        self._rel(label, a, b, "<=")

    def lt(self, label, a, b):
        self._rel(label, a, b, "<")

    def true(self, label, cond, msg=""):
        if isinstance(cond, SymBool):
            self.holds(label, cond.t, cond.op, msg)
            return
        if bool(cond):
            self._trivial(label)
        else:
            self._cand(label, (), msg or "false")


def scale_at(t, env, cache):
    s = 0.0
    for k, c in t.m.items():
        try:
            s += abs(T.evaluate(T.Term({k: c}), env, cache))
        except T.EvalError:
            pass
    return s


def small_residue(d, a, b):
    """every surviving coefficient is rounding noise of the same monomial"""
    for k, c in d.m.items():
        m = max(abs(a.m.get(k, 0.0)), abs(b.m.get(k, 0.0)))
        if abs(c) > 1e-10 * m:
            return False
    return True


def strip(label):
    return label.split("[")[0]


def short(x, n=160):
    s = repr(x)
    return s if len(s) < n else s[:n] + "..."


def _decided(self, neg=None):
    """an obligation whose negation is a constant falsehood on this path, or is excluded by
    interval arithmetic: in the second case z3 is asked as well"""
    if neg is None or neg[0].is_const():
        solve.STATS["constant"] += 1
        return
    before = dict(solve.STATS)
    r, _ = self.check([neg], timeout=200)
    if r != "unsat":
        solve.STATS[r] = before[r]
        solve.STATS["interval"] += 1


solve.PathSolver.decided = _decided


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.ties = 0
        self.skipped = 0
        self.decisions = 0
        self.obl = 0
        self.proved = 0
        self.by_label = {}
        self.candidates = []
        self.inconclusive = []
        self.unsupported = []
        self.fallback = []        # inputs for concolic fallback
        self.samples = []
        self.validation = []      # (inputs, {label: value})
        self.functions = set()
        self.budget_hit = None
        self.exceptions = []
        self.branch_unknown = 0
        self.wall = 0.0
        self.solver = {}


class Tracer:
    """which naima functions were executed symbolically"""

    def __init__(self, res):
        self.f = res.functions

    def __enter__(self):
        sys.setprofile(self.cb)

    def __exit__(self, *a):
        sys.setprofile(None)

    def cb(self, frame, ev, arg):
        if ev == "call":
            fn = frame.f_code.co_filename
            i = fn.find("/naima/")
            if i >= 0 and "/tests/" not in fn:
                self.f.add(fn[i + 7:] + ":" + frame.f_code.co_qualname)


def _lines(name):
    """development aid: append the executed lines of naima to $SYMX_COV"""
    m, out = sys.monitoring, open(os.environ["SYMX_COV"], "a", buffering=1)

    def hit(code, line):
        i = code.co_filename.find("/src/naima/")
        if i >= 0:
            out.write("%s:%d %s\n" % (code.co_filename[i + 11:], line, name))
        return m.DISABLE
    try:
        m.use_tool_id(3, "symx")
    except ValueError:
        pass
    m.register_callback(3, m.events.LINE, hit)
    m.set_events(3, m.events.LINE)


class Statics:
    """module- and class-level containers of naima, restored before every path"""

    def __init__(self):
        self.saved = []
        seen = set()
        for mn, mod in list(sys.modules.items()):
            if mn == "naima" or mn.startswith("naima."):
                for v in list(vars(mod).values()):
                    if isinstance(v, type) and (v.__module__ or "").startswith("naima"):
                        for k, w in list(vars(v).items()):
                            self.take(w, k, seen)
                for k, v in list(vars(mod).items()):
                    self.take(v, k, seen)

    def take(self, v, k, seen, depth=0):
        if k.startswith("__") or type(v).__name__ not in ("dict", "list", "set", "OrderedDict",
                                                          "defaultdict", "deque") or id(v) in seen:
            return
        seen.add(id(v))
        self.saved.append((v, v.copy()))
        if depth < 2:
            for w in (v.values() if hasattr(v, "values") else list(v)):
                self.take(w, "", seen, depth + 1)

    def restore(self):
        for v, c in self.saved:
            v.clear()
            (v.update if hasattr(v, "update") else v.extend)(c)


PARTIAL = None      # receives the result so far whenever a candidate is found


def explore(fn, name, limits):
    """run harness fn over all feasible paths"""
    if os.environ.get("SYMX_COV"):
        _lines(name)
    res = Result(name)
    t0 = time.time()
    limits = dict(limits)
    limits["deadline"] = t0 + limits.get("seconds", 120)
    q0 = dict(solve.STATS)
    stack = [[]]
    statics = Statics()
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    while stack:
        if time.time() > limits["deadline"]:
            res.budget_hit = "time (%d prefixes left)" % len(stack)
            break
        if res.paths >= limits.get("max_paths", 2000):
            res.budget_hit = "paths (%d prefixes left)" % len(stack)
            break
        prefix = stack.pop()
        ctx = SymCtx(prefix, limits, res)
        sym.CTX = ctx
        sym.KEEP = None
        statics.restore()
        err = None
        try:
            if res.paths < 2:
                with Tracer(res):
                    fn(ctx)
            else:
                fn(ctx)
        except sym.Tie:
            res.ties += 1
            stack.extend(ctx.pending)
            continue
        except Infeasible:
            res.infeasible += 1
            stack.extend(ctx.pending)
            continue
        except Budget as e:
            res.budget_hit = str(e)
            stack.extend(ctx.pending)
            continue
        except Skip:
            res.skipped += 1
            stack.extend(ctx.pending)
            continue
        except Unsupported as e:
            err = e
        except RecursionError as e:
            err = e
        except Exception as e:
            err = e
        stack.extend(ctx.pending)
        res.paths += 1
        res.decisions += len(ctx.trace)
        res.branch_unknown += ctx.branch_unknown
        if err is not None:
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exception(err)
            tb = traceback.extract_tb(err.__traceback__)
            res.unsupported.append("%s: %s (%s)" % (type(err).__name__, str(err)[:200], where(tb)))
            if len(res.fallback) < limits.get("max_fallback", 40):
                for i in range(limits.get("fallback_points", 4)):
                    env = ctx.find_point((), tries=30, rng=random.Random(i * 7919 + res.paths))
                    if env is not None:
                        res.fallback.append(ctx.inputs_at(env))
        else:
            if len(res.validation) < limits.get("validate", 6) or (
                    rng.random() < 0.05 and len(res.validation) < 20):
                env = ctx.find_point((), tries=40)
                if env is not None:
                    vals = {}
                    cache = {}
                    for lab, t in ctx.obs.items():
                        try:
                            vals[lab] = T.evaluate(t, env, cache)
                        except T.EvalError:
                            pass
                    res.validation.append((ctx.inputs_at(env), vals))
            if len(res.samples) < 3:
                res.samples.append({
                    "harness": name,
                    "choices": dict(ctx.choices),
                    "path": [short("%r %s 0" % c if isinstance(c, tuple) else c, 120)
                             for c in ctx.ps.constraints[:4]],
                    "observed": {k: short(v, 120) for k, v in list(ctx.obs.items())[:2]},
                })
    res.wall = time.time() - t0
    res.solver = {k: solve.STATS[k] - q0[k] for k in solve.STATS}
    return res


def _in_naima(fn):
    return "/naima/" in fn and "/verif/" not in fn


def where(tb):
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-1:-5:-1])


def blame(tb):
    """the exception comes out of naima code (not out of the harness itself)"""
    return any(_in_naima(f.filename) for f in tb) and not tb[-1].filename.startswith(ROOT)


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CSTATICS = None


def run_concrete(fn, inputs):
    global CSTATICS
    if CSTATICS is None:
        CSTATICS = Statics()
    CSTATICS.restore()
    c = ConcCtx(inputs)
    try:
        fn(c)
    except Skip:
        return {"fails": [], "skip": True, "obs": {}}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # failures seen before the exception stand on their own
        return {"fails": [list(f) for f in c.fails] +
                [["exception", "%s: %s (%s)" % (type(e).__name__, str(e)[:300], where(tb))]],
                "exc": True, "naima": blame(tb) or bool(c.fails), "obs": c.obs}
    return {"fails": [list(f) for f in c.fails], "obs": c.obs, "n": c.nobl}
