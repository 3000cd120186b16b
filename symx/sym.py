"""Symbolic scalars, path forking and the numpy-facing arithmetic."""
import math
import numbers
import re
import time
from fractions import Fraction

import numpy as np

from . import interval, solve
from . import term as T
from .term import Unsupported

CTX = None  # current symbolic context
KEEP = None


class PathAbort(BaseException):
    """path is infeasible or over budget"""


class Infeasible(PathAbort):
    pass


class Budget(PathAbort):
    pass


class Tie(Infeasible):
    """knife-edge path (an equality between inputs), excluded by the harness"""


FLIP = {">": "<=", ">=": "<", "==": "!=", "!=": "==", "<": ">=", "<=": ">"}


MIRROR = {">": "<", ">=": "<=", "<": ">", "<=": ">=", "==": "==", "!=": "!="}
SIGNS = {">": frozenset("+"), ">=": frozenset("0+"), "<": frozenset("-"),
         "<=": frozenset("-0"), "==": frozenset("0"), "!=": frozenset("-+")}


def normed(t):
    """t scaled to a leading coefficient of one; True if the sign flipped"""
    lead = min(t.m)
    c = t.m[lead]
    return t.scale(1.0 / c), c < 0


class PathCtx:
    """One symbolic execution path."""
    mode = "sym"

    def __init__(self, prefix, limits):
        T.reset()
        self.prefix = list(prefix)
        self.trace = []          # (choice, n_alternatives_left list)
        self.pending = []        # new prefixes to explore
        self.ps = solve.PathSolver()
        self.iv = interval.Intervals()
        T.SUM_SIGN = self.iv.sum_sign
        self.limits = limits
        self.deadline = limits.get("deadline")
        self.ndec = 0
        self.substs = []
        self.branch_unknown = 0
        self.decided = {}
        self.tokens = None       # texts of symbolic values, see token()
        self.printed = None      # when a list: texts written of symbolic values

    # -- deciding
    def constrain(self, t, op):
        self.ps.add(t, op)
        if op == "==" and self.limits.get("ties") is False and not t.is_const():
            raise Tie()
        self._facts(t, op)

    def _facts(self, t, op):
        """learn sign / bound facts from a path constraint"""
        if op in ("<", "<="):
            t, op = -t, {"<": ">", "<=": ">="}[op]
        if op in (">", ">="):
            cont, coef, prim = T.content(t) if len(t.m) > 1 else (None, None, None)
            if prim is not None:
                s = T.mono_sign(cont, coef)
                if s in ("+", "-"):
                    a = T.sum_atom(prim)
                    pos = s == "+"
                    T.PATH_SIGN[a.id] = ("+" if pos else "-") if op == ">" else ("0+" if pos else "0-")
                # bound on a variable: c1*x + c0
                self._varbound(t)
                self._logbound(t)
            else:
                k, c = t.single() if t.m else ((), 0)
                if len(k) == 1 and op == ">" and T.atom_sign(T.ATOMS[k[0][0]]) == "?" and k[0][1] == T.ONE_EXPO:
                    T.PATH_SIGN[k[0][0]] = "+" if c > 0 else "-"
                elif len(k) == 1 and op == ">=" and T.atom_sign(T.ATOMS[k[0][0]]) == "?" and k[0][1] == T.ONE_EXPO:
                    T.PATH_SIGN[k[0][0]] = "0+" if c > 0 else "0-"
                elif len(k) > 1:
                    unk = [(a, e) for a, e in k if T.atom_sign(T.ATOMS[a]) not in ("+", "0+")]
                    if len(unk) == 1 and unk[0][1] == T.ONE_EXPO:
                        p = c > 0
                        T.PATH_SIGN[unk[0][0]] = ("+" if p else "-") if op == ">" else ("0+" if p else "0-")
            self.iv.clear()
        elif op == "!=":
            k = t.single()
            if k is not None and len(k[0]) == 1 and k[0][0][1] == T.ONE_EXPO:
                a = T.ATOMS[k[0][0][0]]
                s = T.atom_sign(a)
                if s == "0+":
                    T.PATH_SIGN[a.id] = "+"
                    if a.sign == "0+":
                        a.sign = "+"
                elif s == "0-":
                    T.PATH_SIGN[a.id] = "-"
            self.iv.clear()

    def _varbound(self, t):
        """t >(=) 0 with t = c1*x^1 + c0"""
        if len(t.m) != 2 or () not in t.m:
            return
        c0 = t.m[()]
        (k, c1), = [(k, c) for k, c in t.m.items() if k != ()]
        if len(k) == 1:
            et = T.EXPO[k[0][1]]
            if et.is_const() and et.const() == 1:
                b = -c0 / c1
                if c1 > 0:
                    self.iv.refine(k[0][0], lo=b)
                else:
                    self.iv.refine(k[0][0], hi=b)

    def _logbound(self, t):
        pass

    def decide(self, t, op):
        """truth value of  t op 0  on this path, forking if both possible"""
        s = self.iv.sign(t)
        known = {
            ">": {"+": True, "-": False, "0": False, "0-": False},
            ">=": {"+": True, "-": False, "0": True, "0+": True},
            "<": {"-": True, "+": False, "0": False, "0+": False},
            "<=": {"-": True, "+": False, "0": True, "0-": True},
            "==": {"0": True, "+": False, "-": False},
            "!=": {"0": False, "+": True, "-": True},
        }[op].get(s)
        if known is not None:
            return known
        if len(t.m) > 1 and T.normal_zero(t):
            return op in (">=", "<=", "==")
        nt, flip = normed(t)
        o = MIRROR[op] if flip else op
        want = SIGNS[o]
        ent = None
        for e in self.decided.setdefault(nt.skey()[0], []):
            if e[0].same(nt):
                ent = e
                break
        if ent is None:
            ent = [nt, frozenset("-0+")]
            self.decided[nt.skey()[0]].append(ent)
        if ent[1] <= want:
            return True
        if not ent[1] & want:
            return False
        r = self.fork([((t, op),), ((t, FLIP[op]),)]) == 0
        ent[1] = ent[1] & (want if r else frozenset("-0+") - want)
        if ent[1] == frozenset("0") and self.limits.get("ties") is False:
            raise Tie()
        return r

    def token(self, s, prec=None, rel=False):
        """text of a symbolic value: equal texts for equal values (forks).

        With prec, the text is rounded: values much closer than that precision
        may or may not share it, and the path where they do is explored."""
        if s.is_const():
            return repr(float(s.cval()))
        st = stems(s.t)
        for t, mark in self.tokens:
            if t.same(s.t) or (stems(t) & st and self.decide(s.t - t, "==")):
                return mark
        if prec is not None:
            for t, mark in self.tokens:
                if not stems(t) & st:
                    continue
                lim = abs(Sym(t)).t.scale(prec * 0.3) if rel else T.const(prec * 0.3)
                d = s.t - t
                if self.decide(d - lim, "<") and self.decide(-d - lim, "<"):
                    return mark
        self.tokens.append((s.t, "1.%dS" % len(self.tokens)))
        return self.tokens[-1][1]

    def fork(self, alts, feas=True):
        """alts: list of tuples of (Term, op) constraints; returns chosen index"""
        i = len(self.trace)
        if i < len(self.prefix):
            ch = self.prefix[i]
            self.trace.append(ch)
            for t, op in alts[ch]:
                self.constrain(t, op)
            return ch
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        if len(self.trace) > self.limits.get("max_decisions", 400):
            raise Budget("decisions")
        ok = []
        for j, alt in enumerate(alts):
            if not alt or not feas:
                ok.append(j)
                continue
            if j == len(alts) - 1 and not ok and len(alts) == 2:
                # the other side is infeasible: this one must be feasible
                ok.append(j)
                continue
            r, m = self.ps.check(list(alt), timeout=self.limits.get("branch_ms", 1000))
            if r == "unknown":
                self.branch_unknown += 1
            if r != "unsat":
                ok.append(j)
        if not ok:
            raise Infeasible()
        ch = ok[0]
        for j in ok[1:]:
            self.pending.append(list(self.trace) + [j])
        self.trace.append(ch)
        for t, op in alts[ch]:
            self.constrain(t, op)
        return ch


# --------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("t", "op")

    def __init__(self, t, op):
        self.t, self.op = t, op

    def __bool__(self):
        return CTX.decide(self.t, self.op)

    def __invert__(self):
        return SymBool(self.t, FLIP[self.op])

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __mul__(self, o):
        return bool(self) * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<%r %s 0>" % (self.t, self.op)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


NUM = (int, float, Fraction, np.floating, np.integer, np.bool_)


def lift(x):
    """number -> Sym (or None)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, NUM):
        return Sym.of(float(x))
    if isinstance(x, SymBool):
        return Sym.of(float(bool(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0 and type(x) is np.ndarray:
        return lift(x[()])
    return None


class Sym(numbers.Number):
    __slots__ = ("t", "sp")

    def __init__(self, t, sp=None):
        self.t = t
        self.sp = sp
        if KEEP is not None:
            KEEP.append(self)    # object identities stay unique on the path

    @staticmethod
    def of(x):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return Sym(None, x)
        return Sym(T.const(x))

    # -- helpers
    def fin(self):
        return self.sp is None

    def sgn(self):
        """-1, 0, 1 (forks)"""
        if self.sp is not None:
            return int(np.sign(self.sp)) if self.sp == self.sp else float("nan")
        s = CTX.iv.sign(self.t)
        if s in ("+", "-", "0"):
            return {"+": 1, "-": -1, "0": 0}[s]
        if s == "0+":
            return 1 if CTX.decide(self.t, ">") else 0
        if s == "0-":
            return -1 if CTX.decide(self.t, "<") else 0
        if CTX.decide(self.t, ">"):
            return 1
        return -1 if CTX.decide(self.t, "<") else 0

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            if self.sp is not None and o.sp is not None:
                return Sym.of(self.sp + o.sp)
            return Sym(None, self.sp if self.sp is not None else o.sp)
        return Sym(self.t + o.t)

    __radd__ = __add__

    def __neg__(self):
        if self.sp is not None:
            return Sym(None, -self.sp)
        return Sym(-self.t)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            if self.isnan() or o.isnan():
                return Sym.of(math.nan)
            a = self.sp if self.sp is not None else float(self.sgn())
            b = o.sp if o.sp is not None else float(o.sgn())
            return Sym.of(a * b)
        return Sym(self.t * o.t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        q = (self / o).floor()
        return self - q * o

    def __pow__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return _pow(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return _pow(o, self)

    def __abs__(self):
        if self.sp is not None:
            return Sym(None, abs(self.sp))
        s = CTX.iv.sign(self.t)
        if s in ("+", "0+", "0"):
            return self
        if s in ("-", "0-"):
            return -self
        return self if CTX.decide(self.t, ">=") else -self

    # -- comparisons
    def _cmp(self, o, op):
        if o is None:
            return op == "!="
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        o = o2
        if self.sp is not None or o.sp is not None:
            a = self.sp if self.sp is not None else 0.0
            b = o.sp if o.sp is not None else 0.0
            return {">": a > b, ">=": a >= b, "<": a < b, "<=": a <= b,
                    "==": a == b, "!=": a != b}[op]
        return SymBool(self.t - o.t, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not hasattr(o, "__array__") else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not hasattr(o, "__array__") else r

    def __hash__(self):
        if self.sp is not None:
            return hash(self.sp)
        return hash(self.t.skey()[0])

    def __bool__(self):
        if self.sp is not None:
            return True
        return CTX.decide(self.t, "!=")

    # -- conversions
    def is_const(self):
        return self.sp is not None or self.t.is_const()

    def cval(self):
        return self.sp if self.sp is not None else self.t.const()

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return concretize_int(self, "trunc")

    def __index__(self):
        return int(self)

    __trunc__ = __int__

    def __round__(self, n=None):
        if self.is_const():
            return round(self.cval(), n) if n is not None else round(self.cval())
        if self.sp is not None:
            return self
        n = int(n or 0)
        a = T.atom_for("fn", "round:%d" % n, (T.expand(self.t),), "?")
        r = Rounded(T.Term({((a.id, T.ONE_EXPO),): 1.0}))
        r.digits = n
        return r

    def floor(self):
        if self.is_const():
            return Sym.of(math.floor(self.cval()))
        return Sym.of(concretize_int(self, "floor"))

    def ceil(self):
        if self.is_const():
            return Sym.of(math.ceil(self.cval()))
        return Sym.of(-concretize_int(-self, "floor"))

    def trunc(self):
        return Sym.of(int(self))

    rint = None

    def __floor__(self):
        return int(self.floor().cval())

    def __ceil__(self):
        return int(self.ceil().cval())

    # -- unary functions used by numpy object loops
    def exp(self):
        if self.sp is not None:
            return Sym.of(math.exp(self.sp) if self.sp < 0 else self.sp)
        return Sym(T.t_exp(self.t))

    def expm1(self):
        return self.exp() - 1.0

    def exp2(self):
        return _pow(Sym.of(2.0), self)

    def log(self):
        if self.sp is not None:
            return Sym.of(self.sp if self.sp > 0 else math.nan)
        s = self.sgn()
        if s == 0:
            return Sym(None, -math.inf)
        if s < 0:
            return Sym(None, math.nan)
        if self.t.is_const():
            return Sym(T.const(math.log(self.t.const())))
        return Sym(T.t_ln(self.t))

    def log10(self):
        if self.sp is None and self.t.is_const() and self.t.const() > 0:
            return Sym(T.const(math.log10(self.t.const())))
        r = self.log()
        return r if r.sp is not None else Sym(r.t.scale(1.0 / math.log(10.0)))

    def log2(self):
        r = self.log()
        return r if r.sp is not None else Sym(r.t.scale(1.0 / math.log(2.0)))

    def log1p(self):
        return (self + 1.0).log()

    def sqrt(self):
        return _pow(self, Sym.of(0.5))

    def cbrt(self):
        if self.sp is not None:
            return self
        s = self.sgn()
        if s == 0:
            return Sym(T.ZERO)
        if s < 0:
            return -Sym(T.t_powc(-self.t, 1.0 / 3.0))
        return Sym(T.t_powc(self.t, 1.0 / 3.0))

    def square(self):
        return self * self

    def cos(self):
        return self._fn("cos", math.cos)

    def sin(self):
        return self._fn("sin", math.sin)

    def _fn(self, name, f):
        if self.is_const():
            return Sym.of(f(self.cval()))
        a = T.atom_for("fn", name, (T.expand(self.t),), "?")
        return Sym(T.Term({((a.id, T.ONE_EXPO),): 1.0}))

    def fabs(self):
        return abs(self)

    def sign(self):
        return Sym.of(self.sgn())

    def conjugate(self):
        return self

    def isnan(self):
        return self.sp is not None and self.sp != self.sp

    def isinf(self):
        return self.sp is not None and abs(self.sp) == math.inf

    def isfinite(self):
        return self.sp is None

    def is_integer(self):
        raise Unsupported("is_integer")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")

    def __repr__(self):
        if CTX is not None and CTX.printed is not None:
            return self.__format__("")
        if CTX is not None and CTX.tokens is not None:
            return CTX.token(self)
        if self.sp is not None:
            return "S(%r)" % self.sp
        return "S(%r)" % (self.t,)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        if CTX is not None and (CTX.tokens is not None or CTX.printed is not None):
            m = _PREC.search(spec)
            if CTX.printed is not None:
                CTX.printed.append((self, m and (int(m.group(1)), m.group(2))))
                return "<%dS>" % (len(CTX.printed) - 1)
            return CTX.token(self, 10.0 ** -int(m.group(1)) if m else None,
                             m is not None and m.group(2) in "eEgG")
        return "<sym>"


class Rounded(Sym):
    """result of round(x, digits)"""
    __slots__ = ("digits",)


def to_int(x):
    """int() for code that only prints the integer"""
    if isinstance(x, Rounded) and x.digits <= 0:
        return x
    return int(x)


def stems(t):
    """which kinds of inputs (names without numbering) a term is made of"""
    r = set()
    for k in t.m:
        for a, _ in k:
            at = T.ATOMS[a]
            r.add(at.name.rstrip("0123456789_") if at.kind == "var" else "*")
    return r


_PREC = re.compile(r"\.(\d+)([eEfFgG]?)")


def affine1(t):
    """c1*x + c0 in one atom"""
    return solve.affine(t) is not None


def _div(a, b):
    if a.isnan() or b.isnan():
        return Sym.of(math.nan)
    if a.sp is not None or b.sp is not None:
        if b.sp is not None and a.sp is None:
            return Sym.of(0.0) if b.sp == b.sp else Sym.of(math.nan)
        if b.sp is not None:
            return Sym.of(math.nan)
        s = b.sgn()
        if s == 0:
            s = 1
        return Sym.of(a.sp * s)
    if not b.t.is_zero() and affine1(b.t) and CTX.iv.sign(b.t) == "?":
        b.sgn()     # settle the sign now: it refines the variable's interval
    if b.t.is_zero() or not CTX.decide(b.t, "!="):
        s = a.sgn()
        return Sym.of(math.nan if s == 0 else s * math.inf)
    if a.t.is_zero():
        return Sym(T.ZERO)
    return Sym(a.t * T.inv(b.t))


def _pow(a, b):
    if b.sp is not None or a.sp is not None:
        if b.is_const() and b.cval() == 0:
            return Sym.of(1.0)
        if a.is_const() and b.is_const():
            with np.errstate(all="ignore"):
                return Sym.of(np.float64(a.cval()) ** np.float64(b.cval()))
        if a.sp is not None:
            if a.sp != a.sp:
                return a
            s = b.sgn()
            if a.sp > 0:
                return Sym.of(math.inf if s > 0 else (1.0 if s == 0 else 0.0))
            raise Unsupported("(-inf)**sym")
        if b.sp != b.sp:
            return b
        d = (a - 1.0).sgn()
        if a.sgn() < 0:
            raise Unsupported("neg ** inf")
        up = (d > 0) == (b.sp > 0)
        return Sym.of(1.0 if d == 0 else (math.inf if up else 0.0))
    if b.t.is_const():
        p = b.t.const()
        if p == 0:
            return Sym.of(1.0)
        if a.t.is_const():
            with np.errstate(all="ignore"):
                return Sym.of(np.float64(a.t.const()) ** np.float64(p))
        if p == int(p):
            if p < 0:
                return _div(Sym.of(1.0), _pow(a, Sym.of(-p)))
            return Sym(T.t_powc(a.t, p))
        s = a.sgn() if CTX.iv.sign(a.t) not in ("0+",) or p < 0 else 1
        if s < 0:
            return Sym.of(math.nan)
        if s == 0:
            return Sym.of(0.0 if p > 0 else math.inf)
        return Sym(T.t_powc(a.t, p))
    s = a.sgn()
    if s < 0:
        return Sym.of(math.nan)
    if s == 0:
        sb = b.sgn()
        return Sym.of(0.0 if sb > 0 else (1.0 if sb == 0 else math.inf))
    return Sym(T.t_pow(a.t, b.t))


MAX_INTS = 64


def _explog(t):
    """(exp(t/c0), c0 > 0) for t a sum of logarithms, so that bounds of t are bounds of a
    product"""
    cs = []
    for m, c in t.m.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != T.ONE_EXPO or T.ATOMS[m[0][0]].name != "ln":
            return None, None
        cs.append(abs(c))
    if not cs or max(cs) > 1.001 * min(cs) or abs(t.m.get((), 0.0)) / cs[0] > 300:
        return None, None
    return T.t_exp(t.scale(1.0 / cs[0])), cs[0]


def concretize_int(s, how):
    lo, hi = CTX.iv.term(s.t)
    if how == "trunc":
        neg = s.sgn() < 0 if lo < 0 else False
        if neg:
            return -concretize_int(-s, "floor")
    if not (math.isfinite(lo) and math.isfinite(hi)):
        raise Unsupported("unbounded int() of %s in %s" % (s, (lo, hi)))
    if lo >= 0 and how == "trunc":
        lo = max(lo, 0.0)
    a, b = math.floor(lo), math.floor(hi)
    if b - a > CTX.limits.get("max_ints", MAX_INTS):
        raise Unsupported("int() over %d values" % (b - a))
    if a == b:
        return a
    alts = []
    ex, c0 = _explog(s.t)
    for k in range(a, b + 1):
        c = []
        if k > a:
            c.append((s.t - T.const(k), ">="))
            if ex is not None:
                c.append((ex - T.const(math.exp(k / c0)), ">="))
        if k < b:
            c.append((s.t - T.const(k + 1), "<"))
            if ex is not None:
                c.append((ex - T.const(math.exp((k + 1) / c0)), "<"))
        alts.append(tuple(c))
    i = CTX.fork(alts)
    return a + i
