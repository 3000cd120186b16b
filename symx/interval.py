"""Interval evaluation of Terms over the (path-refined) variable bounds.

Used only to decide signs cheaply; every decision keeps a relative margin so
that float rounding in the interval arithmetic cannot flip it."""
import math

from . import term as T

INF = math.inf


def _mul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


def _add(a, b):
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    return lo, hi


def _pown(x, y):
    try:
        return x ** y
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF


def _pow(b, e):
    """interval power; b interval, e interval"""
    if e[0] == e[1]:
        x = e[0]
        if x == int(x):
            n = int(x)
            if n % 2 == 0:
                lo, hi = abs(b[0]), abs(b[1])
                if b[0] <= 0 <= b[1]:
                    m, M = 0.0, max(lo, hi)
                else:
                    m, M = min(lo, hi), max(lo, hi)
                if n >= 0:
                    return _pown(m, n), _pown(M, n)
                return (0.0 if M == INF else _pown(M, n)), (INF if m == 0 else _pown(m, n))
            if n > 0:
                lo = -_pown(-b[0], n) if b[0] < 0 else _pown(b[0], n)
                hi = -_pown(-b[1], n) if b[1] < 0 else _pown(b[1], n)
                return lo, hi
            if b[0] > 0 or b[1] < 0:
                v = sorted((_sp(b[0], n), _sp(b[1], n)))
                return v[0], v[1]
            if b[0] == 0:
                return (_sp(b[1], n), INF)
            return -INF, INF
    lo = max(b[0], 0.0)
    hi = max(b[1], 0.0)
    if lo == 0:
        if e[0] > 0:
            return 0.0, max(_pown(hi, e[0]), _pown(hi, e[1]))
        return 0.0, INF
    vs = []
    for x in (lo, hi):
        for y in e:
            if x == INF:
                vs.append(INF if y > 0 else (1.0 if y == 0 else 0.0))
            elif y == INF:
                vs.append(INF if x > 1 else (1.0 if x == 1 else 0.0))
            elif y == -INF:
                vs.append(0.0 if x > 1 else (1.0 if x == 1 else INF))
            else:
                vs.append(_pown(x, y))
    return min(vs), max(vs)


def _sp(x, n):
    if abs(x) == INF:
        return 0.0
    return x ** n


def widen(iv):
    lo, hi = iv
    return (lo - 1e-12 * abs(lo) if abs(lo) != INF else lo,
            hi + 1e-12 * abs(hi) if abs(hi) != INF else hi)


class Intervals:
    def __init__(self):
        self.cache = {}
        self.facts = {}    # atom id -> (lo, hi) path refinement
        self.signs = {}    # sum atom id -> sign from its interval
        self.busy = set()

    def sum_sign(self, a):
        r = self.signs.get(a.id)
        if r is None:
            if a.id in self.busy:
                return "?"
            self.busy.add(a.id)
            lo, hi = self.term(a.args[0])
            self.busy.discard(a.id)
            r = "+" if lo > 0 else ("-" if hi < 0 else ("0+" if lo >= 0 else "?"))
            self.signs[a.id] = r
        return r

    def clear(self):
        self.cache.clear()
        for k in [k for k, v in self.signs.items() if v not in "+-"]:
            del self.signs[k]

    def refine(self, aid, lo=None, hi=None):
        a, b = self.facts.get(aid, (-INF, INF))
        if lo is not None and lo > a:
            a = lo
        if hi is not None and hi < b:
            b = hi
        self.facts[aid] = (a, b)
        self.clear()

    def atom(self, aid):
        r = self.cache.get(aid)
        if r is not None:
            return r
        at = T.ATOMS[aid]
        self.cache[aid] = (-INF, INF)  # recursion guard
        if at.kind == "E":
            r = (math.e, math.e)
        elif at.kind in ("var", "uf"):
            r = (at.lo if at.lo is not None else -INF,
                 at.hi if at.hi is not None else INF)
            if at.sign in ("+", "0+") and r[0] < 0:
                r = (0.0, r[1])
        elif at.kind == "sum":
            r = self.term(at.args[0])
            if r[0] <= 0 <= r[1] and T.any_sum_pos(at.args[0]):
                e = widen(self.term(T.expand(at.args[0])))    # terms that cancel inside
                r = (max(r[0], e[0]), min(r[1], e[1])) if e[0] <= r[1] and r[0] <= e[1] else r
        elif at.name == "ln":
            lo, hi = self.term(at.args[0])
            r = (math.log(lo) if lo > 0 and lo != INF else -INF,
                 math.log(hi) if 0 < hi < INF else INF)
            r = widen(r)
        elif at.name in ("cos", "sin"):
            r = (-1.0, 1.0)
        elif at.name.startswith("round:"):
            lo, hi = self.term(at.args[0])
            h = 0.5 * 10.0 ** -int(at.name[6:])
            r = widen((lo - h, hi + h))
        elif at.name == "abs":
            lo, hi = self.term(at.args[0])
            r = ((0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi)))
        else:
            r = (-INF, INF)
        s = T.atom_sign(at)
        if s in ("+", "0+") and r[0] < 0:
            r = (0.0, r[1])
        f = self.facts.get(aid)
        if f:
            r = (max(r[0], f[0]), min(r[1], f[1]))
        self.cache[aid] = r
        return r

    def term(self, t):
        tot = (0.0, 0.0)
        for k, c in t.m.items():
            iv = (c, c)
            for a, e in k:
                b = self.atom(a)
                et = T.EXPO[e]
                x = (et.const(), et.const()) if et.is_const() else self.term(et)
                iv = _mul(iv, widen(_pow(b, x)))
            tot = _add(tot, widen(iv))
        return tot

    def sign(self, t):
        s = T.sign_of(t)
        if s in ("0", "+", "-"):
            return s
        lo, hi = self.term(t)
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
        if s in ("0+", "0-"):
            return s
        # factored view
        if len(t.m) > 1:
            cont, coef, prim = T.content(t)
            if cont:
                plo, phi = self.term(prim)
                cs = T.mono_sign(cont, coef)
                if cs in ("+", "-"):
                    flip = cs == "-"
                    if plo > 0:
                        return "-" if flip else "+"
                    if phi < 0:
                        return "+" if flip else "-"
        if lo >= 0:
            return "0+"
        if hi <= 0:
            return "0-"
        return "?"
