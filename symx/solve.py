"""z3 encoding of path constraints and obligations."""
import math
import os
import time
from fractions import Fraction

import z3

from . import term as T

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "canonical": 0, "interval": 0, "constant": 0, "time": 0.0}
TIMEOUT_MS = 3000
SAVE_SMT = None


def frac(c):
    return Fraction(repr(float(c)))


def rv(c):
    if c != c or abs(c) == math.inf:
        raise T.Unsupported("non-finite coefficient %r" % c)
    f = frac(c)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def small_rational(c):
    for q in (1, 2, 3, 4, 5, 6):
        p = round(c * q)
        if abs(c * q - p) < 1e-12 * max(1, abs(p)) and abs(p) <= 24:
            return p, q
    return None


class Encoder:
    """Encodes Terms; accumulates side constraints (definitions, axioms)."""

    def __init__(self):
        self.atoms = {}
        self.roots = {}
        self.pows = {}
        self.defs = []        # always-on definitional constraints
        self.logpairs = []    # (value expr, log expr)
        self.n_ax = 0

    def atom(self, aid):
        r = self.atoms.get(aid)
        if r is not None:
            return r
        a = T.ATOMS[aid]
        if a.kind in ("var", "uf"):
            v = z3.Real("a%d_%s" % (aid, a.name))
            self.atoms[aid] = v
            if a.lo is not None:
                self.defs.append(v >= rv(a.lo))
            if a.hi is not None:
                self.defs.append(v <= rv(a.hi))
            if a.sign == "+":
                self.defs.append(v > 0)
            elif a.sign == "0+":
                self.defs.append(v >= 0)
            return v
        if a.kind == "E":
            v = rv(math.e)
        elif a.kind == "sum":
            v = self.term(a.args[0])
            if T.atom_sign(a) == "+" and a.sign == "+":
                pass
        elif a.name == "ln":
            v = z3.Real("ln%d" % aid)
            self.atoms[aid] = v
            (bm, bc) = a.args[0].as_mono()
            base = self.atom(bm[0][0])
            self.logpairs.append((base, v))
            return v
        elif a.name in ("cos", "sin"):
            v = z3.Real("%s%d" % (a.name, aid))
            self.defs += [v <= 1, v >= -1]
        elif a.name.startswith("round:"):
            v = z3.Real("round%d" % aid)
            x, h = self.term(a.args[0]), rv(0.5 * 10.0 ** -int(a.name[6:]))
            self.defs += [v - x <= h, x - v <= h]
        elif a.name == "abs":
            x = self.term(a.args[0])
            v = z3.If(x >= 0, x, -x)
        else:
            v = z3.Real("f%d" % aid)
        self.atoms[aid] = v
        return v

    def power(self, aid, eid):
        key = (aid, eid)
        r = self.pows.get(key)
        if r is not None:
            return r
        a = T.ATOMS[aid]
        et = T.EXPO[eid]
        if et.is_const():
            pq = small_rational(et.const())
            if pq and a.kind != "E":
                p, q = pq
                b = self.atom(aid)
                if q != 1:
                    rk = (aid, q)
                    if rk not in self.roots:
                        y = z3.Real("rt%d_%d" % rk)
                        self.defs.append(y >= 0)
                        yy = y
                        for _ in range(q - 1):
                            yy = yy * y
                        self.defs.append(yy == b)
                        self.roots[rk] = y
                    b = self.roots[rk]
                r = self._ipow(b, p)
                self.pows[key] = r
                return r
        p = z3.Real("pw%d_%d" % key)
        self.defs.append(p > 0)
        if a.kind == "E":
            L = self.term(et)
        else:
            la = T.ln_atom(a)
            lt = T.Term({((la.id, T.ONE_EXPO),): 1.0}) * et
            L = self.term(lt)
        self.logpairs.append((p, L))
        self.pows[key] = p
        return p

    @staticmethod
    def _ipow(b, p):
        n = abs(p)
        r = b
        for _ in range(n - 1):
            r = r * b
        if n == 0:
            return z3.RealVal(1)
        return r if p > 0 else 1 / r

    def term(self, t):
        if t.is_const():
            return rv(t.const())
        parts = []
        for k in sorted(t.m):
            c = t.m[k]
            e = rv(c) if c != 1.0 or not k else None
            for a, x in k:
                f = self.power(a, x)
                e = f if e is None else e * f
            parts.append(e)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def axioms(self):
        """facts about (value, log) pairs"""
        ax = []
        ps = self.logpairs[:14]
        for v, L in ps:
            ax.append(v > 0)
            ax.append(v >= 1 + L)
            ax.append(L * v >= v - 1)
            ax.append((v > 1) == (L > 0))
            ax.append((v == 1) == (L == 0))
        for i in range(len(ps)):
            for j in range(i):
                ax.append((ps[i][0] < ps[j][0]) == (ps[i][1] < ps[j][1]))
                ax.append((ps[i][0] == ps[j][0]) == (ps[i][1] == ps[j][1]))
        return ax


def affine(t):
    """(atom, c1, c0) if t = c1*var + c0, else None"""
    if len(t.m) != 2 or () not in t.m:
        return None
    for k, c in t.m.items():
        if k != ():
            if len(k) == 1 and k[0][1] == T.ONE_EXPO and T.ATOMS[k[0][0]].kind in ("var", "uf"):
                return k[0][0], c, t.m[()]
    return None


def sign_poly(t):
    """Term with the same sign as t and without negative exponents on atoms
    whose denominators can be cleared."""
    t2, _ = _clear(t)
    return t2


def _clear(t):
    den = {}
    for k in t.m:
        for a, e in k:
            et = T.EXPO[e]
            if et.is_const() and et.const() < 0:
                den[a] = min(den.get(a, 0.0), et.const())
    if not den:
        return t, []
    mul = []
    for a, x in den.items():
        n = -x
        s = T.atom_sign(T.ATOMS[a])
        if s != "+":
            if n != int(n):
                continue
            if int(n) % 2:
                n += 1
        mul.append((a, T.expo_id(T.const(n))))
    mul = tuple(sorted(mul))
    out = {}
    for k, c in t.m.items():
        kk = T.mul_mono(k, mul)
        out[kk] = out.get(kk, 0.0) + c
    return T.Term(out), list(den)


def rescale(t):
    """divide by the geometric-mean magnitude of the coefficients"""
    if not t.m:
        return t
    mx = max(abs(c) for c in t.m.values())
    return t.scale(1.0 / mx)


def seed():
    return int(os.environ.get("SYMX_Z3SEED") or os.environ.get("VERIF_SEED") or 1)


class PathSolver:
    """Path condition plus queries.  Each query is sliced to the constraints
    that share base variables (transitively) with the goal; the rest of the
    path condition is independent of it and already known satisfiable."""

    def __init__(self):
        self.constraints = []   # (Term, op) with op in > >= == != < <=
        self.cvars = []         # base variables of each constraint
        self.bounds = []        # (atom, is lower, value, strict) or None
        self._bv = {}
        self.last_enc = None

    def add(self, t, op):
        af = affine(t) if op in (">", ">=", "<", "<=") else None
        if af is not None:
            # a plain bound: drop the same variable's weaker bounds
            a, c1, c0 = af
            up = (c1 > 0) == (op in (">", ">="))       # lower bound
            b, strict = -c0 / c1, op in (">", "<")
            for i in range(len(self.constraints) - 1, -1, -1):
                m = self.bounds[i]
                if m is None or m[0] != a or m[1] != up:
                    continue
                if (m[2] > b if up else m[2] < b) or (m[2] == b and m[3]):
                    return
                del self.constraints[i], self.cvars[i], self.bounds[i]
            self.bounds.append((a, up, b, strict))
        else:
            self.bounds.append(None)
        self.constraints.append((t, op))
        self.cvars.append(self.basevars(t))

    def basevars(self, t):
        out = set()
        for a in T.atoms_in(t):
            if T.ATOMS[a].kind in ("var", "uf"):
                out.add(a)
        return frozenset(out)

    def slice(self, goals):
        want = set()
        for t, o in goals:
            want |= self.basevars(t)
        left = list(range(len(self.constraints)))
        pick = []
        changed = True
        while changed:
            changed = False
            for i in list(left):
                if self.cvars[i] & want:
                    want |= self.cvars[i]
                    pick.append(i)
                    left.remove(i)
                    changed = True
        return [self.constraints[i] for i in sorted(pick)]

    @staticmethod
    def cons(enc, t, op):
        t = rescale(sign_poly(t))
        e = enc.term(t)
        z = z3.RealVal(0)
        return {">": e > z, ">=": e >= z, "==": e == z, "!=": e != z,
                "<": e < z, "<=": e <= z}[op]

    def confirm(self, a, b):
        """z3 verdict on  a != b  for two canonically equal terms (coefficients
        of the same monomial equal up to rounding are identified)"""
        t0 = time.time()
        b2 = T.Term({k: (a.m[k] if k in a.m and abs(a.m[k] - c) <= 1e-10 * abs(c) else c)
                     for k, c in b.m.items()})
        enc = Encoder()
        s = z3.Solver()
        s.set("timeout", 300)
        try:
            s.add(enc.term(a) != enc.term(b2), *enc.defs)
            r = str(s.check())
        except (T.Unsupported, z3.Z3Exception):
            r = "unknown"
        STATS["queries"] += 1
        STATS["canonical" if r == "unknown" else r] += 1
        STATS["time"] += time.time() - t0
        return r

    def check(self, goals, timeout=None, full=False, fix=None):
        """goals: list of (Term, op); fix: {atom id: float}
        -> ('sat'|'unsat'|'unknown', model)"""
        t0 = time.time()
        enc = Encoder()
        self.last_enc = enc
        cs = self.constraints if full else self.slice(goals)
        seen = set()
        zs = []
        for t, o in list(cs) + list(goals):
            zs.append(self.cons(enc, t, o))
        for a, v in (fix or {}).items():
            if a in enc.atoms:
                zs.append(enc.atoms[a] == rv(v))
        STATS["queries"] += 1
        r, m = self._solve(zs + list(enc.defs), timeout)
        if r != "unsat" and enc.logpairs:
            ax = enc.axioms()
            r2, m2 = self._solve(zs + list(enc.defs) + ax, timeout)
            if r2 != "unknown":
                r, m = r2, m2
            else:
                r = "unknown" if r == "unknown" else "sat"
        STATS[r] += 1
        dt = time.time() - t0
        STATS["time"] += dt
        if dt > float(os.environ.get("SYMX_SLOW") or 1e9):
            print("SLOW %.2f %s" % (dt, r), [repr(g)[:300] for g in goals], len(cs), len(enc.logpairs))
        return r, m

    def _solve(self, zs, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout or TIMEOUT_MS))
        s.set("random_seed", seed())
        s.add(*zs)
        r = s.check()
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        return "unknown", None

    def values(self, model, aids):
        env = {}
        for a in aids:
            v = self.last_enc.atoms.get(a)
            at = T.ATOMS[a]
            x = None
            if v is not None and model is not None:
                mv = model.eval(v, model_completion=True)
                x = zfloat(mv)
            if x is None:
                x = default_value(at)
            if at.lo is not None:
                x = max(x, at.lo)
            if at.hi is not None:
                x = min(x, at.hi)
            env[a] = x
        return env


def zfloat(mv):
    try:
        if z3.is_algebraic_value(mv):
            mv = mv.approx(20)
        if z3.is_rational_value(mv):
            return float(Fraction(mv.numerator_as_long(), mv.denominator_as_long()))
    except (OverflowError, AttributeError):
        return None
    return None


def default_value(at):
    lo, hi = at.lo, at.hi
    if lo is not None and hi is not None:
        if lo > 0:
            return math.sqrt(lo * hi)
        return 0.5 * (lo + hi)
    if lo is not None:
        return lo + 1.0
    if at.sign == "+":
        return 1.0
    return 0.5
