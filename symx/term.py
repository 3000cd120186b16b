"""Canonical real-valued terms over interned atoms.

A Term is a finite sum  sum_i c_i * prod_j atom_j ** expo_ij  with float
coefficients and exponents that are themselves (interned) Terms.  Products and
powers stay factored (a multi-monomial factor becomes an opaque "sum" atom
after its content has been pulled out); sums of monomials are merged.

Coefficients are IEEE doubles produced by the executed code; two coefficients
(or two atoms whose arguments differ only by coefficients) are identified when
they agree to 1e-11 relative.  That identification is the engine's only
rounding rule and is listed in the trusted base.
"""
import math
from fractions import Fraction

CTOL = 2e-12   # relative tolerance for coefficient cancellation
ITOL = 1e-11   # relative tolerance for interning


class Unsupported(Exception):
    """The engine cannot represent an operation symbolically."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "sign", "lo", "hi", "label")
    # sign: '+' strictly positive, '0+' nonnegative, '?' unknown

    def __init__(self, kind, name, args, sign, lo=None, hi=None):
        self.kind, self.name, self.args, self.sign = kind, name, args, sign
        self.lo, self.hi = lo, hi
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "E":
            return "e"
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


ATOMS = []
_intern_atoms = {}
_intern_expo = {}
EXPO = []  # id -> Term
E_ATOM = None
# term -> sign facts discovered on the path ({prim id: '+'})
PATH_SIGN = {}


def reset():
    global E_ATOM, ONE_EXPO
    ATOMS.clear()
    _intern_atoms.clear()
    _intern_expo.clear()
    EXPO.clear()
    PATH_SIGN.clear()
    E_ATOM = Atom("E", "e", (), "+")
    ONE_EXPO = expo_id(const(1.0))


def _close(a, b, tol=ITOL):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("m", "_key")

    def __init__(self, m):
        self.m = m
        self._key = None

    # -- structure
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0.0)

    def is_zero(self):
        return not self.m

    def single(self):
        if len(self.m) == 1:
            return next(iter(self.m.items()))
        return None

    def skey(self):
        """(structure, coefs): structure excludes coefficients"""
        if self._key is None:
            ks = sorted(self.m)
            self._key = (tuple(ks), tuple(self.m[k] for k in ks))
        return self._key

    def same(self, o):
        a, b = self.skey(), o.skey()
        return a[0] == b[0] and all(_close(x, y) for x, y in zip(a[1], b[1]))

    # -- ring ops
    def __add__(self, o):
        if len(o.m) > len(self.m):
            self, o = o, self
        if not o.m:
            return self
        r = dict(self.m)
        for k, c in o.m.items():
            p = r.get(k)
            if p is None:
                r[k] = c
            else:
                s = p + c
                if abs(s) <= CTOL * max(abs(p), abs(c)):
                    del r[k]
                else:
                    r[k] = s
        return Term(r)

    def __neg__(self):
        return Term({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Term({k: v * c for k, v in self.m.items()})

    def __mul__(self, o):
        if not self.m or not o.m:
            return ZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        m1, c1 = self.as_mono()
        m2, c2 = o.as_mono()
        return mono_term(mul_mono(m1, m2), c1 * c2)

    def as_mono(self):
        """(mono, coef) with multi-monomial terms turned into a sum atom"""
        s = self.single()
        if s is not None:
            return s
        cont, coef, prim = content(self)
        a = sum_atom(prim)
        return mul_mono(cont, ((a.id, ONE_EXPO),)), coef

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k in sorted(self.m):
            c = self.m[k]
            fs = []
            for a, e in k:
                et = EXPO[e]
                if et.is_const() and et.const() == 1:
                    fs.append(repr(ATOMS[a]))
                else:
                    fs.append("%r^(%r)" % (ATOMS[a], et))
            if not fs:
                out.append("%.6g" % c)
            elif c == 1:
                out.append("*".join(fs))
            else:
                out.append("%.6g*%s" % (c, "*".join(fs)))
        return " + ".join(out)


ZERO = Term({})


def const(c):
    c = float(c)
    if c == 0.0:
        return ZERO
    return Term({(): c})


ONE = const(1.0)


def expo_id(t):
    st, cs = t.skey()
    c0 = cs[0] if cs else 0.0
    b = int(math.log(abs(c0)) * 1e7) if c0 and abs(c0) < 1e300 else 0
    for k in (b, b - 1, b + 1):
        for cs2, i in _intern_expo.get((st, k), ()):
            if all(_close(x, y) for x, y in zip(cs, cs2)):
                return i
    lst = _intern_expo.setdefault((st, b), [])
    if t.is_const():
        c = snap(t.const())
        t = const(c)
        cs = (c,)
    i = len(EXPO)
    EXPO.append(t)
    lst.append((cs, i))
    return i


def snap(c):
    """snap a float to a nearby small rational"""
    r = round(c)
    if abs(c - r) <= 1e-12 * max(1, abs(c)):
        return float(r)
    for q in (2, 3, 4, 5, 6, 8, 10, 12):
        p = round(c * q)
        if abs(c * q - p) <= 1e-12 * max(1, abs(p)):
            return p / q
    return c


def mono_term(mono, coef):
    """Term for coef*mono; unwraps a lone sum atom with exponent one"""
    if coef == 0:
        return ZERO
    if len(mono) == 1:
        a = ATOMS[mono[0][0]]
        if a.kind == "sum" and mono[0][1] == ONE_EXPO:
            return a.args[0].scale(coef)
    return Term({mono: coef})


def mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            t = EXPO[d[a]] + EXPO[e]
            if t.is_const():
                c = t.const()
                if abs(c) < 1e-13:
                    del d[a]
                    continue
                t = const(snap(c))
            d[a] = expo_id(t)
        else:
            d[a] = e
    return tuple(sorted(d.items()))


def pow_mono_const(m, p):
    return tuple((a, expo_id(EXPO[e].scale(p) if not EXPO[e].is_const()
                             else const(snap(EXPO[e].const() * p))))
                 for a, e in m)


def content(t):
    """t = coef * cont_mono * prim ; prim normalised"""
    monos = list(t.m)
    atoms = {}
    for i, k in enumerate(monos):
        for a, e in k:
            atoms.setdefault(a, {})[i] = e
    cont = []
    n = len(monos)
    for a, d in sorted(atoms.items()):
        e0 = None
        ok = True
        exps = []
        ids = set(d.values())
        if len(d) == n and len(ids) == 1:
            cont.append((a, next(iter(ids))))
            continue
        for i in range(n):
            exps.append(EXPO[d[i]] if i in d else ZERO)
        base = exps[0]
        diffs = []
        for x in exps:
            df = x - base
            if not df.is_const():
                ok = False
                break
            diffs.append(df.const())
        if not ok:
            continue
        mn = min(diffs)
        if ATOMS[a].sign != "+" and not all(
                x.is_const() and x.const() == int(x.const()) for x in exps):
            continue
        e = base + const(mn)
        if e.is_const():
            c = snap(e.const())
            if c == 0:
                continue
            e = const(c)
        cont.append((a, expo_id(e)))
    cont = tuple(cont)
    if cont:
        inv = pow_mono_const(cont, -1.0)
        prim = {}
        for k, c in t.m.items():
            kk = mul_mono(k, inv)
            prim[kk] = prim.get(kk, 0.0) + c
    else:
        prim = dict(t.m)
    lead = min(prim)
    lc = prim[lead]
    # scale so that the leading coefficient is +-1; sign chosen '+', unless all
    # known-sign info says the whole thing is negative
    coef = lc
    prim = Term({k: (c / coef if k != lead else 1.0) for k, c in prim.items()})
    return cont, coef, prim


def atom_for(kind, name, args, sign):
    st = (kind, name, tuple(a.skey()[0] for a in args))
    cs = tuple(c for a in args for c in a.skey()[1])
    lst = _intern_atoms.setdefault(st, [])
    for cs2, at in lst:
        if all(_close(x, y) for x, y in zip(cs, cs2)):
            return at
    at = Atom(kind, name, args, sign)
    lst.append((cs, at))
    return at


def sum_atom(prim):
    s = sign_of(prim)
    return atom_for("sum", "", (prim,), s if s in ("+", "0+") else "?")


def var(name, sign="?", lo=None, hi=None):
    at = Atom("var", name, (), sign, lo, hi)
    return Term({((at.id, ONE_EXPO),): 1.0})


# ---------------------------------------------------------------- sign
def atom_sign(a):
    if a.sign == "+":
        return "+"
    f = PATH_SIGN.get(a.id)
    if f:
        return f
    if a.sign != "?":
        return a.sign
    if a.kind == "sum":
        s = sign_of(a.args[0], nopath=True)
        if s == "?" and SUM_SIGN is not None:
            return SUM_SIGN(a)
        return s
    return "?"


SUM_SIGN = None   # interval-based sign of a sum atom on the current path


def mono_sign(mono, c):
    """'+','-','0+','0-','?'"""
    neg = c < 0
    weak = False
    for a, e in mono:
        at = ATOMS[a]
        s = atom_sign(at)
        if s == "+":
            continue
        et = EXPO[e]
        if et.is_const():
            x = et.const()
            if x == int(x):
                if int(x) % 2 == 0:
                    if s in ("-",):
                        continue
                    weak = True if x > 0 else weak
                    if x < 0:
                        continue
                    continue
                if s == "-":
                    neg = not neg
                    continue
        if s == "0+":
            weak = True
            continue
        if s == "0-" and et.is_const() and et.const() == int(et.const()):
            neg = not neg
            weak = True
            continue
        if s == "-":
            return "?"
        return "?"
    if neg:
        return "0-" if weak else "-"
    return "0+" if weak else "+"


def sign_of(t, nopath=False):
    if not t.m:
        return "0"
    ss = set()
    for k, c in t.m.items():
        ss.add(mono_sign(k, c))
        if "?" in ss:
            break
    if "?" not in ss:
        if ss <= {"+", "0+"}:
            return "+" if "+" in ss else "0+"
        if ss <= {"-", "0-"}:
            return "-" if "-" in ss else "0-"
    if not nopath and len(t.m) > 1 and PATH_SIGN:
        cont, coef, prim = content(t)
        a = sum_atom_lookup(prim)
        if a is not None and PATH_SIGN.get(a.id):
            return mono_sign(mul_mono(cont, ((a.id, ONE_EXPO),)), coef)
    return "?"


def sum_atom_lookup(prim):
    st = ("sum", "", (prim.skey()[0],))
    cs = prim.skey()[1]
    for cs2, at in _intern_atoms.get(st, ()):
        if all(_close(x, y) for x, y in zip(cs, cs2)):
            return at
    return None


# ---------------------------------------------------------------- functions
def t_exp(t):
    """e**t"""
    t = expand(t)
    coef = 1.0
    mono = {}
    rest = {}
    for k, c in t.m.items():
        if k == ():
            if abs(c) < 600:
                coef = math.exp(c)
            else:
                rest[k] = c
            continue
        # find ln atom with exponent one
        hit = None
        for i, (a, e) in enumerate(k):
            if ATOMS[a].kind == "fn" and ATOMS[a].name == "ln" and e == ONE_EXPO:
                hit = (i, a)
                break
        if hit is None:
            rest[k] = c
            continue
        i, a = hit
        base = ATOMS[a].args[0]
        kk = k[:i] + k[i + 1:]
        ex = Term({kk: c})
        (bm, bc) = base.as_mono()
        # base of an ln atom is a single atom by construction
        (ba, be), = bm
        mono.setdefault(ba, []).append(ex)
    out = {}
    for ba, exs in mono.items():
        s = ZERO
        for x in exs:
            s = s + x
        if s.is_const():
            s = const(snap(s.const()))
        if not s.is_zero():
            out[ba] = expo_id(s)
    if rest:
        out[E_ATOM.id] = expo_id(Term(rest))
    return mono_term(tuple(sorted(out.items())), coef)


def t_ln(t):
    """ln t for t known positive"""
    mono, c = t.as_mono()
    # choose sign: c must be >0 after flipping a negative sum atom
    r = ZERO
    if c < 0:
        # flip one odd-power atom of unknown/negative sign
        return ln_atom_of(t)
    # unit conversions leave factors of 1 within rounding
    r = const(math.log(c)) if abs(c - 1.0) > 1e-14 else ZERO
    opaque = []
    for a, e in mono:
        at = ATOMS[a]
        if at.kind == "E":
            r = r + EXPO[e]
        elif atom_sign(at) == "+":
            la = ln_atom(at)
            r = r + Term({((la.id, ONE_EXPO),): 1.0}) * EXPO[e]
        else:
            opaque.append((a, e))
    if opaque:
        if len(opaque) == 1 and not opaque[0][1] == ONE_EXPO:
            a, e = opaque[0]
            et = EXPO[e]
            if et.is_const() and et.const() == int(et.const()) and int(et.const()) % 2 == 0:
                # ln x^2k = 2k ln|x|
                ab = t_abs_atom(ATOMS[a])
                la = ln_atom(ab)
                return r + Term({((la.id, ONE_EXPO),): 1.0}).scale(et.const())
            if et.is_const() and et.const() == int(et.const()):
                # odd power positive => atom positive
                la = ln_atom(ATOMS[a])
                return r + Term({((la.id, ONE_EXPO),): 1.0}).scale(et.const())
        if len(opaque) == 1:
            la = ln_atom(ATOMS[opaque[0][0]])
            return r + Term({((la.id, ONE_EXPO),): 1.0}) * EXPO[opaque[0][1]]
        wrap = atom_for("sum", "", (Term({tuple(opaque): 1.0}),), "+")
        la = ln_atom(wrap)
        r = r + Term({((la.id, ONE_EXPO),): 1.0})
    return r


def ln_atom(at):
    return atom_for("fn", "ln", (Term({((at.id, ONE_EXPO),): 1.0}),), "?")


def ln_atom_of(t):
    # wrap whole (negative-coefficient) term in a sum atom known positive
    if t.single() is not None:
        mono, c = t.single()
        r = const(math.log(-c)) if c != -1.0 else ZERO
        pos = [(a, e) for a, e in mono if atom_sign(ATOMS[a]) == "+"]
        rest = [(a, e) for a, e in mono if atom_sign(ATOMS[a]) != "+"]
        for a, e in pos:
            at = ATOMS[a]
            if at.kind == "E":
                r = r + EXPO[e]
            else:
                r = r + Term({((ln_atom(at).id, ONE_EXPO),): 1.0}) * EXPO[e]
        if len(rest) == 1 and ATOMS[rest[0][0]].kind == "sum" and rest[0][1] == ONE_EXPO:
            inner = -ATOMS[rest[0][0]].args[0]
        else:
            inner = Term({tuple(rest): -1.0})
        wrap = atom_for("sum", "", (inner,), "+")
        return r + Term({((ln_atom(wrap).id, ONE_EXPO),): 1.0})
    cont, coef, prim = content(t)
    return ln_atom_of(mono_term(mul_mono(cont, ((sum_atom(prim).id, ONE_EXPO),)), coef)) \
        if False else _ln_negsum(cont, coef, prim)


def _ln_negsum(cont, coef, prim):
    r = const(math.log(-coef))
    for a, e in cont:
        at = ATOMS[a]
        if at.kind == "E":
            r = r + EXPO[e]
        else:
            r = r + Term({((ln_atom(at).id, ONE_EXPO),): 1.0}) * EXPO[e]
    wrap = atom_for("sum", "", (-prim,), "+")
    return r + Term({((ln_atom(wrap).id, ONE_EXPO),): 1.0})


def t_abs_atom(at):
    if atom_sign(at) in ("+", "0+"):
        return at
    return atom_for("fn", "abs", (Term({((at.id, ONE_EXPO),): 1.0}),), "0+")


def t_powc(t, p):
    """t ** p for a float constant p (caller has dealt with t == 0, t < 0)"""
    p = snap(p)
    if p == 0:
        return ONE
    if p == 1:
        return t
    isint = p == int(p)
    mono, c = t.as_mono()
    if isint:
        try:
            cc = c ** int(p)
        except OverflowError:
            raise Unsupported("coefficient overflow")
        return mono_term(pow_mono_const(mono, p), cc)
    # fractional: t > 0 (or >= 0) known by caller
    pos, opaque = [], []
    for a, e in mono:
        (pos if atom_sign(ATOMS[a]) in ("+", "0+") else opaque).append((a, e))
    r = pow_mono_const(tuple(pos), p)
    if not opaque and c > 0:
        return mono_term(r, c ** p)
    if len(opaque) == 1 and c > 0:
        a, e = opaque[0]
        et = EXPO[e]
        if et.is_const() and et.const() == int(et.const()):
            n = int(et.const())
            at = ATOMS[a]
            if n % 2 == 0:
                at = t_abs_atom(at)
            q = snap(n * p)
            return mono_term(mul_mono(r, ((at.id, expo_id(const(q))),)), c ** p)
    # opaque remainder, positive by the caller's fork
    if not opaque:
        raise Unsupported("power of negative quantity")
    sgn = 1.0 if c > 0 else -1.0
    if len(opaque) == 1 and opaque[0][1] == ONE_EXPO and ATOMS[opaque[0][0]].kind == "sum":
        inner = ATOMS[opaque[0][0]].args[0].scale(sgn)
    else:
        inner = Term({tuple(opaque): sgn})
    if sgn > 0 and len(opaque) == 1 and opaque[0][1] == ONE_EXPO:
        at = ATOMS[opaque[0][0]]
    else:
        at = atom_for("sum", "", (inner,), "0+")
    return mono_term(mul_mono(r, ((at.id, expo_id(const(p))),)), abs(c) ** p)


def t_pow(t, p):
    """t ** p, symbolic p, t > 0"""
    if p.is_const():
        return t_powc(t, p.const())
    if t.is_const():
        c = t.const()
        return t_exp(p.scale(math.log(c)))
    return t_exp(p * t_ln(t))


def inv(t):
    return t_powc(t, -1.0)


# ---------------------------------------------------------------- expansion
MAXEXP = 4000


def expand(t, limit=MAXEXP, deep=True):
    """multiply out sum atoms with positive integer exponents"""
    work = False
    for k in t.m:
        for a, e in k:
            if ATOMS[a].kind == "sum":
                et = EXPO[e]
                if et.is_const() and et.const() > 0 and et.const() == int(et.const()):
                    work = True
    if not work:
        return t
    acc = {}
    mags = {}
    for k, c in t.m.items():
        parts = [({(): 1.0})]
        rest = []
        facs = []
        for a, e in k:
            at = ATOMS[a]
            et = EXPO[e]
            if at.kind == "sum" and et.is_const() and et.const() > 0 and \
                    et.const() == int(et.const()) and et.const() <= 8:
                facs.append((at.args[0], int(et.const())))
            else:
                rest.append((a, e))
        cur = {tuple(rest): c}
        for f, n in facs:
            fe = expand(f, limit)
            for _ in range(n):
                nxt = {}
                mg = {}
                for k1, c1 in cur.items():
                    for k2, c2 in fe.m.items():
                        kk = mul_mono(k1, k2)
                        v = c1 * c2
                        nxt[kk] = nxt.get(kk, 0.0) + v
                        mg[kk] = max(mg.get(kk, 0.0), abs(v))
                cur = {q: v for q, v in nxt.items() if abs(v) > CTOL * mg[q]}
                if len(cur) > limit:
                    return t
        for q, v in cur.items():
            acc[q] = acc.get(q, 0.0) + v
            mags[q] = max(mags.get(q, 0.0), abs(v))
    r = Term({q: v for q, v in acc.items() if abs(v) > 5 * CTOL * mags[q]})
    return expand(r, limit) if any_sum_pos(r) else r


def any_sum_pos(t):
    for k in t.m:
        for a, e in k:
            if ATOMS[a].kind == "sum":
                et = EXPO[e]
                if et.is_const() and 0 < et.const() <= 8 and et.const() == int(et.const()):
                    return True
    return False


def clear_denominators(t):
    """multiply by the sum atoms occurring with negative integer exponents;
    returns (t', [denominator atoms])"""
    den = {}
    for k in t.m:
        for a, e in k:
            et = EXPO[e]
            if et.is_const() and et.const() < 0:
                if ATOMS[a].kind == "sum":
                    den[a] = min(den.get(a, 0.0), et.const())
    if not den:
        return t, []
    mul = tuple(sorted((a, expo_id(const(-x))) for a, x in den.items()))
    out = {}
    for k, c in t.m.items():
        kk = mul_mono(k, mul)
        out[kk] = out.get(kk, 0.0) + c
    return Term(out), list(den)


def distribute(t, largest=False):
    """multiply out, one level, sums whose own terms contain sums; optionally
    only in the monomials with the most factors"""
    acc, mags, done = {}, {}, False
    cut = 0.7 * max((len(k) for k in t.m), default=0) if largest else 0
    for k, c in t.m.items():
        f = None
        for i, (a, e) in enumerate(k):
            at = ATOMS[a]
            if f is None and len(k) >= cut and at.kind == "sum" and e == ONE_EXPO and len(at.args[0].m) <= 64 and \
                    any(ATOMS[b].kind == "sum" for k2 in at.args[0].m for b, _ in k2):
                f, rest = at.args[0], k[:i] + k[i + 1:]
        if f is None:
            items = [(k, c)]
        else:
            done = True
            items = [(mul_mono(rest, k2), c * c2) for k2, c2 in f.m.items()]
        for kk, v in items:
            acc[kk] = acc.get(kk, 0.0) + v
            mags[kk] = max(mags.get(kk, 0.0), abs(v))
    if not done:
        return t
    return Term({q: v for q, v in acc.items() if abs(v) > 5 * CTOL * mags[q]})


def heavy(t):
    """multiplying out t is expensive"""
    return sum(1 for k in t.m for a, e in k if ATOMS[a].kind == "sum") > 12


def normal_zero(t):
    """True if t is identically zero after clearing denominators/expanding"""
    for largest in (True, False):
        d = t
        for _ in range(3):
            d2 = distribute(d, largest)
            if d2 is d:
                break
            if d2.is_zero():
                return True
            d = d2
    for _ in range(6):
        if t.is_zero():
            return True
        t2, d = clear_denominators(t)
        t2 = expand(t2)
        if t2.is_zero():
            return True
        if t2.same(t):
            return False
        t = t2
    return False


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, cache=None):
    """float value of t; env maps atom id -> float for var/uf atoms"""
    if cache is None:
        cache = {}
    tot = 0.0
    for k, c in t.m.items():
        # mantissa and binary exponent kept apart: products of physical constants
        # may leave the float range on the way to a representable value
        v, ex = math.frexp(c)
        for a, e in k:
            b = eval_atom(ATOMS[a], env, cache)
            et = EXPO[e]
            x = et.const() if et.is_const() else evaluate(et, env, cache)
            try:
                if b < 0 and x != int(x):
                    raise EvalError("neg base")
                try:
                    f = b ** x
                except OverflowError:
                    f = 0.0
                if f == 0.0 and b != 0.0:
                    l2 = x * math.log2(abs(b))
                    n = math.floor(l2)
                    f = 2.0 ** (l2 - n) * (-1.0 if b < 0 and int(x) % 2 else 1.0)
                    ex += n
                v, n = math.frexp(v * f)
                ex += n
            except (OverflowError, ZeroDivisionError, ValueError):
                raise EvalError("overflow")
        try:
            v = math.ldexp(v, ex)
        except OverflowError:
            raise EvalError("overflow")
        tot += v
    if tot != tot:
        raise EvalError("nan")
    return tot


def eval_atom(a, env, cache):
    if a.id in env:
        return env[a.id]
    if a.id in cache:
        return cache[a.id]
    if a.kind == "E":
        r = math.e
    elif a.kind == "var":
        raise EvalError("unbound " + a.name)
    else:
        if a.kind == "uf":
            raise EvalError("unbound uf")
        x = evaluate(a.args[0], env, cache)
        if a.name == "tzG":
            q = evaluate(a.args[1], env, cache)
            if q <= 0 or x <= 0 or x == 1:
                raise EvalError("tzG")
            b = math.log(q) / math.log(x)
            r = math.log(x) if abs(b + 1) < 1e-10 else (x * q - 1) / (b + 1)
        elif a.kind == "sum":
            r = x
        elif a.name == "ln":
            if x <= 0:
                raise EvalError("ln")
            r = math.log(x)
        elif a.name == "cos":
            r = math.cos(x)
        elif a.name == "sin":
            r = math.sin(x)
        elif a.name == "abs":
            r = abs(x)
        elif a.name.startswith("round:"):
            r = float(round(x, int(a.name[6:])))
        else:
            raise EvalError(a.name)
    cache[a.id] = r
    return r


def atoms_in(t, acc=None):
    """ids of all atoms occurring (recursively)"""
    if acc is None:
        acc = set()
    for k in t.m:
        for a, e in k:
            if a not in acc:
                acc.add(a)
                for x in ATOMS[a].args:
                    atoms_in(x, acc)
            et = EXPO[e]
            if not et.is_const():
                atoms_in(et, acc)
    return acc


reset()
