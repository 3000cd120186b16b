"""Run-time patches that let the unmodified naima code run on symbolic values.

Nothing on disk is changed: only this process' astropy/numpy *references* are
wrapped.  The list of stubs is part of every claim (see DESIGN.md)."""
import builtins
import inspect
import math
import sys
import types

import numpy as np

from . import sym
from .sym import Sym, SymBool, lift


# ------------------------------------------------------------ numpy proxy
def _is_symarr(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_is_symarr(i) for i in x)
    return False


def _wrap_obj(a):
    """object ndarray view with all number elements lifted to Sym"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        flat = a.reshape(-1) if a.ndim else None
        if a.ndim == 0:
            v = a[()]
            if not isinstance(v, Sym):
                l = lift(v)
                if l is not None:
                    a[()] = l
            return a
        for idx in np.ndindex(a.shape):
            v = a[idx]
            if not isinstance(v, Sym):
                l = lift(v)
                if l is not None:
                    a[idx] = l
    return a


def _objarray(shape, fill):
    r = np.empty(shape, dtype=object)
    if r.ndim == 0:
        r[()] = fill
        return r
    r.fill(fill)
    return r


def _float_like(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _np_zeros(shape, dtype=None, *a, **k):
    if _float_like(dtype):
        return _objarray(shape, Sym.of(0.0))
    return np.zeros(shape, dtype, *a, **k)


def _np_ones(shape, dtype=None, *a, **k):
    if _float_like(dtype):
        return _objarray(shape, Sym.of(1.0))
    return np.ones(shape, dtype, *a, **k)


def _np_full(shape, fill_value, dtype=None, *a, **k):
    if isinstance(fill_value, Sym) or (_float_like(dtype) and isinstance(fill_value, (float, np.floating))):
        return _objarray(shape, lift(fill_value))
    return np.full(shape, fill_value, dtype, *a, **k)


def _like(fn, fill):
    def f(a, *args, **k):
        from astropy.units import Quantity

        dt = k.get("dtype")
        if isinstance(a, Quantity):
            if a.dtype == object or a.dtype.kind == "f":
                return Quantity(_objarray(a.shape, Sym.of(fill)), a.unit, copy=False)
            return fn(a, *args, **k)
        if isinstance(a, Sym):
            return _objarray((), Sym.of(fill))
        arr = np.asanyarray(a)
        if dt is None and arr.dtype.kind in "fO":
            return _objarray(arr.shape, Sym.of(fill))
        return fn(a, *args, **k)

    return f


def _elem(fname):
    """unary ufunc: lift mixed object arrays first, scalars directly"""
    uf = getattr(np, fname)

    def f(x, *a, **k):
        if isinstance(x, Sym):
            return getattr(x, {"absolute": "__abs__", "abs": "__abs__"}.get(fname, fname))()
        if isinstance(x, (list, tuple)) and _is_symarr(x):
            x = _toarr(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            if not hasattr(x, "unit") and any(hasattr(i, "unit") for i in x.reshape(-1)):
                x = _unitless(x)
            _lift_inplace_copy(x)
        return uf(x, *a, **k)

    f.__name__ = fname
    return f


def _unitless(x):
    """a float array takes the value of a dimensionless quantity"""
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        v = x[i]
        if hasattr(v, "unit"):
            v = v.to_value("")
            v = v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v
        r[i] = v
    return r


def _lift_inplace_copy(x):
    try:
        base = x.view(np.ndarray) if type(x) is not np.ndarray else x
        _wrap_obj(base)
    except (ValueError, TypeError):
        pass
    return x


def _toarr(x):
    from astropy.units import Quantity

    if any(isinstance(i, Quantity) for i in x):
        return Quantity(x)
    return np.array(x, dtype=object)


def _np_isfn(name):
    def f(x, *a, **k):
        v = getattr(x, "value", x)
        if isinstance(v, Sym):
            return getattr(v, name)()
        if isinstance(v, np.ndarray) and v.dtype == object:
            r = np.empty(v.shape, dtype=bool)
            for i in np.ndindex(v.shape):
                e = v[i]
                r[i] = getattr(e, name)() if isinstance(e, Sym) else getattr(np, name)(float(e))
            return r
        return getattr(np, name)(x, *a, **k)

    return f


def _np_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    num = int(num)
    if not (isinstance(start, Sym) or isinstance(stop, Sym) or _is_symarr(start)):
        r = np.logspace(start, stop, num, endpoint, base, dtype, axis)
        return _wrap_obj(r.astype(object))
    start, stop = lift(_unq(start)), lift(_unq(stop))
    lin = _np_linspace(start, stop, num, endpoint)
    return np.array([lift(base) ** e for e in lin], dtype=object)


def _unq(x):
    if hasattr(x, "unit"):
        x = x.to_value("")
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    return x


def _np_linspace(start, stop, num=50, endpoint=True, *a, **k):
    if not (_is_symarr(start) or _is_symarr(stop)):
        return np.linspace(start, stop, num, endpoint, *a, **k)
    num = int(num)
    start, stop = lift(_unq(start)), lift(_unq(stop))
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if i == 0:
            out.append(start)
        elif i == div:
            out.append(stop)
        else:
            out.append(start + (stop - start) * (float(i) / div))
    return np.array(out, dtype=object)


def _np_geomspace(start, stop, num=50, endpoint=True, *a, **k):
    unit = None
    if hasattr(start, "unit"):
        unit = start.unit
        stop = stop.to_value(unit)
        start = start.value
    if not (_is_symarr(start) or _is_symarr(stop)):
        r = np.geomspace(start, stop, num, endpoint, *a, **k)
        return r * unit if unit is not None else r
    start, stop = lift(start), lift(stop)
    num = int(num)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if i == 0:
            out.append(start)
        elif i == div:
            out.append(stop)
        else:
            out.append(start * (stop / start) ** (float(i) / div))
    r = np.array(out, dtype=object)
    return r * unit if unit is not None else r


def _np_array(obj, *a, **k):
    if _is_symarr(obj):
        dt = k.pop("dtype", a[0] if a else None)
        if dt is not None and not _float_like(dt) and np.dtype(dt) != object:
            return np.array(obj, dtype=dt, **k)
        return _wrap_obj(np.array(obj, dtype=object, **k))
    r = np.array(obj, *a, **k)
    dt = k.get("dtype", a[0] if a else None)
    if dt is not None and _float_like(dt) and type(r) is np.ndarray and 0 < r.size < 16:
        # a small array of plain numbers may get symbolic entries later
        return _wrap_obj(r.astype(object))
    return r


def _np_asarray(obj, *a, **k):
    if _is_symarr(obj):
        if isinstance(obj, np.ndarray) and type(obj) is np.ndarray:
            return obj
        return _wrap_obj(np.asarray(obj, dtype=object))
    return np.asarray(obj, *a, **k)


def _np_asanyarray(obj, *a, **k):
    if _is_symarr(obj):
        if isinstance(obj, np.ndarray):
            return obj
        return _wrap_obj(np.asarray(obj, dtype=object))
    return np.asanyarray(obj, *a, **k)


def _np_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def _np_isreal(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.ones(x.shape, bool)
    return np.isreal(x)


def _np_clip(a, lo, hi, *r, **k):
    if _is_symarr(a) or _is_symarr(lo) or _is_symarr(hi):
        x = a
        if lo is not None:
            x = np.maximum(x, lo)
        if hi is not None:
            x = np.minimum(x, hi)
        return x
    return np.clip(a, lo, hi, *r, **k)


def _np_heaviside(x, h0):
    if _is_symarr(x):
        f = np.frompyfunc(lambda v: [lift(h0), Sym.of(1.0), Sym.of(0.0)][lift(v).sgn()], 1, 1)
        return f(x)
    return np.heaviside(x, h0)


def _np_power(a, b, *r, **k):
    if isinstance(b, np.ndarray) and b.dtype == object:
        _lift_inplace_copy(b)
    if isinstance(a, np.ndarray) and a.dtype == object:
        _lift_inplace_copy(a)
    return np.power(a, b, *r, **k)


def _np_median(a, axis=None, *r, **k):
    if _is_symarr(a):
        return _np_percentile(a, 50.0, axis=axis)
    return np.median(a, axis, *r, **k)


def _np_percentile(a, q, axis=None, *r, **k):
    from astropy.units import Quantity

    unit = None
    if isinstance(a, Quantity):
        unit = a.unit
        a = a.value
    a = np.asanyarray(a)
    if a.dtype != object:
        res = np.percentile(a, q, axis=axis, *r, **k)
        return res * unit if unit is not None else res
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    s = np.sort(np.moveaxis(a, axis, 0), axis=0)
    n = s.shape[0]

    def one(qq):
        pos = qq / 100.0 * (n - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, n - 1)
        f = pos - lo
        return s[lo] + (s[hi] - s[lo]) * f

    if np.isscalar(q):
        res = one(q)
    else:
        res = np.array([one(x) for x in q], dtype=object)
    return Quantity(res, unit) if unit is not None else res


def _np_quantile(a, q, axis=None, *r, **k):
    qq = [x * 100.0 for x in q] if not np.isscalar(q) else q * 100.0
    return _np_percentile(a, qq, axis=axis)


def _np_std(a, axis=None, *r, **k):
    if _is_symarr(a):
        m = np.mean(a, axis=axis, keepdims=True)
        v = np.mean((a - m) ** 2, axis=axis)
        return _elem("sqrt")(v)
    return np.std(a, axis, *r, **k)


def _np_trapezoid(y, x=None, dx=1.0, axis=-1):
    return np.trapezoid(y, x=x, dx=dx, axis=axis)


def _np_argsort(a, *r, **k):
    return np.argsort(a, *r, **k)


def _np_interp(x, xp, fp, left=None, right=None):
    if not (_is_symarr(x) or _is_symarr(xp) or _is_symarr(fp)):
        return np.interp(x, xp, fp, left, right)
    raise sym.Unsupported("np.interp")


def _np_where(cond, *args):
    if not args:
        return np.where(_boolarr(cond))
    cond = _boolarr(cond)
    if any(_is_symarr(getattr(a, "value", a)) for a in args):
        from astropy.units import Quantity

        if any(isinstance(a, Quantity) for a in args):
            return np.where(cond, *args)
        a, b = [np.asarray(x, dtype=object) for x in args]
        return _wrap_obj(np.asarray(np.where(cond, a, b), dtype=object))
    return np.where(cond, *args)


def _boolarr(c):
    if isinstance(c, (SymBool, Sym)):
        return np.bool_(bool(c))
    if isinstance(c, np.ndarray) and c.dtype == object:
        r = np.empty(c.shape, dtype=bool)
        for i in np.ndindex(c.shape):
            r[i] = bool(c[i])
        return r
    return c


def _np_allclose(*a, **k):
    return bool(np.all(_np_isclose(*a, **k)))


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _is_symarr(getattr(a, "value", a)) or _is_symarr(getattr(b, "value", b)):
        return abs(a - b) <= (atol + rtol * abs(b))
    return np.isclose(a, b, rtol, atol, equal_nan)


def _np_array_equal(a, b, *r, **k):
    if _is_symarr(a) or _is_symarr(b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))
    return np.array_equal(a, b, *r, **k)


def _np_errstate(*a, **k):
    return np.errstate(*a, **k)


def _float64(x=0.0):
    if isinstance(x, Sym):
        return x
    if _is_symarr(x):
        return x
    return np.float64(x)


def _b_float(x=0.0):
    if isinstance(x, (Sym,)):
        return x
    v = x
    if hasattr(x, "unit") and hasattr(x, "to_value"):
        try:
            v = x.to_value("")
        except Exception:
            return float(x)
    if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
        v = v.reshape(-1)[0]
    if isinstance(v, Sym):
        return v
    return builtins.float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __call__(cls, *a):
        return _b_float(*a)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class FloatType(metaclass=_FloatMeta):
    pass


OVERRIDES = {
    "zeros": _np_zeros, "ones": _np_ones, "empty": _np_zeros, "full": _np_full,
    "zeros_like": _like(np.zeros_like, 0.0), "ones_like": _like(np.ones_like, 1.0),
    "empty_like": _like(np.empty_like, 0.0),
    "isnan": _np_isfn("isnan"), "isinf": _np_isfn("isinf"), "isfinite": _np_isfn("isfinite"),
    "logspace": _np_logspace, "linspace": _np_linspace, "geomspace": _np_geomspace,
    "array": _np_array, "asarray": _np_asarray, "asanyarray": _np_asanyarray,
    "isscalar": _np_isscalar, "isreal": _np_isreal, "clip": _np_clip,
    "heaviside": _np_heaviside, "power": _np_power, "median": _np_median,
    "percentile": _np_percentile, "quantile": _np_quantile, "std": _np_std,
    "interp": _np_interp, "where": _np_where, "isclose": _np_isclose,
    "allclose": _np_allclose, "array_equal": _np_array_equal,
    "nonzero": lambda c: np.nonzero(_boolarr(c)),
    "flatnonzero": lambda c: np.flatnonzero(_boolarr(c)),
    "any": lambda c, *a, **k: np.any(_boolarr(c), *a, **k),
    "all": lambda c, *a, **k: np.all(_boolarr(c), *a, **k),
    "logical_and": lambda a, b: np.logical_and(_boolarr(a), _boolarr(b)),
    "logical_or": lambda a, b: np.logical_or(_boolarr(a), _boolarr(b)),
    "logical_not": lambda a: np.logical_not(_boolarr(a)),
    "count_nonzero": lambda c, *a, **k: np.count_nonzero(_boolarr(c), *a, **k),
    "float64": _float64,
}
for _n in ("exp", "log", "log10", "log2", "log1p", "expm1", "sqrt", "cbrt", "square",
           "cos", "sin", "abs", "absolute", "fabs", "floor", "ceil", "trunc", "exp2"):
    OVERRIDES[_n] = _elem(_n)


def _np_sign(x, *a, **k):
    if isinstance(x, Sym):
        return x.sign()
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = np.frompyfunc(lambda v: lift(v).sign(), 1, 1)(x.view(np.ndarray))
        return r
    return np.sign(x, *a, **k)


OVERRIDES["sign"] = _np_sign


def _np_sum(a, *r, **k):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size == 0 and not r and not k:
        v = np.sum(np.asarray(getattr(a, "value", a), dtype=float))
        return v * a.unit if getattr(a, "unit", None) is not None else v
    return np.sum(a, *r, **k)


OVERRIDES["sum"] = _np_sum


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        if name in OVERRIDES:
            return OVERRIDES[name]
        return getattr(np, name)


NP = NumpyProxy()
_REV = {}
for _n, _f in OVERRIDES.items():
    try:
        _REV[getattr(np, _n)] = _f
    except (AttributeError, TypeError):
        pass


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a):
            a = [(_unq(x) if hasattr(x, "unit") else x) for x in a]
            a = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
            if any(isinstance(x, Sym) for x in a):
                s = lift(a[0])
                if name in ("log",) and len(a) == 2:
                    return s.log() / lift(a[1]).log()
                if name == "pow":
                    return s ** a[1]
                if name == "isnan":
                    return s.isnan()
                if name == "isinf":
                    return s.isinf()
                if name == "isfinite":
                    return s.isfinite()
                if name in ("floor", "ceil"):
                    return int(getattr(s, name)().cval())
                m = getattr(s, name, None)
                if m is None:
                    raise sym.Unsupported("math." + name)
                return m()
            return f(*a)

        return g


MATH = MathProxy()


def _fmax(name, op):
    def f(*a, **k):
        r = getattr(builtins, name)(*a, **k)
        return r
    return f


def patch_module(mod):
    """replace numpy / math references in a module's globals"""
    for k, v in list(vars(mod).items()):
        if v is np:
            setattr(mod, k, NP)
        elif v is math:
            setattr(mod, k, MATH)
        else:
            try:
                if v in _REV and (isinstance(v, np.ufunc) or getattr(v, "__module__", "").startswith("numpy")):
                    setattr(mod, k, _REV[v])
            except TypeError:
                pass
    if "float" not in vars(mod):
        mod.float = FloatType


# ------------------------------------------------------------ astropy
def patch_astropy():
    import astropy.units as u
    from astropy.units import quantity as q

    Q = u.Quantity
    orig_new = Q.__new__

    import textwrap

    src = textwrap.dedent(inspect.getsource(orig_new))
    for marker, repl in (('value.dtype.kind in "iuO"', "_symx_cast(value)"),
                         ("isinstance(value.item(0), numbers.Number)", "_symx_isnum(value)")):
        if src.count(marker) != 1:
            raise RuntimeError("unexpected astropy Quantity.__new__")
        src = src.replace(marker, repl)
    g = q.__dict__
    g["_symx_cast"] = _cast_needed
    g["_symx_isnum"] = _isnum
    ns = {}
    # keep super()/__class__ working: the original has none of these
    code = compile(src, q.__file__, "exec")
    exec(code, g, ns)
    Q.__new__ = ns["__new__"]

    src = textwrap.dedent(inspect.getsource(Q.to_value))
    marker = "return value if value.shape else value[()]"
    if src.count(marker) != 1:
        raise RuntimeError("unexpected astropy Quantity.to_value")
    src = src.replace(marker, "return value if value.shape or _symx_is(value) else value[()]")
    g["_symx_is"] = lambda v: isinstance(v, Sym)
    ns = {}
    exec(compile(src, q.__file__, "exec"), g, ns)
    Q.to_value = ns["to_value"]
    Q.value = property(ns["to_value"], doc=Q.value.__doc__)

    src = textwrap.dedent(inspect.getsource(Q._to_own_unit))
    marker = "if _value.dtype.names is not None"
    if src.count(marker) != 1:
        raise RuntimeError("unexpected astropy Quantity._to_own_unit")
    src = src.replace(marker, "if not _symx_is(_value) and _value.dtype.names is not None")
    ns = {}
    exec(compile(src, q.__file__, "exec"), g, ns)
    Q._to_own_unit = ns["_to_own_unit"]

    from astropy.units import core as ucore

    oca = ucore._condition_arg
    ucore._condition_arg = lambda v: v if isinstance(v, Sym) else oca(v)

    # scalar value comparisons: Quantity.__eq__ etc. work through ufuncs
    def _tolist_guard(self):
        raise sym.Unsupported("Quantity float()")

    of = Q.__float__

    def qfloat(self):
        v = self.to_value(u.dimensionless_unscaled)
        if isinstance(v, np.ndarray):
            v = v[()] if v.ndim == 0 else v
        if isinstance(v, Sym):
            return float(v)
        return of(self)

    Q.__float__ = qfloat

    oau = Q.__array_ufunc__

    def array_ufunc(self, function, method, *inputs, **kw):
        out = kw.get("out")
        if out is None or method != "__call__" or len(out) != 1 or not any(
                isinstance(i, Sym) or _is_symarr(getattr(i, "value", i)) for i in inputs + out):
            return oau(self, function, method, *inputs, **kw)
        # in-place operation: compute, then store
        del kw["out"]
        o = out[0]
        if o is not inputs[0] or not isinstance(o, Q):
            raise sym.Unsupported("ufunc output argument")
        r = oau(self, function, method, *inputs, **kw)
        if r is NotImplemented:
            return r
        r = Q(r)
        if o.ndim == 0:
            if o.dtype != object:
                return r
            o.view(np.ndarray)[()] = r.view(np.ndarray)[()]
        else:
            if o.dtype != object:
                raise sym.Unsupported("symbolic value stored in a float array")
            o.view(np.ndarray)[...] = r.view(np.ndarray)
        if r.unit != o.unit:
            o._set_unit(r.unit)
        return o

    Q.__array_ufunc__ = array_ufunc


def _isnum(value):
    import numbers

    return value.size == 0 or isinstance(value.view(np.ndarray).item(0), numbers.Number)


def _cast_needed(value):
    k = value.dtype.kind
    if k in "iu":
        return True
    if k == "O":
        if value.size == 0:
            return True
        v = value.view(np.ndarray) if isinstance(value, np.ndarray) else np.asarray(value)
        return not any(isinstance(x, Sym) for x in v.reshape(-1))
    return False


def patch_all():
    import emcee.ensemble
    import scipy.special

    patch_astropy()
    scipy.special.cbrt = OVERRIDES["cbrt"]
    patch_module(emcee.ensemble)
    import naima
    import naima.analysis
    import naima.core
    import naima.extern.minimize
    import naima.extern.validator
    import naima.model_utils
    import naima.models
    import naima.plot
    import naima.radiative
    import naima.utils

    for name, mod in list(sys.modules.items()):
        if name == "naima" or name.startswith("naima."):
            patch_module(mod)
