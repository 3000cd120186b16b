"""C11: log-log trapezoid integration is exact for power laws."""
import math

import numpy as np

BOUNDS = ("2-3 grid points, 1-2 rows along any axis, x in [1e-2,1e4], y in [1e-3,1e3] or zero; "
          "local index at least 1e-6 away from -1, or exactly -1")
LIMITS = {"ties": True}


def index(m, x1, x2, y1, y2):
    return m.log(y2 / y1) / m.log(x2 / x1)


def spec_interval(ctx, x1, x2, y1, y2):
    """integral of the power law through (x1,y1),(x2,y2); None if the index
    is within 1e-6 of -1"""
    m = ctx.m
    for y in (y1, y2):
        if y.t.is_zero() if hasattr(y, "t") else y == 0:
            return 0.0
    b = index(m, x1, x2, y1, y2)
    ctx.assume(abs(b + 1.0) > 1e-6)
    return (y2 * x2 - y1 * x1) / (b + 1.0)


def grid(ctx, n):
    xs = [ctx.real("x0", 1e-2, 1e2)]
    for i in range(1, n):
        xs.append(xs[-1] * ctx.real("r%d" % i, 1.001, 50.0))
    return xs


def two_points(ctx):
    from naima.utils import trapz_loglog

    x1, x2 = grid(ctx, 2)
    y1, y2 = ctx.real("y1", 1e-3, 1e3), ctx.real("y2", 1e-3, 1e3)
    ref = spec_interval(ctx, x1, x2, y1, y2)
    got = trapz_loglog(ctx.arr([y1, y2]), ctx.arr([x1, x2]))
    ctx.eq("powerlaw", got, ref, rel=1e-6)


def minus_one(ctx):
    """y proportional to 1/x integrates to the logarithm"""
    from naima.utils import trapz_loglog

    x1, x2 = grid(ctx, 2)
    y1 = ctx.real("y1", 1e-3, 1e3)
    got = trapz_loglog(ctx.arr([y1, y1 * x1 / x2]), ctx.arr([x1, x2]))
    ctx.eq("index-1", got, x1 * y1 * ctx.m.log(x2 / x1))


def sampled_power_law(ctx):
    """samples of A x^p on any grid integrate to the analytic value"""
    from naima.utils import trapz_loglog

    m = ctx.m
    n = ctx.choice("n", [2, 3, 4])
    p, A = ctx.real("p", -5, 5), ctx.real("A", 1e-3, 1e3)
    ctx.assume(abs(p + 1.0) > 1e-6)
    # concrete ratios keep the powers tractable
    x0 = ctx.real("x0", 1e-2, 1e2)
    xs = [x0 * r for r in (1.0, 1.7, 4.0, 30.0)[:n]]
    got = trapz_loglog(ctx.arr([A * m.pow(x, p) for x in xs]), ctx.arr(xs))
    ref = A * (m.pow(xs[-1], p + 1.0) - m.pow(xs[0], p + 1.0)) / (p + 1.0)
    ctx.eq("analytic", got, ref, rel=1e-6)


def composite(ctx):
    """the total is the sum over consecutive intervals, whatever the axis, the
    extra dimensions and the shape of x"""
    from naima.utils import trapz_loglog

    layout = ctx.choice("layout", ["1d", "rows", "cols", "rows2d", "neg2", "3d"])
    xs = [ctx.real("x0", 1e-2, 1e2)]
    xs += [xs[0] * 2.5, xs[0] * 40.0]
    ya = ctx.reals("y", 3, 1e-3, 1e3)
    yb = [v * 2.0 for v in ya[::-1]]
    if layout == "1d":
        rows = [ya]
    else:
        rows = [ya, yb]
    ref = []
    for y in rows:
        s = [spec_interval(ctx, xs[i], xs[i + 1], y[i], y[i + 1]) for i in range(2)]
        ref.append(s)
    Y = np.array([ctx.arr(y) for y in rows])
    X = ctx.arr(xs)
    iv = ctx.bool("intervals")
    if layout == "1d":
        got = trapz_loglog(Y[0], X, intervals=iv)
        r = ref[0] if iv else ref[0][0] + ref[0][1]
    elif layout == "rows":
        got = trapz_loglog(Y, X, intervals=iv)
        r = ref if iv else [a + b for a, b in ref]
    elif layout == "rows2d":
        got = trapz_loglog(Y, np.array([X, X]), axis=1, intervals=iv)
        r = ref if iv else [a + b for a, b in ref]
    elif layout == "cols":
        got = trapz_loglog(Y.T.copy(), X, axis=0, intervals=iv)
        r = [[ref[0][i], ref[1][i]] for i in range(2)] if iv else [a + b for a, b in ref]
    elif layout == "neg2":
        got = trapz_loglog(Y.T.copy(), X, axis=-2, intervals=iv)
        r = [[ref[0][i], ref[1][i]] for i in range(2)] if iv else [a + b for a, b in ref]
    else:
        got = trapz_loglog(Y.reshape(1, 2, 3), X, axis=2, intervals=iv)
        r = [ref] if iv else [[a + b for a, b in ref]]
    ctx.true("shape", np.shape(got) == np.shape(np.array(r, dtype=object)),
             "%s vs %s" % (np.shape(got), np.shape(np.array(r, dtype=object))))
    flat = lambda v: list(np.array(v, dtype=object).reshape(-1))
    for i, (a, b) in enumerate(zip(flat(got), flat(r))):
        ctx.eq("value[%d]" % i, a, b, rel=1e-6)


def zeros(ctx):
    """intervals that touch a zero of y contribute nothing, the others are kept"""
    from naima.utils import trapz_loglog

    xs = grid(ctx, 3)
    pat = ctx.choice("pattern", [(0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 1), (1, 0, 0), (0, 0, 0)])
    ys = [ctx.real("y%d" % i, 1e-3, 1e3) if p else ctx.const(0.0)
          for i, p in enumerate(pat)]
    ref = [spec_interval(ctx, xs[i], xs[i + 1], ys[i], ys[i + 1]) for i in range(2)]
    if ctx.bool("intervals"):
        got = trapz_loglog(ctx.arr(ys), ctx.arr(xs), intervals=True)
        for a, b in zip(got, ref):
            ctx.eq("intervals", a, b, rel=1e-6)
    else:
        got = trapz_loglog(ctx.arr(ys), ctx.arr(xs))
        ctx.eq("zeros", got, ref[0] + ref[1], rel=1e-6)


def degenerate(ctx):
    """intervals of zero width contribute nothing"""
    from naima.utils import trapz_loglog

    xs = grid(ctx, 2)
    y = ctx.reals("y", 3, 1e-3, 1e3)
    side = ctx.choice("side", [0, 1])
    if side:
        X, ref = [xs[0], xs[0], xs[1]], spec_interval(ctx, xs[0], xs[1], y[1], y[2])
    else:
        X, ref = [xs[0], xs[1], xs[1]], spec_interval(ctx, xs[0], xs[1], y[0], y[1])
    if ctx.bool("intervals"):
        got = trapz_loglog(ctx.arr(y), ctx.arr(X), intervals=True)
        ctx.eq("empty", got[0 if side else 1], 0.0)
        got = got[1 if side else 0]
    else:
        got = trapz_loglog(ctx.arr(y), ctx.arr(X))
    ctx.eq("degenerate", got, ref, rel=1e-6)


def units(ctx):
    """the result carries the product of the units, in any combination"""
    import astropy.units as u
    from naima.utils import trapz_loglog

    xs = grid(ctx, 2)
    y1, y2 = ctx.real("y1", 1e-3, 1e3), ctx.real("y2", 1e-3, 1e3)
    ref = spec_interval(ctx, xs[0], xs[1], y1, y2)
    yu = ctx.choice("yu", [None, "1/eV", "erg"])
    xu = ctx.choice("xu", [None, "TeV", "cm"])
    iv = ctx.bool("intervals")
    Y, X = ctx.arr([y1, y2]), ctx.arr(xs)
    Yq = Y if yu is None else ctx.q(Y, yu)
    Xq = X if xu is None else ctx.q(X, xu)
    got = trapz_loglog(Yq, Xq, intervals=iv)
    unit = u.Unit(yu or "") * u.Unit(xu or "")
    if yu or xu:
        ctx.true("unit", hasattr(got, "unit") and got.unit == unit)
        got = got.to_value(unit)
    else:
        ctx.true("nounit", not hasattr(got, "unit"))
    ctx.eq("value", got[0] if iv else got, ref, rel=1e-6)
    # inputs untouched
    ctx.eq("y", Yq.value if yu else Yq, [y1, y2])
    ctx.eq("x", Xq.value if xu else Xq, xs)


def homogeneous(ctx):
    """scaling y or x scales the integral (the contract used elsewhere)"""
    from naima.utils import trapz_loglog

    xs = grid(ctx, 2)
    y1, y2 = ctx.real("y1", 1e-3, 1e3), ctx.real("y2", 1e-3, 1e3)
    k, l = ctx.real("k", 1e-3, 1e3), ctx.real("l", 1e-3, 1e3)
    a = trapz_loglog(ctx.arr([y1, y2]), ctx.arr(xs))
    b = trapz_loglog(ctx.arr([k * y1, k * y2]), ctx.arr([l * x for x in xs]))
    ctx.eq("scale", b, k * l * a, rel=1e-6)


HARNESSES = [("two_points", two_points), ("minus_one", minus_one),
             ("sampled_power_law", sampled_power_law), ("composite", composite),
             ("zeros", zeros), ("degenerate", degenerate), ("units", units),
             ("homogeneous", homogeneous)]
