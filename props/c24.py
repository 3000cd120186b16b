"""C24: the bundled Nelder-Mead minimiser."""
import numpy as np

BOUNDS = ("1-2 parameters (3 thorough), up to 3 iterations from any starting point; the objective "
          "is an arbitrary function of the parameters")
ASSUMPTIONS = ["no two values of the objective are equal (their order would be arbitrary)"]
LIMITS = {"ties": False, "seconds": 100, "max_paths": 4000}
LIMITS_THOROUGH = {"seconds": 500, "max_paths": 40000}


class Objective:
    """arbitrary function, remembering where it was evaluated"""

    def __init__(self, ctx, scale=1.0, name="f"):
        self.ctx, self.calls, self.scale, self.name = ctx, [], scale, name

    def __call__(self, x, *args):
        x = [v for v in np.asarray(x, dtype=object).reshape(-1)]
        f = self.ctx.uf(self.name, *x, lo=0.1, hi=10.0) * self.scale
        self.calls.append((x, f, args))
        return f


def order(fs):
    idx = []
    for i in range(len(fs)):
        j = len(idx)
        while j > 0 and bool(fs[i] < fs[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def start(x0):
    sim = [list(x0)]
    for k in range(len(x0)):
        y = list(x0)
        y[k] = 1.05 * y[k] if bool(y[k] != 0) else 0.00025
        sim.append(y)
    return sim


def step(f, sim, fs):
    """one textbook iteration on a sorted simplex"""
    n = len(sim) - 1
    bar = [sum(s[k] for s in sim[:-1]) / n for k in range(n)]
    at = lambda c: [b + c * (b - w) for b, w in zip(bar, sim[-1])]
    sim, fs = [list(s) for s in sim], list(fs)
    xr = at(1)
    fr = f(xr)
    if bool(fr < fs[0]):
        xe = at(2)
        fe = f(xe)
        sim[-1], fs[-1] = (xe, fe) if bool(fe < fr) else (xr, fr)
    elif bool(fr < fs[-2]):
        sim[-1], fs[-1] = xr, fr
    else:
        if bool(fr < fs[-1]):
            xc = at(0.5)
            fc = f(xc)
            ok = bool(fc <= fr)
        else:
            xc = at(-0.5)
            fc = f(xc)
            ok = bool(fc < fs[-1])
        if ok:
            sim[-1], fs[-1] = xc, fc
        else:
            for j in range(1, n + 1):
                sim[j] = [a + 0.5 * (b - a) for a, b in zip(sim[0], sim[j])]
                fs[j] = f(sim[j])
    return sim, fs


def reference(f, x0, iters, stop=None):
    sim = start(x0)
    fs = [f(x) for x in sim]
    idx = order(fs)
    sim, fs = [sim[i] for i in idx], [fs[i] for i in idx]
    n = 1
    while n < iters and not (stop and stop(sim, fs, len(f.calls))):
        sim, fs = step(f, sim, fs)
        idx = order(fs)
        sim, fs = [sim[i] for i in idx], [fs[i] for i in idx]
        n += 1
    return sim[0], fs[0], n


TINY = ["tiny", "huge"]


def points(ctx, n, zero=True):
    x0 = []
    for i in range(n):
        k = ctx.choice("kind%d" % i, (["pos", "neg", "zero"] + TINY * (n == 1)) if zero else ["pos"])
        x = 0.0 if k == "zero" else ctx.real("x%d" % i, *((-5, -0.5) if k == "neg" else (0.5, 5)))
        x0.append(x * {"tiny": 1e-13, "huge": 1e40}.get(k, 1.0))
    return x0


def compare(ctx, f, g, res, x, fx, first=0):
    ctx.true("evaluations", len(f.calls) == len(g.calls), "%d evaluations, not %d" % (
        len(f.calls), len(g.calls)))
    for (a, _, _), (b, _, _) in zip(f.calls[first:], g.calls[first:]):
        for p, q in zip(a, b):
            ctx.eq("point", p, q)
    for p, q in zip(np.asarray(res["x"], dtype=object).reshape(-1), x):
        ctx.eq("x", p, q)
    ctx.eq("fun", res["fun"], fx)
    ctx.true("nfev", res["nfev"] == len(f.calls))


def textbook(n, iters, zero=True):
    """every iteration is the standard simplex step"""
    def h(ctx):
        from naima.extern.minimize import minimize

        x0 = points(ctx, n, zero)
        f = Objective(ctx)
        keep = ctx.arr(x0)
        res = minimize(f, keep, args=(), method="Nelder-Mead",
                       options={"maxfev": 10 ** 6, "maxiter": iters, "xtol": -1.0, "ftol": -1.0})
        g = Objective(ctx)
        x, fx, nit = reference(g, x0, iters)
        compare(ctx, f, g, res, x, fx)
        ctx.true("nit", res["nit"] == nit)
        ctx.true("status", res["status"] == 2 and not res["success"])
        for a, b in zip(keep, x0):
            ctx.eq("start", a, b)
    h.__name__ = "textbook_%d_%d" % (n, iters)
    return h


class Later:
    """objective with given values at first and arbitrary ones afterwards"""

    def __init__(self, ctx, seed, known):
        r = np.random.RandomState(seed)
        self.vals = [float(v) for v in r.uniform(1, 9, known) * np.linspace(1, 0.5, known)]
        self.ctx, self.calls = ctx, []

    def __call__(self, x, *args):
        i = len(self.calls)
        f = self.vals[i] if i < len(self.vals) else self.ctx.real("v%d" % i, 0.1, 10)
        self.calls.append(([v for v in np.asarray(x, dtype=object).reshape(-1)], f, args))
        return f


def later(n, known, iters, seeds):
    """the steps after many others are the standard ones, too"""
    def h(ctx):
        from naima.extern.minimize import minimize

        seed = ctx.choice("seed", seeds)
        x0 = [ctx.real("x%d" % i, 0.5, 5) for i in range(n)]
        f, g = Later(ctx, seed, known), Later(ctx, seed, known)
        # stop at the number of evaluations, in the middle of the arbitrary ones
        res = minimize(f, ctx.arr(x0), args=(), method="Nelder-Mead", options={
            "maxfev": known + 2 * iters, "maxiter": 10 ** 6, "xtol": -1.0, "ftol": -1.0})
        x, fx, nit = reference(g, x0, 10 ** 6, lambda s, v, c: c >= known + 2 * iters)
        compare(ctx, f, g, res, x, fx, known)
    h.__name__ = "later_%d_%d" % (n, iters)
    return h


def never_worse(n, iters):
    """the result is the best point evaluated, and its own value"""
    def h(ctx):
        from naima.extern.minimize import minimize

        x0 = points(ctx, n, False)
        f = Objective(ctx)
        tol = ctx.choice("tol", [-1.0, 10.0])
        res = minimize(f, list(x0), args=(), method="Nelder-Mead",
                       options={"maxfev": 10 ** 6, "maxiter": iters, "xtol": tol, "ftol": -1.0})
        ctx.eq("value", res["fun"], ctx.uf("f", *np.asarray(res["x"], dtype=object).reshape(-1),
                                           lo=0.1, hi=10.0))
        for x, v, _ in f.calls:
            ctx.le("best", res["fun"], v)
    h.__name__ = "never_worse_%d_%d" % (n, iters)
    return h


def budget(ctx):
    """stops at the evaluation limit and says so"""
    from naima.extern.minimize import minimize

    x0 = points(ctx, 1, False)
    mf = ctx.choice("maxfev", [1, 2, 3, 4])
    f, g = Objective(ctx), Objective(ctx)
    res = minimize(f, list(x0), options={"maxfev": mf, "maxiter": 50, "xtol": -1.0, "ftol": -1.0},
                   method="Nelder-Mead")
    x, fx, nit = reference(g, x0, 50, lambda s, v, c: c >= mf)
    compare(ctx, f, g, res, x, fx)
    ctx.true("status", res["status"] == 1 and not res["success"])


def converged(ctx):
    """stops when both the points and the values agree to the tolerances"""
    from naima.extern.minimize import minimize

    x0 = points(ctx, 1, False)
    xt, ft = ctx.choice("tol", [(0.1, 5.0), (0.03, 5.0), (0.1, 0.2), (0.01, 0.1)])
    sg = ctx.choice("sign", [1.0, -1.0])
    f, g = Objective(ctx, sg), Objective(ctx, sg)
    res = minimize(f, ctx.arr(x0), options={"maxfev": 1000, "maxiter": 3, "xtol": xt, "ftol": ft},
                   method="Nelder-Mead")
    hit = []

    def stop(sim, fs, c):
        small = all(bool(abs((s[0] - sim[0][0]) / sim[0][0]) <= xt) for s in sim[1:]) and \
            all(bool(abs((fs[0] - v) / fs[0]) <= ft) for v in fs[1:])
        if small:
            hit.append(1)
        return small
    x, fx, nit = reference(g, x0, 3, stop)
    compare(ctx, f, g, res, x, fx)
    ctx.true("success", bool(res["success"]) == bool(hit) and res["status"] == (0 if hit else 2),
             "%s" % res["status"])


def arguments(ctx):
    """further arguments reach the objective unchanged"""
    from naima.extern.minimize import minimize

    f = Objective(ctx)
    tag = object()
    minimize(f, points(ctx, 1, False), args=(tag, "b"), method="Nelder-Mead",
             options={"maxfev": 3, "xtol": -1.0})
    ctx.true("args", all(len(a) == 2 and a[0] is tag and a[1] == "b" for _, _, a in f.calls))


def integers(ctx):
    """starting values given as integers are real numbers"""
    from naima.extern.minimize import minimize

    x0 = ctx.choice("x0", [[3], [2, 7], np.array([5, 1]), (4, 4)])
    f, g = Objective(ctx), Objective(ctx)
    res = minimize(f, x0, method="Nelder-Mead",
                   options={"maxfev": 1000, "maxiter": 2, "xtol": -1.0, "ftol": -1.0})
    x, fx, nit = reference(g, [float(v) for v in x0], 2)
    compare(ctx, f, g, res, x, fx)


def callback(ctx):
    """the best point of every iteration, on request"""
    from naima.extern.minimize import minimize

    x0 = points(ctx, 1, False)
    f, g = Objective(ctx), Objective(ctx)
    seen = []
    res = minimize(f, list(x0), method="Nelder-Mead", options={
        "maxfev": 1000, "maxiter": 3, "xtol": -1.0, "ftol": -1.0, "return_all": True,
        "callback": lambda x: seen.append([v for v in np.asarray(x, dtype=object)])})
    best = []
    for k in (1, 2, 3):
        g = Objective(ctx)
        x, fx, nit = reference(g, x0, k)
        best.append(x[0])
    # allvecs holds the start and the best point after every iteration
    for a, b in zip(res["allvecs"][1:], best[1:]):
        ctx.eq("allvecs", a[0], b)
    for a, b in zip(seen, best[1:]):
        ctx.eq("callback", a[0], b)
    ctx.true("count", len(seen) == 2 and len(res["allvecs"]) == 3)


HARNESSES = [("textbook_1_3", textbook(1, 3)), ("textbook_2_2", textbook(2, 2)),
             ("never_worse_1", never_worse(1, 4)), ("never_worse_2", never_worse(2, 2)),
             ("budget", budget), ("converged", converged), ("arguments", arguments),
             ("integers", integers), ("callback", callback),
             ("later_1", later(1, 9, 1, [1, 2, 3, 4, 5, 6])),
             ("later_2", later(2, 16, 1, [1, 2, 3, 4])),
             ("later_3", later(3, 24, 1, [1, 2])),
             ("later_2_2", later(2, 20, 2, list(range(9, 19))), {"tier": "thorough"}),
             ("later_4", later(4, 40, 1, list(range(8))), {"tier": "thorough"}),
             ("textbook_2_3", textbook(2, 3, False), {"tier": "thorough", "seconds": 700}),
             ("never_worse_2_3", never_worse(2, 3), {"tier": "thorough", "seconds": 700}),
             ("textbook_3_2", textbook(3, 2, False), {"tier": "thorough", "seconds": 500}),
             ("textbook_2_4", textbook(2, 4, False), {"tier": "thorough", "seconds": 700}),
             ("textbook_1_5", textbook(1, 5), {"tier": "thorough", "seconds": 700})]
