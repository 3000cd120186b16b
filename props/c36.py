"""C36: runs have the requested length, start where they should and can be continued."""
import os

import numpy as np

from . import fit
from .c25 import Normal
from .common import Patches

BOUNDS = ("2 walkers, 1-2 parameters, up to 2 burn-in steps and two runs of 1-21 steps; arbitrary "
          "proposals and acceptances in every step, one or more processes")
ASSUMPTIONS = ["emcee's EnsembleSampler is replaced by its contract: every step proposes an arbitrary "
               "position per walker, evaluates the posterior through the pool, accepts any subset and "
               "stores the state", "a closed pool refuses work (multiprocessing contract)"]
LIMITS = {"ties": False, "seconds": 100}


class ClosedPool(ValueError):
    pass


class FakePool:
    all = []

    def __init__(self, processes=None, *a, **k):
        self.n, self.open, self.joined = processes, True, False
        FakePool.all.append(self)

    def map(self, f, args, *a, **k):
        if not self.open:
            raise ClosedPool("Pool not running")
        return [f(x) for x in args]

    imap = map

    def starmap(self, f, args, *a, **k):
        return self.map(lambda x: f(*x), args)

    def close(self):
        self.open = False

    terminate = close

    def join(self):
        if self.open:
            raise ValueError("Pool is still running")
        self.joined = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Fn:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, list(args or []), dict(kwargs or {})

    def __call__(self, x):
        return self.f(x, *self.args, **self.kwargs)


def ensemble(ctx, accept):
    """emcee.EnsembleSampler; accept(k): mask of accepted proposals in the k-th step overall"""
    class Ensemble:
        calls, made, steps = [], [], [0]

        def __init__(self, nwalkers, ndim, log_prob_fn, pool=None, moves=None, args=None, kwargs=None,
                     backend=None, vectorize=False, blobs_dtype=None, **kw):
            self.nwalkers, self.ndim, self.pool = nwalkers, ndim, pool
            self.log_prob_fn = Fn(log_prob_fn, args, kwargs)
            self.blobs_dtype = blobs_dtype
            Ensemble.made.append(self)
            self.reset()

        def reset(self):
            self.c, self.l, self.b = [], [], []

        def compute(self, coords):
            fn = self.pool.map if self.pool is not None else map
            r = list(fn(self.log_prob_fn, [coords[i] for i in range(len(coords))]))
            return [x[0] for x in r], [x[1:] for x in r]

        def sample(self, initial_state, log_prob0=None, rstate0=None, blobs0=None, iterations=1,
                   store=True, **kw):
            import emcee

            st = emcee.State(initial_state, copy=True)
            assert np.shape(st.coords) == (self.nwalkers, self.ndim)
            lp, bl = (st.log_prob, st.blobs) if st.log_prob is not None else self.compute(st.coords)
            rows = [list(r) for r in st.coords]
            Ensemble.calls.append([iterations, store, [list(r) for r in rows]])
            for _ in range(iterations):
                k = Ensemble.steps[0]
                Ensemble.steps[0] += 1
                prop = [[x + d for x, d in zip(r, ctx.reals("d%d_%d_" % (k, i), self.ndim, -0.001, 0.001))]
                        for i, r in enumerate(rows)]
                plp, pbl = self.compute([ctx.arr(r) for r in prop])
                acc = accept(k)
                lp, bl = list(lp), list(bl)
                for i in range(self.nwalkers):
                    if acc[i]:
                        rows[i], lp[i], bl[i] = prop[i], plp[i], pbl[i]
                if store:
                    self.c.append([list(r) for r in rows])
                    self.l.append(list(lp))
                    self.b.append(list(bl))
                ob = np.empty((self.nwalkers, len(bl[0])), dtype=object)
                for i in range(self.nwalkers):
                    for j, v in enumerate(bl[i]):
                        ob[i, j] = v
                yield emcee.State(ctx.arr([x for r in rows for x in r]).reshape(self.nwalkers, self.ndim),
                                  log_prob=ctx.arr([fit.scalar(v) for v in lp]), blobs=ob)

        def run_mcmc(self, initial_state, nsteps, **kw):
            for st in self.sample(initial_state, iterations=nsteps, **kw):
                pass
            return st

        def get_chain(self, flat=False, **kw):
            a = ctx.arr([x for s in self.c for r in s for x in r]).reshape(
                len(self.c), self.nwalkers, self.ndim)
            return a.reshape(-1, self.ndim) if flat else a

        def get_log_prob(self, flat=False, **kw):
            return ctx.arr([fit.scalar(x) for s in self.l for x in s]).reshape(len(self.l), self.nwalkers)

        @property
        def acceptance_fraction(self):
            return np.ones(self.nwalkers)
    return Ensemble


class World:
    """patched emcee and multiprocessing"""

    def __init__(self, ctx, accept, cpus=3):
        import multiprocessing

        import emcee
        import naima.core as core

        FakePool.all = []
        self.E = ensemble(ctx, accept)
        self.E.calls, self.E.made, self.E.steps = [], [], [0]
        items = [(emcee, "EnsembleSampler", self.E), (multiprocessing, "Pool", FakePool),
                 (os, "cpu_count", lambda: cpus), (multiprocessing, "cpu_count", lambda: cpus),
                 (np.random, "normal", Normal(ctx))]
        for n, v in (("Pool", FakePool), ("EnsembleSampler", self.E), ("cpu_count", lambda: cpus)):
            if hasattr(core, n):
                items.append((core, n, v))
        self.p = Patches(items)

    def __enter__(self):
        self.p.__enter__()
        self.q = fit.quiet()
        self.q.__enter__()
        return self.E

    def __exit__(self, *a):
        self.q.__exit__(*a)
        self.p.__exit__(*a)


def problem(ctx, npar):
    """table, model, prior and the documented posterior of a parameter vector"""
    from astropy.table import QTable

    import astropy.units as u

    # one concrete point above the model: C21 decides the likelihood
    t = QTable()
    t["energy"] = [1.0] * u.TeV
    t["flux"] = [3.0] * u.Unit("1/(cm2 s TeV)")
    t["flux_error"] = [0.5] * u.Unit("1/(cm2 s TeV)")
    rows = [dict(e=1.0, f=3.0, flo=0.5, fhi=0.5, ul=False, cl=0.9, kind="dflux")]
    unit = "1/(cm2 s TeV)"

    def value(p):
        return fit.plain(p[0]) + (fit.plain(p[1]) * 2 if npar > 1 else 0.0)

    def model(p, data):
        return ctx.q(ctx.arr([value(p)]), unit), fit.plain(p[0]) * 3

    def prior(p):
        return fit.plain(p[0]) * -0.5
    post = lambda p: fit.lnlike(ctx, rows, [value(p)], "dflux", False) - fit.plain(p[0]) / 2
    return t, model, prior, post


def near(ctx, label, a, b):
    a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
    ctx.true(label + "_shape", len(a) == len(b), "%d %d" % (len(a), len(b)))
    for x, y in zip(a, b):
        ctx.eq(label, fit.scalar(x), fit.scalar(y))


def stored(ctx, s, n, post, label):
    c = s.get_chain()
    ctx.true(label + "_steps", c.shape[0] == n, "%s steps" % (c.shape,))
    lp = s.get_log_prob()
    for i in range(len(s.c)):
        for j in range(s.nwalkers):
            if post is not None:
                ctx.eq(label + "_lnprob", lp[i][j], post(c[i][j]))
            ctx.eq(label + "_blob", fit.scalar(s.b[i][j][1]), c[i][j][0] * 3)


def pools(ctx, label, n):
    """n processes were used, and none are left"""
    ctx.true(label + "_pools", [p.n for p in FakePool.all] == ([n] if n > 1 else []),
             "%s" % [p.n for p in FakePool.all])
    ctx.true(label + "_closed", not any(p.open for p in FakePool.all))


def whole(ctx):
    """burn-in and run from keyword arguments, then the run is continued"""
    npar, threads = ctx.choice("case", [(1, 1), (1, 2), (1, None), (2, 1)])
    t, model, prior, post = problem(ctx, npar)
    p0 = ctx.reals("p", npar, 0.2, 0.4)
    nburn, nrun = ctx.choice("steps", [(0, 1), (1, 2), (2, 1)])
    acc = ctx.choice("accepted", [(True, True), (True, False), (False, False)])
    with World(ctx, lambda k: acc if k % 2 == 0 else acc[::-1]) as E:
        from naima import run_sampler

        s, pos = run_sampler(nrun=nrun, data_table=t, p0=list(p0), model=model, prior=prior,
                             nwalkers=2, nburn=nburn, guess=False, threads=threads)
        want = [c for c in E.calls]
        start = [[p * (1 + 0.1 * z) for p, z in zip(p0, Normal.VALUES[i * npar:])] for i in range(2)]
        its = ([nburn] if nburn else []) + [nrun]
        ctx.true("calls", [c[0] for c in want] == its, "%s" % [c[0] for c in want])
        near(ctx, "start", want[0][2], start)
        stored(ctx, s, nrun, post, "run")
        near(ctx, "pos", pos.coords, s.get_chain()[-1])
        info = s.run_info
        ctx.true("info", info["n_run"] == nrun and info["n_burn"] == nburn and info["n_walkers"] == 2,
                 "%s" % info)
        after = want[-1][2]
        near(ctx, "median", info["p0_burn_median"], [(a + b) / 2 for a, b in zip(*after)])
        near(ctx, "info_p0", info["p0"], p0)
        ctx.true("arguments", s.modelfn is model and s.log_prob_fn.args[1:] == [model, prior])
        pools(ctx, "run", 3 if threads is None else threads)
        # continue
        again = 3 if acc == (False, False) else 1
        end = [list(r) for r in pos.coords]
        r = "array" if threads is None or nburn == 2 else "state"
        try:
            s2, pos2 = run_sampler(nrun=again, sampler=s, pos=pos if r == "state" else pos.coords)
        except ClosedPool:
            ctx.true("continues", False, "a closed pool is used")
            return
        ctx.true("same sampler", s2 is s)
        near(ctx, "continued", E.calls[-1][2], end)
        stored(ctx, s, again, None, "continued")
        near(ctx, "pos2", pos2.coords, s.get_chain()[-1])
        ctx.true("info2", s.run_info["n_run"] == again and s.run_info["n_burn"] == nburn)
        ctx.true("closed", not any(p.open for p in FakePool.all))


def separate(ctx):
    """get_sampler followed by run_sampler"""
    t, model, prior, post = problem(ctx, 1)
    p0 = ctx.reals("p", 1, 0.2, 0.4)
    nburn = ctx.choice("nburn", [0, 2])
    threads = ctx.choice("threads", [1, 2])
    nrun = ctx.choice("nrun", [1, 21])
    with World(ctx, lambda k: (k % 3 != 1, k % 2 == 0)) as E:
        from naima import get_sampler, run_sampler

        s, pos = get_sampler(data_table=t, p0=list(p0), model=model, prior=prior, nwalkers=2,
                             nburn=nburn, guess=False, threads=threads)
        ctx.true("burned", sum(c[0] for c in E.calls) == nburn)
        k = len(E.calls)
        s1, pos1 = run_sampler(nrun, s, pos)
        ctx.true("one sampler", s1 is s and len(E.made) == 1)
        ctx.true("steps", [c[0] for c in E.calls[k:]] == [nrun])
        near(ctx, "from", E.calls[-1][2], pos.coords)
        stored(ctx, s, nrun, post, "run")
        near(ctx, "pos", pos1.coords, s.get_chain()[-1])
        pools(ctx, "run", threads)


def default(ctx):
    """documented numbers of walkers and steps"""
    t, model, prior, post = problem(ctx, 1)
    p0 = ctx.reals("p", 1, 0.2, 0.4)
    what = ctx.choice("default", ["nrun", "nburn", "nwalkers"])
    kw = dict(nwalkers=2, nburn=1, nrun=1)
    del kw[what]
    with World(ctx, lambda k: [False] * 500) as E:
        from naima import run_sampler

        s, pos = run_sampler(data_table=t, p0=list(p0), model=model, prior=None, guess=False, threads=1,
                             **kw)
        ctx.true("default", [c[0] for c in E.calls] == [100 if what == "nburn" else 1,
                                                        100 if what == "nrun" else 1]
                 and s.nwalkers == (500 if what == "nwalkers" else 2), "%s" % [c[0] for c in E.calls])
        ctx.eq("same", pos.coords[0][0], p0[0] * (1 + 0.1 * Normal.VALUES[0]))


HARNESSES = [("whole", whole), ("separate", separate), ("default", default)]
