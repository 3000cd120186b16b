"""C29: saved runs read back unchanged."""
import os
import shutil
import tempfile

import numpy as np

from . import fit, h5, tables as T
from .chain import Sampler, objects
from .common import Patches

BOUNDS = ("chains of 1-2 steps of 2-3 walkers with 1-2 parameters; up to four outputs per sample, of "
          "every supported form, with symbolic values")
ASSUMPTIONS = ["HDF5 files are replaced by an in-memory store while symbolic; replays and sampled "
               "executions use real files", "floating-point values survive HDF5 (h5py contract)"]
LIMITS = {"ties": False, "seconds": 60}


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c29")
        return lambda n: os.path.join(self.d, n)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def data(ctx, n=2, **kw):
    from naima.utils import validate_data_table

    t, rows = T.make(ctx, "t", n, ebins="width", err="asym", **kw)
    with fit.quiet():
        return validate_data_table(t), rows


# forms of outputs: name -> (function of (ctx, tag), check)
def arrq(ctx, tag):
    return ctx.q(ctx.vec(tag, 2, 0.1, 3), "1/(cm2 s TeV)")


def sc(ctx, tag):
    return ctx.real(tag, 0.1, 3)


def scq(ctx, tag):
    return ctx.q(ctx.real(tag, 0.1, 3), "erg")


def mixed(ctx, tag):
    """the unit differs between samples"""
    return ctx.q(ctx.real(tag, 0.1, 3), "TeV" if "1_" in tag else "erg")


def pair(ctx, tag):
    return (ctx.q(ctx.vec(tag + "x", 2, 0.1, 3), "keV"), ctx.q(ctx.vec(tag + "y", 2, 0.1, 3), "1/eV"))


def pairlist(ctx, tag):
    return [ctx.q(ctx.vec(tag + "x", 3, 0.1, 3), "TeV"), ctx.vec(tag + "y", 3, 0.1, 3)]


def pairsc(ctx, tag):
    return (ctx.q(ctx.real(tag + "x", 0.1, 3), "G"), ctx.q(ctx.real(tag + "y", 0.1, 3), "cm-3"))


def triple(ctx, tag):
    return tuple(ctx.q(ctx.vec(tag + "xyz"[k], 2, 0.1, 3), un)
                 for k, un in enumerate(("keV", "erg/s", "1/(s eV)")))


def text(ctx, tag):
    return "a text"


FORMS = {"arrq": arrq, "sc": sc, "scq": scq, "pair": pair, "pairlist": pairlist, "pairsc": pairsc,
         "triple": triple, "mixed": mixed, "text": text}
LAYOUTS = [("arrq",), ("arrq", "sc", "scq"), ("pair", "arrq"), ("mixed", "sc", "arrq"), ("scq", "pairsc"),
           ("arrq", "text", "scq"), ("text", "pair"), ("pairlist", "sc", "triple"),
           ("triple",), ("pairsc", "arrq", "pairlist", "scq")]


def same(ctx, label, a, b, skip_text=True):
    """the stored form of b"""
    if isinstance(b, str):
        return
    if isinstance(b, (tuple, list)):
        ctx.true(label + ":len", len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y)
        return
    unit = getattr(b, "unit", None)
    if unit is not None:
        ctx.true(label + ":unit", getattr(a, "unit", None) is not None
                 and a.unit.is_equivalent(unit), "unit %s is not %s" % (getattr(a, "unit", None), unit))
        ctx.true(label + ":shape", np.shape(a) == np.shape(b))
        ctx.eqq(label, a, b)
    else:
        if getattr(a, "unit", None) is not None:
            ctx.true(label + ":plain", a.unit == "")
            a = a.value
        ctx.true(label + ":shape", np.shape(a) == np.shape(b))
        ctx.eq(label, a, b)


def make(ctx, steps, walkers, npar, layout, **kw):
    n = steps * walkers
    ctx.ctol = 1e-12            # values are stored, not computed
    chain = ctx.arr(ctx.reals("c", n * npar, -3, 3)).reshape((steps, walkers, npar))
    lp = ctx.arr(ctx.reals("l", n, -30, -1)).reshape((steps, walkers))
    bl = None
    if layout is not None:
        bl = objects([tuple(FORMS[f](ctx, "b%d_%d" % (i, j)) for j, f in enumerate(layout))
                      for i in range(n)], (steps, walkers))
    t, rows = data(ctx)
    labels = ["norm", "log10(E)", "index"][:npar]
    chain, lp = h5.values(ctx, chain), h5.values(ctx, lp)
    return Sampler(chain, lp, bl, data=t, labels=labels, **kw)


def roundtrip(layouts, shape):
    def h(ctx):
        from naima import read_run, save_run

        layout = ctx.choice("layout", layouts)
        npar = ctx.choice("npar", [1, 2])
        s = make(ctx, shape[0], shape[1], npar, layout)
        own = s.get_blobs().copy()
        comp = ctx.bool("compression")
        fn = lambda p, d: None
        with Dir() as path, h5.patched(ctx), fit.quiet():
            name = path("run" + ctx.choice("ext", [".h5", ".hdf5"]))
            save_run(name, s, compression=comp)
            ctx.true("written", os.path.exists(name))
            r = read_run(name, modelfn=fn if comp else None)
        check(ctx, s, r, layout, own)
        ctx.true("modelfn", r.modelfn is (fn if comp else None))
    h.__name__ = "roundtrip_%dx%d" % shape
    return h


def check(ctx, s, r, layout, own):
    st, wk = s.get_chain().shape[:2]
    ctx.true("chain:shape", r.get_chain().shape == s.get_chain().shape)
    ctx.true("lp:shape", r.get_log_prob().shape == s.get_log_prob().shape)
    ctx.eq("chain", r.get_chain(), s.get_chain())
    ctx.eq("chain:flat", r.get_chain(flat=True), s.get_chain(flat=True))
    ctx.eq("lp", r.get_log_prob(), s.get_log_prob())
    ctx.eq("lp:flat", r.get_log_prob(flat=True), s.get_log_prob(flat=True))
    ctx.true("labels", list(r.labels) == list(s.labels))
    ctx.true("acceptance", abs(r.acceptance_fraction - 0.375) < 1e-12)
    for k, v in s.run_info.items():
        if isinstance(v, (int, float, str)):
            ctx.true("info:" + k, k in r.run_info and r.run_info[k] == v)
    if layout is not None:
        b, f = r.get_blobs(), r.get_blobs(flat=True)
        ctx.true("blobs:shape", b.shape[:2] == (st, wk) and len(f) == st * wk)
        for i in range(st):
            for j in range(wk):
                for k in range(len(layout)):
                    if layout[k] != "text":
                        same(ctx, "blob", b[i, j][k], own[i, j, k])
                        same(ctx, "blob:flat", f[i * wk + j][k], own[i, j, k])
    ctx.true("data:cols", set(r.data.colnames) >= set(s.data.colnames))
    for c in s.data.colnames:
        same(ctx, "data:" + c, r.data[c], s.data[c]) if getattr(s.data[c], "unit", None) is not None else \
            ctx.true("data:" + c, list(r.data[c]) == list(s.data[c]))


def analysed(ctx):
    """a restored run gives the same best fit and results"""
    from naima import read_run, save_run
    from naima.plot import find_ML

    n = 4
    base = ctx.real("b", 0.1, 1)
    cum = [base]
    for g in ctx.reals("g", n - 1, 0.1, 1):
        cum.append(cum[-1] + g)
    vals = [cum[k] for k in (2, 0, 3, 1)]
    chain = ctx.arr(vals).reshape((2, 2, 1))
    lpv = [-3.0, -1.5, -2.0, -4.0]
    lp = np.array(lpv).reshape((2, 2))
    layout = ctx.choice("layout", [("arrq",), ("arrq", "sc", "scq"), ("pair",), ("pair", "arrq")])
    bl = objects([tuple(FORMS[f](ctx, "b%d_%d" % (i, j)) for j, f in enumerate(layout))
                  for i in range(n)], (2, 2))
    own = bl.copy()
    t, rows = data(ctx)
    s = Sampler(chain, lp, bl, data=t, labels=["norm"])
    with Dir() as path, h5.patched(ctx), fit.quiet():
        name = path("run.h5")
        save_run(name, s)
        r = read_run(name)
    for idx in range(len(layout)):
        if layout[idx] in ("sc", "scq"):
            continue
        a, b = find_ML(r, idx), find_ML(s, idx)
        ctx.eq("ML", a[0], lpv[1])
        ctx.eq("MLp", a[1], b[1])
        ctx.eq("MLerr", a[2][0], b[2][0])
        want = own[0, 1, idx]
        x, m = (s.data["energy"], want) if layout[idx] == "arrq" else want
        ctx.eqq("MLx", a[3][0], x)
        ctx.eqq("MLm", a[3][1], m)


def exists(ctx):
    """an existing file is only replaced when asked to"""
    from naima import read_run, save_run

    a = make(ctx, 1, 2, 1, ("sc",))
    b = Sampler(ctx.arr(ctx.reals("d", 2, 5, 9)).reshape((1, 2, 1)), a.get_log_prob() * 2,
                a.get_blobs(), data=a.data, labels=["other"])
    clobber = ctx.bool("clobber")
    default = ctx.bool("default") if not clobber else False
    with Dir() as path, h5.patched(ctx), fit.quiet():
        name = path("run.h5")
        save_run(name, a)
        if default:
            save_run(name, b)
        else:
            save_run(name, b, clobber=clobber)
        r = read_run(name)
        try:
            save_run(path("run.dat"), a)
            bad = True
        except ValueError:
            bad = False
        ctx.true("suffix", not bad and not os.path.exists(path("run.dat")))
    w = b if clobber else a
    ctx.eq("chain", r.get_chain(), w.get_chain())
    ctx.eq("lp", r.get_log_prob(), w.get_log_prob())
    ctx.true("labels", list(r.labels) == list(w.labels))


def info(ctx):
    """run information of every kind survives or is stored as text"""
    from naima import read_run, save_run

    s = make(ctx, 1, 2, 1, ("sc",))
    s.run_info = {"n_walkers": 2, "n_burn": 0, "p0": [1.5, 2.5], "guess": True, "note": "some text",
                  "nothing": None, "float": 1.25, "empty": "", "zero": 0.0, "no": False, "one": 1,
                  "pars": np.array([1.0, 0.0, -2.0]), "neg": -3, "options": {"a": 1}}
    with Dir() as path, h5.patched(ctx), fit.quiet():
        name = path("run.h5")
        save_run(name, s)
        r = read_run(name)
    for k in ("n_walkers", "n_burn", "guess", "note", "float", "empty", "zero", "no", "one", "neg"):
        ctx.true("info:" + k, k in r.run_info and r.run_info[k] == s.run_info[k])
        ctx.true("type:" + k, isinstance(r.run_info.get(k), str) == isinstance(s.run_info[k], str))
    for k in ("nothing", "options"):
        ctx.true("info:" + k, r.run_info.get(k) in (s.run_info[k], str(s.run_info[k])))
    ctx.true("info:pars", list(r.run_info["pars"]) == [1.0, 0.0, -2.0])
    ctx.true("info:p0", list(r.run_info["p0"]) == [1.5, 2.5])


def many(ctx):
    """any number of parameters and outputs, and labels that are not unique"""
    from naima import read_run, save_run

    npar, nout = ctx.choice("n", [(1, 12), (3, 1), (12, 2), (2, 101)])
    s = make(ctx, 1, 1, npar, None)
    kinds = ["sc", "scq", "arrq"]
    vals = tuple(FORMS[kinds[k % 3]](ctx, "b%d" % k) if k % 50 < 3 or k >= nout - 2 else float(k)
                 for k in range(nout))
    s._bl = objects([vals], (1, 1))
    own = list(vals)
    s.labels = ctx.choice("labels", [["p%d" % (11 - i) for i in range(npar)],
                                     ["norm" if i < 2 else "" for i in range(npar)]])
    with Dir() as path, h5.patched(ctx), fit.quiet():
        save_run(path("run.h5"), s)
        r = read_run(path("run.h5"))
    ctx.eq("chain", r.get_chain(), s.get_chain())
    ctx.true("labels", list(r.labels) == list(s.labels), "%s" % r.labels)
    b = r.get_blobs()[0, 0]
    ctx.true("count", len(b) == nout, "%d outputs" % len(b))
    for k in range(nout):
        same(ctx, "blob", b[k], own[k])


def again(ctx):
    """a restored run can be saved and restored again"""
    from naima import read_run, save_run

    layout = ctx.choice("layout", [("arrq", "sc", "scq"), ("text", "pair"), ("triple", "pairsc")])
    s = make(ctx, 1, 2, 1, layout)
    own = s.get_blobs().copy()
    with Dir() as path, h5.patched(ctx), fit.quiet():
        save_run(path("a.h5"), s)
        r = read_run(path("a.h5"))
        if "text" in layout:
            ctx.true("first", r.get_blobs() is not None)
            b = r
        else:
            save_run(path("b.h5"), r)
            b = read_run(path("b.h5"))
    check_again(ctx, s, b, layout, own)


def check_again(ctx, s, b, layout, own):
    ctx.eq("chain", b.get_chain(), s.get_chain())
    ctx.eq("lp", b.get_log_prob(), s.get_log_prob())
    ctx.true("labels", list(b.labels) == list(s.labels))
    for j in (0, 1):
        for k, f in enumerate(layout):
            if f != "text":
                same(ctx, "blob", b.get_blobs()[0, j][k], own[0, j, k])


HARNESSES = [("roundtrip_1x2", roundtrip(LAYOUTS[:5], (1, 2))),
             ("roundtrip_2x2", roundtrip(LAYOUTS[5:], (2, 2))),
             ("roundtrip_2x3", roundtrip(LAYOUTS[1:2] + LAYOUTS[8:9], (2, 3))),
             ("analysed", analysed), ("exists", exists), ("info", info), ("many", many), ("again", again),
             ("roundtrip_3x2", roundtrip(LAYOUTS, (3, 2)), {"tier": "thorough", "seconds": 300})]
