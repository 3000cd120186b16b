"""C17: validated data tables keep the measurements they were made from."""
import numpy as np

from . import tables as T

BOUNDS = ("tables of 1-3 rows, one to three tables; energies, fluxes and errors symbolic; every "
          "documented column layout, several units, SED and differential, flux and luminosity")
ASSUMPTIONS = ["astropy tables are executed as they are on columns of symbolic values",
               "no two energies are exactly equal but where they are the same value (harness equal)"]
LIMITS = {"ties": False, "seconds": 100}
LIMITS_THOROUGH = {"seconds": 500}
ERR = ["sym", "asym"]
BINS = ["none", "width", "error", "error_asym", "edges"]
SED = [None, True, False]


def want_sed(sed, kind):
    return kind in ("flux", "power") if sed is None else sed


def single(kind):
    """one table, every layout of errors and bins"""
    def h(ctx):
        from naima.utils import validate_data_table

        n = ctx.choice("n", [2, 3])
        bins = ctx.choice("bins", BINS)
        err = ctx.choice("err", ERR) if n == 2 else "asym"
        sed = ctx.choice("sed", SED) if n == 2 else not (kind in ("flux", "power"))
        t, rows = T.make(ctx, "a", n, kind=kind, err=err, ebins=bins)
        snap = T.snapshot(t)
        T.compare(ctx, validate_data_table(t, sed=sed), rows, want_sed(sed, kind))
        T.unchanged(ctx, "input", t, snap)
    h.__name__ = "single_" + kind
    return h


def units(ctx):
    """columns in any equivalent unit, QTable or Table"""
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", list(T.KINDS))
    fu = ctx.choice("fu", list(T.KINDS[kind]))
    eu = ctx.choice("eu", list(T.E_UNITS))
    q = ctx.bool("qtable")
    bins = "none" if q else "edges"
    t, rows = T.make(ctx, "a", 2, kind=kind, funit=fu, eunit=eu, qtable=q, ebins=bins, err="asym")
    snap = T.snapshot(t)
    sed = ctx.choice("sed", SED)
    T.compare(ctx, validate_data_table(t, sed=sed), rows, want_sed(sed, kind))
    T.unchanged(ctx, "input", t, snap)


def one_row(ctx):
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", list(T.KINDS))
    bins = ctx.choice("bins", BINS)
    t, rows = T.make(ctx, "a", 1, kind=kind, ebins=bins)
    sed = ctx.choice("sed", SED)
    T.compare(ctx, validate_data_table(t, sed=sed), rows, want_sed(sed, kind))


def joined(na, nb, bins):
    """several tables: all rows, in the format of the first unless told otherwise"""
    def h(ctx):
        from naima.utils import validate_data_table

        ka, kb = ctx.choice("kinds", [("dflux", "dflux"), ("dflux", "flux"), ("flux", "dflux"),
                                      ("power", "dpower"), ("dpower", "power"), ("flux", "flux")])
        ua, ub = list(T.KINDS[ka])[0], list(T.KINDS[kb])[1]
        eu = ctx.choice("eu", ["TeV", "keV"])
        a, ra = T.make(ctx, "a", na, kind=ka, funit=ua, ebins=bins)
        b, rb = T.make(ctx, "b", nb, kind=kb, funit=ub, eunit=eu, err="asym", ebins=bins,
                       ul=("bool", [True] + [False] * (nb - 1)), cl=0.95)
        sa, sb = T.snapshot(a), T.snapshot(b)
        for r in ra:
            r["group"] = 0
        for r in rb:
            r["group"] = 1
        sed = ctx.choice("sed", SED)
        got = validate_data_table([a, b], sed=sed)
        T.compare(ctx, got, ra + rb, want_sed(sed, ka))
        T.unchanged(ctx, "first", a, sa)
        T.unchanged(ctx, "second", b, sb)
    h.__name__ = "joined_%d%d_%s" % (na, nb, bins)
    return h


def three(ctx):
    from naima.utils import validate_data_table

    ts, rows = [], []
    for i, k in enumerate(ctx.choice("kinds", [("dflux", "flux", "dflux"), ("flux", "dflux", "flux"),
                                               ("power", "dpower", "power"), ("dpower", "power", "power")])):
        t, r = T.make(ctx, "abc"[i], 1, kind=k, ebins="width")
        r[0]["group"] = i
        ts.append(t)
        rows += r
    got = validate_data_table(ts)
    T.compare(ctx, got, rows, rows[0]["kind"] in ("flux", "power"))


def equal(ctx):
    """measurements at the same energy are all kept"""
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", ["dflux", "power"])
    a, ra = T.make(ctx, "a", 2, kind=kind, ebins="width")
    b, rb = T.make(ctx, "b", 2, kind=kind, ebins="error", err="asym")
    # one or both energies of the second table are those of the first
    for i in range(ctx.choice("same", [1, 2])):
        b["energy"][i] = a["energy"][i]
        rb[i]["e"] = ra[i]["e"]
    for g, rows in enumerate((ra, rb)):
        for r in rows:
            r["group"] = g
    got = validate_data_table([a, b])
    ctx.true("length", len(got) == 4, "%d rows" % len(got))
    e = [got["energy"][k].to("TeV").value for k in range(len(got))]
    for k in range(len(e) - 1):
        ctx.le("sorted", e[k], e[k + 1])
    for g, rows in enumerate((ra, rb)):
        part = got[np.array([x == g for x in got["group"]])]
        T.compare(ctx, part, rows, want_sed(None, kind), "group%d " % g)


def groups(ctx):
    """given groups are kept and their bins are independent"""
    from naima.utils import validate_data_table

    g = ctx.choice("g", [(0, 1, 0), (1, 1, 0), (3, 7, 7), (2, 2, 2)])
    t, rows = T.make(ctx, "a", 3, group=g)
    T.compare(ctx, validate_data_table(t), rows, False)


def limits(ctx):
    """measurements keep their flux, of either sign, next to upper limits"""
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", list(T.KINDS))
    fl = ctx.choice("ul", [(True, False), (False, True), (False, False), (True, True)])
    t, rows = T.make(ctx, "a", 2, kind=kind, ul=(ctx.choice("style", ["bool", "int", "str"]), list(fl)),
                     flux_ul=ctx.choice("column", [True, False]), anyflux=True,
                     err=ctx.choice("err", ERR), ebins="width")
    snap = T.snapshot(t)
    sed = ctx.choice("sed", [None, True])
    T.compare(ctx, validate_data_table(t, sed=sed), rows, want_sed(sed, kind))
    T.unchanged(ctx, "input", t, snap)


def revalidated(ctx):
    """validating a validated table changes nothing"""
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", ["dflux", "power"])
    t, rows = T.make(ctx, "a", 2, kind=kind, err="asym", ul=("bool", [False, True]))
    sed = ctx.choice("sed", [True, False])
    once = validate_data_table(t, sed=sed)
    back = ctx.choice("again", [None, True, False])
    T.compare(ctx, validate_data_table(once, sed=back), rows, sed if back is None else back)


def refused(ctx):
    """tables that cannot be interpreted are refused"""
    from astropy.table import QTable

    from naima.utils import validate_data_table

    case = ctx.choice("case", ["energy", "flux", "err", "lo_only", "hi_only", "mixed", "notable",
                               "notable_in_list", "energy_unit", "flux_unit", "nounit", "err_unit"])
    t, rows = T.make(ctx, "a", 2, err="asym" if case in ("lo_only", "hi_only") else "sym")
    arg = t
    if case in ("energy", "flux"):
        t.remove_column(case)
    elif case == "err":
        t.remove_column("flux_error")
    elif case == "lo_only":
        t.remove_column("flux_error_hi")
    elif case == "hi_only":
        t.remove_column("flux_error_lo")
    elif case == "mixed":
        arg = [t, T.make(ctx, "b", 2, kind=ctx.choice("k", ["power", "flux"]))[0]]
        if arg[1]["flux"].unit.is_equivalent("erg/(cm2 s)"):
            arg[0] = T.make(ctx, "c", 2, kind="power")[0]
    elif case == "notable":
        arg = 3
    elif case == "notable_in_list":
        arg = [t, {"energy": 1}]
    elif case == "energy_unit":
        t["energy"] = ctx.q(ctx.vec("x", 2, 1, 2), "cm")
    elif case == "flux_unit":
        t["flux"] = ctx.q(ctx.vec("x", 2, 1, 2), "1/cm2")
    elif case == "err_unit":
        t["flux_error"] = ctx.q(ctx.vec("x", 2, 1, 2), "K")
    elif case == "nounit":
        t["energy"] = ctx.vec("x", 2, 1, 2)
    try:
        validate_data_table(arg)
        ok = False
    except (TypeError, ValueError, AttributeError):
        ok = True
    ctx.true("refused", ok, case + " accepted")


def built(ctx):
    """build_data_table makes a table of the given measurements"""
    from naima.utils import build_data_table, validate_data_table

    n = 2
    e, f = ctx.reals("e", n, 0.5, 20), ctx.reals("f", n, 0.1, 5)
    bins = ctx.choice("bins", ["none", "width", "edges", "both"])
    err = ctx.choice("err", ["sym", "asym", "both"])
    kind = ctx.choice("kind", list(T.KINDS))
    un = list(T.KINDS[kind])[0]
    k = T.KINDS[kind][un]
    ulk = ctx.choice("ul", [None, [True, False], [0, 1], np.array([False, True])])
    q = lambda v, x: ctx.q(ctx.arr(v), x)
    kw = {}
    d, dl, dh = ctx.reals("d", n, 0.1, 3), ctx.reals("dl", n, 0.1, 3), ctx.reals("dh", n, 0.1, 3)
    if err != "asym":
        kw["flux_error"] = q([x / k for x in d], un)
    if err != "sym":
        kw["flux_error_lo"], kw["flux_error_hi"] = q([x / k for x in dl], un), q([x / k for x in dh], un)
    w, w2 = ctx.reals("w", n, 0.01, 0.2), ctx.reals("ww", n, 0.01, 0.2)
    ed = T.edges(ctx, e, [0] * n)
    if bins in ("width", "both"):
        kw["energy_width"] = q(w, "TeV")
        ed = [(x / 2, x / 2) for x in w]
    if bins in ("edges", "both"):
        kw["energy_lo"] = q([a - b for a, b in zip(e, w)], "TeV")
        kw["energy_hi"] = q([a + b for a, b in zip(e, w2)], "TeV")
        if bins == "edges":
            ed = list(zip(w, w2))
    cl = ctx.choice("cl", [None, 0.99])
    if cl is not None:
        kw["cl"] = cl
    if ulk is not None:
        kw["ul"] = ulk
    t = build_data_table(q(e, "TeV"), q([x / k for x in f], un), **kw)
    rows = []
    for i in range(n):
        lo, hi = (dl[i], dh[i]) if err == "asym" else (d[i], d[i])
        rows.append(dict(e=e[i], f=f[i], kind=kind, flo=lo, fhi=hi, elo=ed[i][0], ehi=ed[i][1],
                         ul=bool(ulk[i]) if ulk is not None else False,
                         cl=0.9 if cl is None else cl, group=None))
    T.compare(ctx, validate_data_table(t), rows, want_sed(None, kind))


HARNESSES = [("single_" + k, single(k)) for k in T.KINDS]
HARNESSES += [("units", units), ("one_row", one_row), ("three", three), ("groups", groups), ("limits", limits), ("equal", equal),
              ("revalidated", revalidated), ("refused", refused), ("built", built),
              ("joined_11", joined(1, 1, "width")), ("joined_21_none", joined(2, 1, "none")),
              ("joined_12_edges", joined(1, 2, "edges")),
              ("joined_22", joined(2, 2, "error_asym"), {"tier": "thorough", "seconds": 600}),
              ("joined_22_none", joined(2, 2, "none"), {"tier": "thorough", "seconds": 600})]
