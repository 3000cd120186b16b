"""Symbolic data tables and the measurements they stand for."""
import numpy as np

ERG = 1.602176634e-12           # erg per eV
# physical type -> (unit, factor to the reference unit), reference: TeV-based photon units
E_UNITS = {"TeV": 1.0, "GeV": 1e-3, "erg": 1 / (ERG * 1e12), "keV": 1e-9}
KINDS = {
    "dflux": {"1/(cm2 s TeV)": 1.0, "1/(m2 s GeV)": 1e-1, "1/(cm2 s erg)": ERG * 1e12},
    "flux": {"erg/(cm2 s)": 1 / (ERG * 1e12), "TeV/(cm2 s)": 1.0, "MeV/(m2 s)": 1e-10},
    "dpower": {"1/(s TeV)": 1.0, "1/(s erg)": ERG * 1e12},
    "power": {"erg/s": 1 / (ERG * 1e12), "TeV/s": 1.0},
}
OUT = {True: {"dflux": "erg/(cm2 s)", "flux": "erg/(cm2 s)", "dpower": "erg/s", "power": "erg/s"},
       False: {"dflux": "1/(s TeV cm2)", "flux": "1/(s TeV cm2)", "dpower": "1/(s TeV)",
               "power": "1/(s TeV)"}}


def column(ctx, vals, unit, qtable):
    """a column with a unit, for a QTable or a Table"""
    if qtable:
        return ctx.q(ctx.arr(vals), unit)
    from astropy.table import Column

    return Column(ctx.arr(vals), unit=unit)


def make(ctx, name, n, kind="dflux", funit=None, eunit="TeV", err="sym", ebins="none", ul=None,
         flux_ul=False, cl=None, group=None, qtable=True, elo=0.5, ehi=20.0, anyflux=False):
    """(table, rows): a table of n measurements and the list of dicts it stands for

    Row values are in TeV and the TeV-based unit of the flux kind."""
    from astropy.table import QTable, Table

    funit = funit or next(iter(KINDS[kind]))
    ke, kf = E_UNITS[eunit], KINDS[kind][funit]
    t = QTable() if qtable else Table()
    r = lambda s, lo, hi: ctx.reals(name + s, n, lo, hi)
    col = lambda key, vals, unit: t.__setitem__(key, column(ctx, vals, unit, qtable))
    e = r("e", elo, ehi)
    f = r("f", -2.0, 5.0) if not ul or anyflux else r("f", 0.1, 5.0)
    col("energy", [x / ke for x in e], eunit)
    col("flux", [x / kf for x in f], funit)
    rows = [dict(e=e[i], f=f[i], kind=kind) for i in range(n)]

    def both(lo, hi, keys, scale=None):
        for i in range(n):
            rows[i][keys[0]], rows[i][keys[1]] = lo[i], hi[i]

    if err == "sym":
        d = r("d", 0.1, 3)
        col("flux_error", [x / kf for x in d], funit)
        both(d, d, ("flo", "fhi"))
    elif err == "asym":
        d1, d2 = r("dl", 0.1, 3), r("dh", 0.1, 3)
        col("flux_error_lo", [x / kf for x in d1], funit)
        col("flux_error_hi", [x / kf for x in d2], funit)
        both(d1, d2, ("flo", "fhi"))
    ek = ("elo", "ehi")
    if ebins == "width":
        w = r("w", 0.01, 0.4)
        col("energy_width", [x / ke for x in w], eunit)
        both([x / 2 for x in w], [x / 2 for x in w], ek)
    elif ebins == "error":
        w = r("w", 0.01, 0.4)
        col("energy_error", [x / ke for x in w], eunit)
        both(w, w, ek)
    elif ebins == "error_asym":
        w1, w2 = r("wl", 0.01, 0.4), r("wh", 0.01, 0.4)
        col("energy_error_lo", [x / ke for x in w1], eunit)
        col("energy_error_hi", [x / ke for x in w2], eunit)
        both(w1, w2, ek)
    elif ebins == "edges":
        w1, w2 = r("wl", 0.01, 0.4), r("wh", 0.01, 0.4)
        col("energy_lo", [(x - a) / ke for x, a in zip(e, w1)], eunit)
        col("energy_hi", [(x + a) / ke for x, a in zip(e, w2)], eunit)
        both(w1, w2, ek)
    elif ebins == "none":
        g = [group[i] if group else 0 for i in range(n)]
        for i, (a, b) in enumerate(edges(ctx, e, g)):
            rows[i]["elo"], rows[i]["ehi"] = a, b
    flags = ul[1] if ul else [False] * n
    if ul:
        t["ul"] = {"bool": lambda v: np.array(v, dtype=bool), "int": lambda v: np.array(v, dtype=int),
                   "str": lambda v: np.array([str(bool(x)) for x in v])}[ul[0]](flags)
    if flux_ul:
        z = r("z", 0.1, 5)
        col("flux_ul", [x / kf for x in z], funit)
        for i in range(n):
            if flags[i]:
                rows[i]["f"] = z[i]
    if group is not None:
        t["group"] = list(group)
    for i in range(n):
        rows[i]["ul"] = bool(flags[i])
        rows[i]["cl"] = 0.9 if cl is None else cl
        rows[i]["group"] = group[i] if group is not None else None
    if cl is not None:
        t.meta["keywords"] = {"cl": {"value": cl}}
    return t, rows


def edges(ctx, e, groups):
    """documented energy bins: the geometric mean of neighbouring energies"""
    m = ctx.m
    out = [None] * len(e)
    for g in sorted(set(groups)):
        idx = order(ctx, [e[i] for i in range(len(e)) if groups[i] == g])
        orig = [i for i in range(len(e)) if groups[i] == g]
        idx = [orig[i] for i in idx]
        mid = [m.sqrt(e[idx[k]] * e[idx[k + 1]]) for k in range(len(idx) - 1)]
        for k, i in enumerate(idx):
            lo = e[i] - mid[k - 1] if k else None
            hi = mid[k] - e[i] if k < len(idx) - 1 else None
            if hi is None:
                hi = lo if lo is not None else 0.0
            if lo is None:
                # same relative width as the upper half bin
                lo = e[i] - e[i] * e[i] / (e[i] + hi)
            out[i] = (lo, hi)
    return out


def order(ctx, e):
    """indices that sort e (comparisons of the same differences as the code)"""
    idx = []
    for i in range(len(e)):
        j = len(idx)
        while j > 0 and bool(e[i] < e[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def to_sed(ctx, row, key, sed):
    """value of a flux-like quantity in SED or differential form (TeV based)"""
    v, e = row[key], row["e"]
    is_sed = row["kind"] in ("flux", "power")
    if is_sed == sed:
        return v
    return v * (e * e) if sed else v / (e * e)


def compare(ctx, got, rows, sed, label="", groups=True):
    """the validated table lists exactly these measurements in order of energy"""
    import astropy.units as u

    ctx.true(label + "length", len(got) == len(rows), "%d rows" % len(got))
    if len(got) != len(rows):
        return
    idx = order(ctx, [r["e"] for r in rows])
    out = OUT[sed][rows[0]["kind"]]
    ctx.true(label + "funit", got["flux"].unit == u.Unit(out), "unit %s" % got["flux"].unit)
    k = {"erg/(cm2 s)": 1 / (ERG * 1e12), "erg/s": 1 / (ERG * 1e12)}.get(out, 1.0)
    for j, i in enumerate(idx):
        r = rows[i]
        for key, c in (("e", "energy"), ("elo", "energy_error_lo"), ("ehi", "energy_error_hi")):
            # rounding of a bin error is relative to the energy
            off = 0.0 if key == "e" else r["e"]
            ctx.eq(label + c, got[c][j].to("TeV").value + off, r[key] + off)
        for key, c in (("f", "flux"), ("flo", "flux_error_lo"), ("fhi", "flux_error_hi")):
            ctx.eq(label + c, got[c][j].to(out).value * k, to_sed(ctx, r, key, sed))
        ctx.true(label + "ul", bool(got["ul"][j]) == r["ul"])
        ctx.eq(label + "cl", got["cl"][j], r["cl"])
        if groups and r["group"] is not None:
            ctx.true(label + "group", got["group"][j] == r["group"])


def snapshot(t):
    """contents of a table, to see whether it was modified"""
    return {c: (np.array(getattr(t[c], "value", t[c])).copy(), getattr(t[c], "unit", None))
            for c in t.colnames}, {k: repr(v) for k, v in t.meta.items()}


def unchanged(ctx, label, t, snap):
    new = snapshot(t)
    ctx.true(label + ":columns", list(new[0]) == list(snap[0]) and new[1] == snap[1])
    for c, (v, un) in snap[0].items():
        w, un2 = new[0][c]
        ctx.true(label + ":unit", un == un2)
        if v.dtype.kind in "fO" and w.shape == v.shape:
            ctx.eq(label + ":" + c, w, v)
        else:
            ctx.true(label + ":" + c, np.array_equal(w, v))
