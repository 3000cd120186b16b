"""C19: energy bins derived from the energies."""
import numpy as np

from . import tables as T

BOUNDS = "1-4 energies in any order (5 thorough), up to three groups, labels of any type"
ASSUMPTIONS = ["no two energies of a group are equal"]
LIMITS = {"ties": False, "seconds": 100}
LIMITS_THOROUGH = {"seconds": 400}
SETS = {1: [[0]], 2: [[0, 0], [0, 1], [1, 0]],
        3: [[0, 0, 0], [1, 0, 1], [0, 1, 1], [2, 0, 1]],
        4: [[0, 0, 0, 0], [0, 1, 0, 1], [1, 0, 0, 1], [0, 1, 1, 1], [2, 1, 0, 2]]}
LABELS = [lambda g: np.array(g), lambda g: np.array(["set%d" % x for x in g]),
          lambda g: np.array([-0.5 * x for x in g]), lambda g: np.array([bool(x) for x in g])]


def check(ctx, got, e, groups, unit="TeV", k=1.0, label=""):
    ctx.true(label + "shape", np.shape(got) == (2, len(e)), "%s" % (np.shape(got),))
    want = T.edges(ctx, e, groups)
    for i, (lo, hi) in enumerate(want):
        # errors of a bin are accurate relative to the energy
        ctx.eq(label + "lo", got[0][i].to(unit).value * k + e[i], lo + e[i])
        ctx.eq(label + "hi", got[1][i].to(unit).value * k + e[i], hi + e[i])


def plain(n):
    def h(ctx):
        from naima.utils import generate_energy_edges

        e = ctx.reals("e", n, 1e-2, 1e2)
        un = ctx.choice("unit", ["TeV", "erg"]) if n < 4 else "TeV"
        k = T.E_UNITS[un]
        E = ctx.q(ctx.arr([x / k for x in e]), un)
        keep = E.value.copy()
        got = generate_energy_edges(E)
        check(ctx, got, e, [0] * n, un, k)
        ctx.eq("input", E.value, keep)
        ctx.true("unit", got.unit.is_equivalent("eV"))
    h.__name__ = "plain_%d" % n
    return h


def grouped(n):
    def h(ctx):
        from naima.utils import generate_energy_edges

        e = ctx.reals("e", n, 1e-2, 1e2)
        g = ctx.choice("g", SETS[n])
        lab = ctx.choice("label", [0, 1, 2, 3] if n < 4 else [0])
        if lab == 3 and max(g) > 1:
            lab = 0
        E = ctx.q(ctx.vec("e", n, 1e-2, 1e2), "TeV")
        check(ctx, generate_energy_edges(E, groups=LABELS[lab](g)), e, g)
    h.__name__ = "grouped_%d" % n
    return h


def contiguous(n):
    """bins of one group tile the energy axis and contain their energies"""
    def h(ctx):
        from naima.utils import generate_energy_edges

        e = ctx.reals("e", n, 1e-2, 1e2)
        for a, b in zip(e, e[1:]):
            ctx.assume(a * 1.0001 < b)
        perm = ctx.choice("perm", [list(range(n)), list(range(n))[::-1],
                                   [1, 0] + list(range(2, n)), list(range(1, n)) + [0]])
        got = generate_energy_edges(ctx.q(ctx.arr([e[i] for i in perm]), "TeV")).to("TeV").value
        inv = [perm.index(i) for i in range(n)]
        lo = [e[i] - got[0][inv[i]] for i in range(n)]
        hi = [e[i] + got[1][inv[i]] for i in range(n)]
        for i in range(n):
            ctx.lt("below", 0.0, lo[i])
            ctx.lt("inside_lo", lo[i], e[i])
            ctx.lt("inside_hi", e[i], hi[i])
        for i in range(n - 1):
            ctx.eq("joined", hi[i], lo[i + 1])
            ctx.eq("geometric", hi[i] * hi[i], e[i] * e[i + 1])
    h.__name__ = "contiguous_%d" % n
    return h


def in_table(ctx):
    """a table without bins gets the bins of its energies, per group"""
    from naima.utils import validate_data_table

    g = ctx.choice("g", [None, [0, 1, 0], [1, 1, 0], ["b", "a", "b"]])
    t, rows = T.make(ctx, "a", 3, group=g)
    T.compare(ctx, validate_data_table(t), rows, False)


def of_tables(ctx):
    """rows of different tables never share a bin"""
    from naima.utils import validate_data_table

    a, ra = T.make(ctx, "a", 2)
    b, rb = T.make(ctx, "b", 2)
    T.compare(ctx, validate_data_table([a, b]), ra + rb, False)


def lengths(ctx):
    """groups of another length are ignored"""
    from naima.utils import generate_energy_edges

    e = ctx.reals("e", 2, 1e-2, 1e2)
    E = ctx.q(ctx.arr(e), "TeV")
    g = ctx.choice("g", [[0], [0, 1, 2], None])
    check(ctx, generate_energy_edges(E, groups=g), e, [0, 0])


HARNESSES = [("plain_%d" % n, plain(n)) for n in (1, 2, 3, 4)]
HARNESSES += [("grouped_%d" % n, grouped(n)) for n in (2, 3, 4)]
HARNESSES += [("contiguous_%d" % n, contiguous(n)) for n in (2, 3, 4)]
HARNESSES += [("in_table", in_table), ("of_tables", of_tables), ("lengths", lengths),
              ("plain_5", plain(5), {"tier": "thorough", "seconds": 600, "max_paths": 20000}),
              ("contiguous_5", contiguous(5), {"tier": "thorough", "seconds": 400})]
