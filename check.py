#!/opt/venv/bin/python
"""Solver-based property checks for naima.

  check.py <ID> [--tier quick|thorough] [--only HARNESS] [-v]
  check.py --replay FILE          replay a counterexample on the unpatched code
  check.py --serve                (internal) concrete replay server
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(VT)
PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("SYMX_NOEXEC"):
    os.environ["SYMX_NOEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)

import argparse
import importlib
import json
import math
import subprocess
import time
import warnings

warnings.simplefilter("ignore")
OUT = os.path.join(HERE, "out")
os.environ.setdefault("XDG_CACHE_HOME", os.path.join("/tmp", "symx_cache_%d" % os.getuid()))


def quiet_naima():
    import logging

    import astropy.utils.iers
    from astropy import log

    astropy.utils.iers.conf.auto_download = False
    log.setLevel("CRITICAL")
    logging.getLogger("naima.radiative").setLevel(logging.CRITICAL)


def load(pid):
    return importlib.import_module("props." + pid.lower())


def harnesses(mod, tier):
    hs = []
    for h in mod.HARNESSES:
        name, fn = h[0], h[1]
        opts = dict(h[2]) if len(h) > 2 else {}
        if tier == "thorough":
            opts.update(opts.pop("thorough", {}) or {})
        else:
            if opts.get("tier") == "thorough":
                continue
            opts.pop("thorough", None)
        hs.append((name, fn, opts))
    return hs


# ------------------------------------------------------------- concrete side
def serve():
    quiet_naima()
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    from symx.harness import run_concrete

    mods = {}
    for line in sys.stdin:
        job = json.loads(line)
        try:
            m = mods.setdefault(job["prop"], None) or load(job["prop"])
            mods[job["prop"]] = m
            fns = {h[0]: h[1] for h in m.HARNESSES}
            os.environ["VERIF_TIER"] = job.get("tier", "quick")
            fn = fns[job["harness"]]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = run_concrete(fn, job["inputs"])
        except BaseException as e:  # noqa
            r = {"fails": [], "error": "%s: %s" % (type(e).__name__, e), "obs": {}}
        real_out.write(json.dumps(r) + "\n")
        real_out.flush()


class Replayer:
    def __init__(self, tier):
        self.p = None
        self.tier = tier

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, "check.py"), "--serve"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def run(self, prop, harness, inputs, timeout=60):
        import select

        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({"prop": prop, "harness": harness, "inputs": inputs,
                                       "tier": self.tier}) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p = None
            return {"fails": [], "error": "timeout", "obs": {}}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"fails": [], "error": "replayer died", "obs": {}}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(timeout=10)


def replay_file(path):
    d = json.load(open(path))
    quiet_naima()
    from symx.harness import run_concrete

    m = load(d["prop"])
    fns = {h[0]: h[1] for h in m.HARNESSES}
    r = run_concrete(fns[d["harness"]], d["inputs"])
    print(json.dumps({"inputs": d["inputs"], "fails": r["fails"]}, indent=1))
    return 1 if r["fails"] else 0


def selftest():
    """setup: nothing is built; check that the pieces import"""
    quiet_naima()
    import naima
    import z3

    from symx import patch  # noqa

    print("naima %s from %s, z3 %s" % (naima.__version__, os.path.dirname(naima.__file__),
                                       z3.get_version_string()))
    return 0


# ------------------------------------------------------------- symbolic side
def worker(pid, name, tier, opts):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from symx import harness

    mod = load(pid)
    fn = {h[0]: h[1] for h in mod.HARNESSES}[name]
    dn = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    if not os.environ.get("SYMX_DEBUG"):
        sys.stdout = sys.stderr = dn
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = harness.explore(fn, name, opts)
    finally:
        sys.stdout, sys.stderr = so, se
    return res


def child(conn, pid, name, tier, opts):
    from symx import harness, solve

    q0, t0 = dict(solve.STATS), time.time()

    def partial(res):
        """what is known so far, should this process not finish"""
        res.solver = {k: solve.STATS[k] - q0[k] for k in solve.STATS}
        res.wall = time.time() - t0
        conn.send(("partial", res))

    harness.PARTIAL = partial
    try:
        r = worker(pid, name, tier, opts)
    except BaseException as e:  # noqa
        r = "%s: %s" % (type(e).__name__, e)
    conn.send(r)
    conn.close()
    os._exit(0)


def run_pool(pid, jobs, tier, n, results, errors):
    """one process per harness: a solver crash or memory limit stays local and
    is retried once with another solver seed"""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = [(name, lim, 0) for name, lim in jobs]
    live, part = {}, {}
    while todo or live:
        while todo and len(live) < n:
            name, lim, k = todo.pop(0)
            a, b = ctx.Pipe(False)
            if k:
                os.environ["SYMX_Z3SEED"] = str(100 + k)
            p = ctx.Process(target=child, args=(b, pid, name, tier, lim), daemon=True)
            p.start()
            os.environ.pop("SYMX_Z3SEED", None)
            b.close()
            live[a] = (p, name, lim, k, time.time() + 2 * lim.get("seconds", 100) + 60)
        ready = wait(list(live), timeout=1.0)
        for a in list(live):
            p, name, lim, k, dead = live[a]
            if a in ready:
                try:
                    r = a.recv()
                    if isinstance(r, tuple):
                        part[name] = r[1]
                        continue
                except (EOFError, OSError):
                    r = "process died"
            elif time.time() > dead:
                p.kill()
                r = "killed: no answer in time"
            else:
                continue
            del live[a]
            a.close()
            p.join(10)
            if not isinstance(r, str):
                results[name] = r
            elif k == 0 and r == "process died":
                todo.append((name, dict(lim, seconds=0.6 * lim.get("seconds", 100)), 1))
            else:
                errors[name] = r
                if name in part:
                    results[name] = part[name]


def close(a, b, tol=1e-6):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-250


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                head, _, desc = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                d["desc"] = desc.strip()
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--serve", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    a = ap.parse_args()
    if a.serve:
        return serve()
    if a.replay:
        return replay_file(a.replay)
    if a.selftest:
        return selftest()
    pid = a.prop.upper()
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    quiet_naima()
    from symx import patch

    patch.patch_all()
    mod = load(pid)
    hs = harnesses(mod, a.tier)
    if a.only:
        hs = [h for h in hs if a.only in h[0]]
    base = dict(getattr(mod, "LIMITS", {}))
    if a.tier == "thorough":
        base.update(getattr(mod, "LIMITS_THOROUGH", {}))
    base.setdefault("seconds", 100 if a.tier == "quick" else 300)
    if a.tier == "thorough":
        base["seconds"] = max(base["seconds"], 300)
    rep = Replayer(a.tier)
    rep.start()
    results = {}
    errors = {}
    jobs = []
    compare = {n: o.get("compare", True) for n, f, o in hs}
    for n, f, o in hs:
        lim = dict(base)
        lim.update(o)
        jobs.append((n, lim))
    jobs.sort(key=lambda j: -j[1].get("seconds", 0) * (j[1].get("weight", 1)))
    if a.j <= 1 or os.environ.get("SYMX_DEBUG"):
        for n, lim in jobs:
            results[n] = worker(pid, n, a.tier, lim)
    else:
        run_pool(pid, jobs, a.tier, a.j, results, errors)

    os.makedirs(os.path.join(OUT, pid), exist_ok=True)
    known = [k for k in known_findings() if k.get("property") == pid]
    violations, known_hit, spurious, incon = [], {}, [], []
    validated, val_bad = 0, []
    nrep = 0
    t_rep = time.time()
    rep_budget = 150 if a.tier == "quick" else 250
    for n, _, _ in hs:
        res = results.get(n)
        if res is None:
            incon.append("%s: worker failed: %s" % (n, errors.get(n)))
            continue
        todo = [("cand", c["label"], c["inputs"]) for c in res.candidates] + \
               [("fallback", "", i) for i in res.fallback]
        seen = {}
        for kind, label, inputs in todo:
            if time.time() - t_rep > rep_budget:
                incon.append("%s: replay budget exhausted" % n)
                break
            key = (kind, strip(label))
            if seen.get(key, 0) >= (6 if kind == "cand" else 60):
                continue
            nrep += 1
            r = rep.run(pid, n, inputs)
            fails = [f for f in r["fails"]]
            if not fails:
                if kind == "cand":
                    spurious.append("%s/%s: not reproduced (%s)" % (n, label, r.get("error", "")))
                continue
            seen[key] = seen.get(key, 0) + 1
            if r.get("exc") and not r.get("naima"):
                incon.append("%s: harness error %s" % (n, fails[0][1]))
                continue
            kf = [match_known(known, n, f[0]) for f in fails]
            if all(kf):
                for k in kf:
                    known_hit[k["harness"] + "/" + k.get("label", "*")] = k
                continue
            path = os.path.join(OUT, pid, "%s_%d.json" % (n, len(violations)))
            json.dump({"prop": pid, "harness": n, "inputs": inputs, "fails": fails},
                      open(path, "w"), indent=1)
            violations.append((n, fails, path))
        for inputs, vals in res.validation:
            if time.time() - t_rep > rep_budget:
                break
            r = rep.run(pid, n, inputs)
            if r.get("skip") or r.get("error") or r.get("exc"):
                if r.get("exc") or r.get("error"):
                    if r["fails"] and r.get("naima"):
                        path = os.path.join(OUT, pid, "%s_v%d.json" % (n, len(violations)))
                        json.dump({"prop": pid, "harness": n, "inputs": inputs, "fails": r["fails"]},
                                  open(path, "w"), indent=1)
                        kf = [match_known(known, n, f[0]) for f in r["fails"]]
                        if not all(kf):
                            violations.append((n, r["fails"], path))
                    else:
                        val_bad.append("%s: %s" % (n, r.get("error") or r["fails"]))
                continue
            common = [k for k in vals if k in r["obs"]]
            bad = [k for k in common if not close(vals[k], r["obs"][k], 1e-5)] \
                if compare.get(n, True) else []
            if r["fails"]:
                kf = [match_known(known, n, f[0]) for f in r["fails"]]
                if not all(kf):
                    path = os.path.join(OUT, pid, "%s_v%d.json" % (n, len(violations)))
                    json.dump({"prop": pid, "harness": n, "inputs": inputs, "fails": r["fails"]},
                              open(path, "w"), indent=1)
                    violations.append((n, r["fails"], path))
            elif bad:
                val_bad.append("%s: encoding differs at %s: %r vs %r" % (
                    n, bad[0], vals[bad[0]], r["obs"][bad[0]]))
            else:
                validated += 1
        incon += ["%s: %s" % (n, x) for x in res.inconclusive[:5]]
        incon += ["%s: unsupported: %s" % (n, x) for x in sorted(set(res.unsupported))[:4]]
        if res.budget_hit:
            incon.append("%s: budget: %s" % (n, res.budget_hit))
        if res.paths and not res.obl and not res.unsupported:
            incon.append("%s: VACUOUS (no obligation reached)" % n)
        if not res.paths:
            incon.append("%s: VACUOUS (no feasible path)" % n)
    rep.stop()

    tot = lambda k: sum(getattr(r, k) for r in results.values())
    solver = {}
    for r in results.values():
        for k, v in r.solver.items():
            solver[k] = solver.get(k, 0) + v
    funcs = sorted(set().union(*[r.functions for r in results.values()]) if results else [])
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "obligations": tot("obl"), "discharged": tot("proved"),
            "samples": [s for r in results.values() for s in r.samples][:6] or ["none"],
            "solver_queries": solver.get("queries", 0),
            "solver_time_s": round(solver.get("time", 0.0), 2),
            "solver_verdicts": {k: solver.get(k, 0) for k in ("unsat", "sat", "unknown", "canonical", "interval", "constant")},
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "harnesses": {n: {"paths": r.paths, "infeasible": r.infeasible, "skipped": r.skipped, "ties_excluded": r.ties,
                              "obligations": r.obl, "proved": r.proved,
                              "labels": {k: "%d/%d" % (v[1], v[0]) for k, v in r.by_label.items()},
                              "wall_s": round(r.wall, 2), "budget": r.budget_hit}
                          for n, r in results.items()},
            "counterexamples_replayed": nrep, "inconclusive": incon[:40],
            "not_reproduced": spurious[:10], "validation_mismatches": val_bad[:10],
            "exhaustive": not incon and not spurious,
            "explanation": "states = completed symbolic paths of the real naima code, "
                           "transitions = symbolic branch decisions; every obligation on every "
                           "path is decided over all inputs within the stated bounds: by z3 (unsat), "
                           "by our term algebra or interval arithmetic where z3 gave no verdict in "
                           "time (canonical, interval), or because it is a constant on the path "
                           "(structure, text, arguments: constant).",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["desc"]))
    for n, f, p in violations[:10]:
        print("  %s: %s" % (n, "; ".join("%s: %s" % tuple(x) for x in f[:3])))
    seenp = set()
    for n, f, p in violations:
        if n in seenp:
            continue
        seenp.add(n)
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for x in (incon + spurious + val_bad)[: (100 if a.v else 12)]:
        print("INCONCLUSIVE %s" % x[:400])
    if a.v:
        for n, r in sorted(results.items()):
            print("  %-40s paths=%d inf=%d skip=%d obl=%d proved=%d cand=%d %.1fs q=%d st=%.1f" % (
                n, r.paths, r.infeasible, r.skipped, r.obl, r.proved, len(r.candidates), r.wall,
                r.solver["queries"], r.solver["time"]))
    print("%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d validated, "
          "%d queries, %.1fs" % (pid, a.tier, len(hs), tot("paths"), tot("proved"), tot("obl"),
                                 validated, solver.get("queries", 0), wall))
    return 1 if violations else 0


def strip(l):
    return l.split("[")[0]


def match_known(known, harness, label):
    for k in known:
        if k["harness"] == harness and k.get("label", "*") in ("*", strip(label)):
            return k
    return None


COMMON_ASSUMPTIONS = [
    "real arithmetic: IEEE rounding, overflow and underflow are not modelled "
    "(equalities are decided up to 1e-9 relative, replays up to 1e-6)",
    "symbolic inputs range over the stated boxes only; array lengths are fixed small sizes",
    "ln/exp/pow/cos atoms are axiomatised (sign, monotonicity, tangent bounds), not defined",
    "numpy/astropy allocation and scalar-cast entry points are replaced by object-dtype "
    "equivalents in the checking process (symx/patch.py); replays run unpatched",
]

if __name__ == "__main__":
    sys.exit(main())
