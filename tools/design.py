"""Writes DESIGN.md from tools/design.md.in, properties.py, the harness files and seeded/."""
import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from properties import NOT_APPLICABLE, P  # noqa: E402


def consts(pid):
    r = {}
    t = ast.parse(open(os.path.join(ROOT, "props", pid.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


def how():
    r, cur = {}, None
    for l in open(os.path.join(ROOT, "tools", "design_how.md")):
        if l.startswith("## "):
            cur = l[3:].strip()
            r[cur] = ""
        elif cur:
            r[cur] += l
    return {k: v.strip() for k, v in r.items()}


def main():
    h = how()
    out = []
    for pid, p in P.items():
        if p.get("claim") is False:
            out.append("### %s %s — not applicable\n\n%s\n" % (pid, p["title"], NOT_APPLICABLE[pid]))
            continue
        c = consts(pid)
        out.append("### %s %s\n\n%s\n\n*Bounds:* %s.%s\n" % (
            pid, p["title"], h[pid], c["BOUNDS"],
            "\n*Assumed:* " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else ""))
    bugs = []
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        bugs.append((m["property"], os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
    caught = {}
    f = os.path.join(ROOT, "tools", "caught.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.strip():
                k, v = l.split(None, 1)
                caught[k] = v.strip()
    rows = ["| property | change | breaks | needs | caught by |", "|---|---|---|---|---|"]
    for pid, b, w, n in sorted(bugs):
        rows.append("| %s | %s | %s | %s | %s |" % (pid, b, w, n, caught.get(b, "not run")))
    fixes = [l[6:].strip() for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) if l.startswith("fixed:")]
    t = open(os.path.join(ROOT, "tools", "design.md.in")).read()
    t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@BUGS@", "\n".join(rows))
    t = t.replace("@FIXES@", "\n".join("- " + x for x in fixes))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


main()
