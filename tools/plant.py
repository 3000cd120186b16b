#!/usr/bin/env python3
"""Plant bugs: tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS = {id: dict(property, file, edits=[(old, new)...], demo=<python source>,
needs, breaks)}. For each: makes seeded/<id>/, confirms in a scratch copy of /repo that the
patched tree passes the stable tests and that the demo passes before and fails after."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run_demo(wt, d):
    env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True,
                       timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def run_tests(wt):
    env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    with tempfile.TemporaryDirectory() as cwd:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + wt,
                            "--timeout=300", "-p", "no:xdist", "--randomly-seed=1",
                            "--randomly-dont-reorganize", wt + "/tests"], cwd=cwd, env=env,
                           capture_output=True, text=True)
    tail = r.stdout.strip().splitlines()[-6:]
    return tail


def one(bid, b):
    d = os.path.join(HERE, "seeded", bid)
    wt = tempfile.mkdtemp(prefix="wt_", dir="/tmp") + "/repo"
    out = ["== " + bid]
    try:
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt, check=True)
        files = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        pre = run_demo(wt, d)
        out.append("demo before: %d %s" % (pre[0], pre[1] if pre[0] else ""))
        for f, ed in files.items():
            p = os.path.join(wt, f)
            s = open(p).read()
            for old, new in ed:
                assert s.count(old) == 1, "%s: %d occurrences of %r" % (bid, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        for f, ed in files.items():  # only lines of the original repository may be changed
            h = subprocess.run(["git", "diff", "-U0", f], cwd=wt, capture_output=True, text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                n = int(m.group(2) or 1)
                if n:
                    bl = subprocess.run(["git", "blame", "-s", "-L", "%s,+%d" % (m.group(1), n), "HEAD", "--", f],
                                        cwd=wt, capture_output=True, text=True).stdout
                    for line in bl.splitlines():
                        if not line.startswith("^"):
                            out.append("NOT ORIGINAL: " + line)
        post = run_demo(wt, d)
        out.append("demo after: %d %s" % (post[0], post[1][-300:]))
        tail = run_tests(wt)
        out += tail[-4:]
        good = pre[0] == 0 and post[0] != 0 and ("218 passed, 1 xpassed" in tail[-1] or "219 passed" in tail[-1]) and "failed" not in tail[-1] and "NOT ORIGINAL" not in "".join(out)
        out.append("GOOD" if good else "BAD")
    except Exception as e:  # noqa
        out.append("BAD %s" % e)
    finally:
        shutil.rmtree(os.path.dirname(wt))
    return "\n".join(out)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ids = sys.argv[2:] or list(g["BUGS"])
    with ThreadPoolExecutor(int(os.environ.get("NPLANT", 4))) as ex:
        for r in ex.map(lambda i: one(i, g["BUGS"][i]), ids):
            print(r, flush=True)
