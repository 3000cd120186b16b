#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/properties.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import NOT_APPLICABLE, NOTES, P, TECH  # noqa

props, checks = [], []
for pid in sorted(P):
    d = P[pid]
    assert len(d["title"]) <= 80, pid
    props.append({
        "id": pid, "title": d["title"], "statement": d["statement"],
        "quantifier": {"over": d.get("over", ["inputs"]), "text": d["quant"]},
        "why_tests_cant": d["why"],
        "anchors": {"files": d["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]},
    })
    if d.get("claim", True) and os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "./check.py %s --tier quick" % pid,
            "thorough_cmd": "./check.py %s --tier thorough" % pid,
            "technique": TECH + d.get("tech", ""),
            "level": "model_checking",
            "level_note": d["bounds"],
        })
na = [dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())]
for pid in P:
    if pid not in [c["property"] for c in checks] and pid not in NOT_APPLICABLE:
        print("no check yet:", pid)
        na.append(dict(property=pid, reason="no check has been built yet"))
json.dump({"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks,
           "not_applicable": na, "notes": NOTES},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, ps)
jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))),
                    json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "checks")
