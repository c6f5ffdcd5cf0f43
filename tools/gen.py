#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalog.py and the registered checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "sa")]
import catalog
import props

V = os.path.join(HERE, "..")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant",
                               "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
ids = [p["id"] for p in catalog.PROPS]
assert len(set(ids)) == len(ids)
checks, na = [], []
for p in catalog.PROPS:
    c = props.CHECKS.get(p["id"])
    if p.get("na"):
        assert c is None, p["id"]
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert c is not None, "no check for " + p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 -B sa/run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 -B sa/run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.technique,
        "level": "other",
        "level_note": p["note"],
    })
for c in props.CHECKS:
    assert c in ids, c
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py", "checks": checks,
     "not_applicable": na,
     "notes": "All checks are static: they compile /repo's current sources to LLVM IR in a "
              "temporary directory, analyse the IR, and never run the program. Thorough "
              "commands repeat the analysis on a build without CPU-specific code and with "
              "larger state budgets."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
