#!/usr/bin/env python3
"""Run the check of one property on /repo's current tree.

usage: run.py <property id> [--tier quick|thorough]
exit 0: the property holds; 1: VIOLATION line(s); 2: the analysis could not be done."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import importlib
import json
import re
import time
import traceback

VERIF = os.path.dirname(HERE)
REPO = "/repo"


def known(pid):
    """findings listed in KNOWN_FINDINGS.txt: finding: property=<id> rule=<rule> func=<f> <what>"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) rule=\[(.*?)\] func=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.setrecursionlimit(20000)
    import props
    from checklib import Ctx
    from engine import AnalysisBroken
    from vn import Fault
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    vp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    for f in (evp, vp):
        if os.path.exists(f):
            os.unlink(f)
    check = props.CHECKS[pid]
    cx = Ctx(pid, tier)
    broken = None
    try:
        for config in (check.configs if tier == "thorough" else check.configs[:1]):
            cx.config = config
            check.fn(cx)
        if not cx.viols:
            cx.check_needs()
    except Fault as e:
        cx.violation("evaluation", getattr(e, "where", None) or "code under evaluation", e.args[0])
    except AnalysisBroken as e:
        broken = str(e)
    kn = known(pid)
    new, old = [], []
    for v in cx.viols.values():
        hit = None
        for rule, func, what in kn:
            if v.rule == rule and ("(" + func + ")") in v.where + "(" + v.where + ")":
                hit = what
        (old if hit else new).append((v, hit))
    if broken and not new:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
    funcs = sorted(cx.funcs)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": check.explanation + " Result: " +
            ("analysis could not be completed: %s" % broken if broken and not new else
             "violation" if new else "held") + ".",
            "rules": cx.rules,
            "configurations": check.configs if tier == "thorough" else check.configs[:1],
            "functions_analysed": funcs,
            "engine_runs": cx.runs,
            "abstract_steps": cx.steps,
            "branches_explored_both_ways": cx.branches,
            "returning_paths": cx.paths,
            "obligations": sum(cx.obl.values()),
            "obligations_by_kind": cx.obl,
            "contract_outcomes": {str(k): v for k, v in cx.tags.items()},
            "call_sites": {k: sorted(v)[:12] for k, v in sorted(cx.sites.items())[:80]},
            "externals_without_contract": sorted(cx.unmodelled),
            "notes": cx.notes,
            "violating_constructs": [str(v) for v, _ in new],
            "known_findings": [str(v) for v, _ in old],
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for v, what in old[:20]:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if new:
        with open(vp, "w") as f:
            for v, _ in new:
                f.write("%s\n" % v)
                for p in v.path:
                    f.write("    %s\n" % (p,))
        for v, _ in new[:20]:
            print(str(v)[:400])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(vp, VERIF)))
        return 1
    if broken:
        return 2
    print("HELD property=%s: %d functions, %d abstract steps, %s" %
          (pid, len(funcs), cx.steps,
           ", ".join("%d %s" % (n, k) for k, n in sorted(cx.obl.items()))))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
