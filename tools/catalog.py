#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = []
NA = []
FT = "trappy/ftrace.py"
BA = "trappy/base.py"
BT = "trappy/bare_trace.py"


def prop(id, title, statement, over, text, tests, files, mechanism, technique=None,
         note="", observe=(), state=(), level="other", na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": tests,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None},
        "_technique": technique, "_note": note, "_level": level, "_na": na})


exec(open(os.path.join(HERE, "catalog_props.py")).read())


def main():
    sys.path.insert(0, VERIF)
    from checks import CHECKS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in CHECKS:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                "technique": p["_technique"], "level": p["_level"],
                "level_note": p["_note"]})
        else:
            na.append({"property": p["id"], "reason": p["_na"] or "no check has been built yet"})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
         "checks": checks, "not_applicable": na,
         "notes": "All the checks are static: an abstract interpreter of Python sources "
                  "(sa/) and syntax-tree analyses (checks/) that read /repo's current "
                  "sources and run none of them. Known findings: known-findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
