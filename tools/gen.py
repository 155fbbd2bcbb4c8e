#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "level": "model_checking",
    "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
    "technique": "bounded symbolic execution of the go/ssa form of /repo with z3 deciding every branch and assertion; counterexamples replayed against the native build",
    "level_note": "bounded: holds for every value of the symbolic inputs within the bounds each harness states in evidence; models of library functions listed in DESIGN.md are trusted"}
    for p in PROPS if p["claimed"]]
na = [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(root + "/MANIFEST.json", "w"), indent=1)
