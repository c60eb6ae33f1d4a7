#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and registry.py."""
import json, os
from spec import PROPERTIES, NOT_APPLICABLE
from registry import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
man = {"version": 1, "setup_cmd": "python3 run.py --setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in PROPERTIES if p["id"] not in na],
       "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks in /repo: every harness uses the public headers of the working tree. Bounds per property: registry.py and DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
assert {p["id"] for p in PROPERTIES} - na <= set(PROPS), "claimed without a check"
for p in PROPERTIES:
    assert len(p["title"]) <= 80, p["id"]
    assert p["id"] in na or PROPS[p["id"]]["bounds"] not in ("x", None), p["id"] + " has no bounds"
