#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as fp:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
        fp.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"],
                        "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    src = f"{V}/checks/{p['pid'].lower()}.py"
    if not os.path.exists(src):
        na.append({"property": p["pid"], "reason": "not claimed (yet): no check has been built"})
        continue
    level = "exploration"
    for node in ast.parse(open(src).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "LEVEL":
            level = ast.literal_eval(node.value)
    checks.append({
        "property": p["pid"],
        "quick_cmd": f"./check.py {p['pid']} --tier quick",
        "thorough_cmd": f"./check.py {p['pid']} --tier thorough",
        "evidence_file": f"evidence/{p['pid']}.json",
        "technique": p.get("technique", "runtime monitoring of the real code under generated "
                           "hostile workloads, with an online reference-model oracle"),
        "level": level,
        "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors sit at the transport, the clock and the API."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
