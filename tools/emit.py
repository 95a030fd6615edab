"""Emit properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, ROOT  # noqa
PROPS.sort(key=lambda p: p["id"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"], "quick_cmd": "bash check.sh %s --tier=quick" % p["id"],
            "thorough_cmd": "bash check.sh %s --tier=thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_technique"], "level": "exploration", "level_note": p["_note"]})
    else:
        na.append({"property": p["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests driven by the choice-sequence engine in "
              "pbt/; they import the code from /repo/src directly (pure Python: nothing to "
              "build beyond fresh bytecode in a scratch folder). Replay a failure with "
              "'bash check.sh <id> --replay=<file>'."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
