"""Writes MANIFEST.json from the plan of check.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import common

NOTES = check.NOTES
props = [json.loads(l) for l in open(os.path.join(common.VERIF, "properties.jsonl"))]
checks = [{
    "property": p["id"],
    "quick_cmd": "./check %s quick" % p["id"],
    "thorough_cmd": "./check %s thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": "TLA+ specification checked with TLC; conformance of the implementation by replaying generated programs/traces and judging the recorded observations with TLC",
    "level": "model_checking",
    "level_note": NOTES[p["id"]],
} for p in props if p["id"] in check.PLAN]
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in check.PLAN],
     "notes": "No hooks in /repo are needed: everything observed is public. See DESIGN.md."}
with open(os.path.join(common.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
