"""Writes MANIFEST.json from properties.jsonl and vc/propinfo.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import propinfo
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    i = propinfo.INFO[d["id"]]
    if i["na"]:
        na.append({"property": d["id"], "reason": i["na"]})
        continue
    checks.append({"property": d["id"], "quick_cmd": "python3-vt check.py %s quick" % d["id"], "thorough_cmd": "python3-vt check.py %s thorough" % d["id"],
                   "technique": i["technique"], "level": i["level"], "level_note": i["note"]})
m = {"version": 1, "setup_cmd": "python3-vt check.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": "Contracts live in vc/, executable counterparts (replay and bounded stand-ins) in rt/; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
