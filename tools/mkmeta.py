#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py (python3 tools/mkmeta.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, TECH, NOTES
lines, checks, na = [], [], []
for p in PROPS:
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"):
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    anchors["observe_at"] = p.get("observe", [])
    anchors["hook_needed"] = None
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": anchors}))
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH[p.get("tech", "gvn")], "level": "other", "level_note": p["note"]})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(lines), "properties,", len(checks), "checks")
