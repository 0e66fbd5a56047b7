"""Writes MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        na.append({"property": i, "reason": "machinery under construction"})
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": plans.TECHNIQUE[i], "level": "model_checking", "level_note": plans.NOTE[i]})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC; see DESIGN.md. Exit 2 of a check means the check failed, not the property."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
