#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/properties.py and bin/checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "bin"), os.path.join(ROOT, "meta")]
from properties import P
from checks import CHECKS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": [], "not_applicable": []}
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "The check of this property is not built yet."})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} --tier quick", "thorough_cmd": f"python3 bin/check.py {p['id']} --tier thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for line in open(os.path.join(ROOT, "properties.jsonl")):
    jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(m["checks"]), "checks")
