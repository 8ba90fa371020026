#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import props, texts
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./prepare.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": texts.TECHNIQUE.get(i, texts.TECH), "level": "other",
                            "level_note": texts.LEVEL_NOTE + (" " + texts.NOTES[i] if i in texts.NOTES else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": texts.NOT_APPLICABLE.get(i, "No check yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
