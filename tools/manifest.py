#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json (per property: technique, level_note) and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
claims = json.load(open(f"{here}/tools/claims.json"))
m = {"version": 1, "setup_cmd": "bash setup.sh"}
if claims.get("hooks"):
    m["hooks"] = claims["hooks"]
m["checks"], m["not_applicable"] = [], []
for p in props:
    i = p["id"]
    if i in claims["na"]:
        m["not_applicable"].append({"property": i, "reason": claims["na"][i]})
        continue
    if i not in claims["checks"]:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    c = claims["checks"][i]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
