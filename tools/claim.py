#!/usr/bin/env python3
"""Adds or replaces a property and its claim: reads a JSON object from stdin with the fields
id,title,statement,over,text,why,files,mech(list of [name,where]),technique,note."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
new = json.load(sys.stdin)
new = new if isinstance(new, list) else [new]
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
claims = json.load(open(f"{here}/tools/claims.json"))
for c in new:
    p = {"id": c["id"], "title": c["title"], "statement": c["statement"],
         "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
         "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]]}}
    props = [q for q in props if q["id"] != c["id"]] + [p]
    claims["checks"][c["id"]] = {"technique": c["technique"], "note": c["note"]}
props.sort(key=lambda p: p["id"])
claims["checks"] = dict(sorted(claims["checks"].items()))
open(f"{here}/properties.jsonl", "w").write("".join(json.dumps(p, separators=(",", ":"), ensure_ascii=False) + "\n" for p in props))
json.dump(claims, open(f"{here}/tools/claims.json", "w"), indent=1, ensure_ascii=False)
os.system(f"python3 {here}/tools/manifest.py")
