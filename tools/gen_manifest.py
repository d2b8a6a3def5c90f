#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.tsv (id, technique, note) and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
claims = {}
for l in open(f"{root}/tools/claims.tsv"):
    l = l.rstrip("\n")
    if not l or l.startswith("#"):
        continue
    i, tech, note = l.split("\t")
    claims[i] = (tech, note)
na = {}
if os.path.exists(f"{root}/tools/not_applicable.tsv"):
    for l in open(f"{root}/tools/not_applicable.tsv"):
        if l.strip():
            i, r = l.rstrip("\n").split("\t")
            na[i] = r
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
}
hooks = f"{root}/tools/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
for p in props:
    i = p["id"]
    if i in claims:
        tech, note = claims[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash run.sh {i}",
            "thorough_cmd": f"bash run.sh {i} --thorough",
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
