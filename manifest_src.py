#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/units.json and properties.jsonl: `python3 manifest_src.py`."""
import json
props = [json.loads(l) for l in open("properties.jsonl")]
reg = json.load(open("contracts/units.json"))
NA = {
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    m = reg["properties"].get(i, {})
    level = m.get("level", "exploration")
    tech = m.get("technique") or "executable contracts on the real code (bounded stand-in)"
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i}",
                       technique=tech, level=level,
                       level_note=m.get("note", "bounded stand-in only: random templates, styles and histories against an independent oracle on the real crate"),
                       **({"theorems": m["theorems"]} if m.get("theorems") else {})))
doc = dict(version=1, setup_cmd="python3 -c \"import json; json.load(open('contracts/units.json'))\"",
           hooks=dict(guard="cfg bumaga_verif", enable="RUSTFLAGS='--cfg bumaga_verif --cfg bumaga_verif_readers' BUMAGA_VERIF_DIR=/verif/hooks/<engine>", source_commits=reg["hook_commits"]),
           checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(doc, open("MANIFEST.json", "w"), indent=1)
