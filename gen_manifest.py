#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "contracts on the real functions; conditions generated from go/ssa, discharged by z3; failing inputs replayed on the real code"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claims = json.load(open(os.path.join(V, "claims.json")))
checks = []
for p in props:
    c = claims["claimed"].get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", TECH), "level": c.get("level", "proof"),
                       "level_note": c["note"], **({"theorems": c["theorems"]} if "theorems" in c else {})})
na = [{"property": p["id"], "reason": claims["not_applicable"].get(p["id"], "contracts not finished yet")} for p in props if p["id"] not in claims["claimed"]]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the contracts are overlaid on the packages when they are loaded, /repo carries no annotation. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
