#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json: {"C01": {"level":..., "note":...}} ; the rest are not applicable with their reason."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
c = json.load(open(ROOT + "/tools/claims.json"))
checks, na = [], []
for i in ids:
    x = c.get(i, {"na": "not claimed yet: its contracts are not written"})
    if "na" in x:
        na.append({"property": i, "reason": x["na"]})
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "technique": x.get("technique", "contract-based deductive verification of the Go code (function contracts, loop invariants, SMT)"),
        "level": x.get("level", "proof"), "level_note": x["note"]})
    if x.get("theorems"): checks[-1]["theorems"] = x["theorems"]
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
