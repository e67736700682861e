#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (ids must be in properties.jsonl)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = {p["id"]: p["title"] for p in props}
CHECKS = json.load(open(os.path.join(here, "checks.json")))
m = {
    "version": 1,
    "setup_cmd": "bash -n check.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds /verif/harness against /repo's working tree (debug assertions and overflow checks on) and runs monitors over generated workloads; see DESIGN.md. No hooks are needed in /repo.",
}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "not yet claimed: its monitor is still being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
