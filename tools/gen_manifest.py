#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PBT = "property-based testing (proptest): "
CHECKS = json.load(open(V + "/tools/checks.json"))
m = {
    "version": 1,
    "setup_cmd": "tools/build.sh all",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks: run.sh ID builds /repo's working tree and runs generated cases as an unprivileged user in a "
             "scratch directory. run.sh ID replay FILE replays a saved case. The code under test needs no hooks.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": PBT + c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
