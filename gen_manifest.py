#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import checks'",
     "hooks": {"guard": "MATTER_MONITOR", "enable": "the checks compile /repo/src with -DMATTER_MONITOR (vlib.py)", "source_commits": ["3155183"]},
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p)
    if not c:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"}); continue
    m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                        "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
