#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and na.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from na import HOOKS, NA  # noqa: E402
from plan import PLAN  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": HOOKS,
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 tools/run.py {p}",
            "thorough_cmd": f"python3 tools/run.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": PLAN[p]["technique"],
            "level": PLAN[p]["level"],
            "level_note": PLAN[p]["note"],
        }
        for p in ids
        if p in PLAN
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "No contract written yet.")} for p in ids if p not in PLAN],
    "notes": "See DESIGN.md. Every check compiles the contracts in contracts/ against /repo's working tree.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
