#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in sorted(PROPS.items()):
    checks.append({"property": p, "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
           "notes": "Every check extracts /repo's current source mechanically (tool/), weaves in the contracts of specs/, and lets Verus decide; see DESIGN.md."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)

from plist import PROPERTIES
ids = set(PROPS) | set(NOT_APPLICABLE)
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        if p["id"] in ids:
            f.write(json.dumps(p) + "\n")
