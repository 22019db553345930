#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json
import os

from plan import P

here = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid, p in sorted(P.items()):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": "runtime monitoring: " + p["monitor"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors use the public API only. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, sort_keys=False)
    f.write("\n")
