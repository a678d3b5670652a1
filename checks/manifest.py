#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import table

props = [json.loads(l)["id"] for l in open(os.path.join(common.VERIF, "properties.jsonl"))]
checks = []
for p in props:
    if p in table.CHECKS:
        t, n = table.TECH[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 checks/run.py %s quick" % p,
            "thorough_cmd": "python3 checks/run.py %s thorough" % p,
            "technique": t, "level": "exploration", "level_note": n,
        })
m = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in table.CHECKS],
    "notes": "No hooks: every check uses the public interface of /repo's crate. Known findings: known_findings.json. Replay a violation: python3 checks/run.py replay FILE.",
}
with open(os.path.join(common.VERIF, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
