#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry  # noqa: E402

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    props = [json.loads(x)["id"] for x in f if x.strip()]
checks, na = [], []
for p in props:
    if p not in registry.CHECKS:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "no check built yet")})
        continue
    technique, note = registry.NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
        "technique": technique,
        "level": registry.CHECKS[p][2],
        "level_note": note,
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replaying "
                 "TLC's behaviours through the harnesses in harness/. No hooks in /repo.",
    }, f, indent=1)
    f.write("\n")
print("%d checks, %d not applicable" % (len(checks), len(na)))
