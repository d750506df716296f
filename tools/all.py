#!/usr/bin/env python3
"""Run every registered check (or those named) and print one line for each.
VERIF_REPO, VERIF_TIER and VERIF_SEED are passed on to the checks."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "MANIFEST.json")) as f:
    ids = sys.argv[1:] or [p["property"] for p in json.load(f)["checks"]]
bad = 0
for i in ids:
    t = time.time()
    r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "check.py"), i], cwd=HERE,
                       capture_output=True, text=True)
    note = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "KNOWN", "ERROR", "FALLBACK"))]
    print("%s rc=%d %.0fs %s" % (i, r.returncode, time.time() - t, " | ".join(note)[:400]), flush=True)
    bad += r.returncode != 0
sys.exit(1 if bad else 0)
