#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md section 6 from seeded/*/meta.json."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
txt = "\n".join("* %s: %s" % (p, ", ".join(sorted(v))) for p, v in sorted(by.items()))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n%s\n<!-- /bugs -->" % txt, s, flags=re.S)
s = re.sub(r"^\d+ planted bugs are in", "%d planted bugs are in" % sum(map(len, by.values())), s, flags=re.M)
open(p, "w").write(s)
print(sum(map(len, by.values())), "bugs")
