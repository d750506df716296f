#!/usr/bin/env python3
"""Run a recorded violation again: tools/replay.py /verif/replays/C03-1-0.json
Prints what the specification expected (as recorded) and what the code,
rebuilt from /repo's working tree, answers to each input."""
import json
import sys

import vlib


def main():
    rec = json.load(open(sys.argv[1]))
    print("property %s: %s" % (rec["property"], rec["what"]))
    binary = vlib.harness(rec["harness"])
    ins = rec["inputs"]
    r = vlib.run(binary, ins)
    for i, o in zip(ins, r.outs):
        print(">", json.dumps(i)[:2000])
        print("<", json.dumps(o)[:2000])
    if r.rc != 0:
        print("the code stopped at input %d: %s" % (len(r.outs) + 1, r.why()))
    print("recorded details:", json.dumps(rec["details"])[:4000])


main()
