#!/usr/bin/env python3
"""Appends the generated sections (bounds of all cases, seeded changes) to DESIGN.md.  Run with ./pyrun."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from symfm import runner  # noqa: E402
runner.load_symbolic()
from symfm.harness import CASES  # noqa: E402

p = os.path.join(HERE, "DESIGN.md")
MARK = "## 5. Bounds"
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + """ of every case (generated by tools/gen_design.py)

Tier q = quick and thorough, t = thorough only. Every claim is "for all values within these bounds"; whatever exceeds them is outside.

"""
for (prop, name), c in sorted(CASES.items(), key=lambda k: (k[0][0], k[1].tier != "quick")):
    s += "* %s/%s (%s): %s\n" % (prop, name, c.tier[0], " ".join(c.bounds.split()))
s += """
## 6. Seeded changes

Each of /verif/seeded/<id> was written from the text of its property and the code, builds, passes the stable
tests and fails its demo. `result` is what the quick check of the property reports (tools used: apply, check, undo).

| id | needs | caught |
|---|---|---|
"""
res = {}
rp = os.path.join(HERE, "tools", "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
d = os.path.join(HERE, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    s += "| %s | %s | %s |\n" % (i, " ".join(m["needs"].split()), res.get(i, "?"))
open(p, "w").write(s)
