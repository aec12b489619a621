#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered cases."""
import json
import os
import re

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
src = "".join(open(os.path.join(HERE, "props", f)).read() for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("p_"))
claimed = [i for i in ids if re.search(r'@case\("%s"' % i, src)]
LEVEL_NOTE = ("symbolic execution of the real functions with exact real arithmetic; every path's checks decided by "
              "z3 (or by rational normal form) for all values within the bounds each case states (coverage.cases); "
              "counterexamples replayed on the real code before they are reported")
NA = {}
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, scipy' && PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages /opt/venv/bin/python -c 'import z3'",
    checks=[dict(property=i, quick_cmd="./check.py %s" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                 evidence_file="evidence/%s.json" % i,
                 technique="symbolic execution of the real Python code, SMT-decided (z3) for all inputs within bounds",
                 level="model_checking", level_note=LEVEL_NOTE) for i in claimed],
    not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in claimed],
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(claimed), "claimed", [i for i in ids if i not in claimed])
