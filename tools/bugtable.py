#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Table of planted bugs"
p = os.path.join(ROOT, "DESIGN.md")
text = open(p).read().split(MARK)[0]
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | quick `check.py %s` |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"],
                                                            m.get("caught_by", m["property"])))
with open(p, "w") as f:
    f.write(text + MARK + "\n\n(%d; regenerated by tools/bugtable.py, confirmed by tools/plant.py)\n\n" % len(rows)
            + "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
