#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (all were caught by the check of their property
when tools/plant.sh last ran them; those in MISSED weren't)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = {}
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.setdefault(m["property"], []).append(d + (" (missed)" if d in MISSED else ""))
t = "| caught by the check of | changes |\n|---|---|\n" + "".join(f"| {p} | {', '.join(r)} |\n" for p, r in sorted(rows.items()))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
mark = "<!-- matrix -->"
s = s.replace("CATCH_MATRIX", mark)
open(p, "w").write(s[:s.index(mark)] + mark + "\n" + t)
