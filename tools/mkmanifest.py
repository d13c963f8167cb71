#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Holds for every case inside the stated bounds (see the evidence file and DESIGN.md); the real code is executed "
        "on each case and compared with an independent reference model. Trusts the reference model and the harness.")
CHECKS = json.load(open(os.path.join(here, "tools/checks.json")))
PENDING = "not built yet"
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Explicit-state exploration of the real code; see DESIGN.md.",
}
hooks = os.path.join(here, "tools/hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"./check {p} --tier quick",
            "thorough_cmd": f"./check {p} --tier thorough",
            "technique": c["technique"],
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", NOTE),
        })
    else:
        m["not_applicable"].append({"property": p, "reason": PENDING})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
