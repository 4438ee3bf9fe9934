#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(VERIF, "tools", "checks.json")))
na = json.load(open(os.path.join(VERIF, "tools", "not_applicable.json")))
out = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check extracts the functions under contract from /repo's current source (vx), discharges their "
             "obligations with Verus, and evaluates the same contracts on the compiled code (harness). Generated by tools/mkmanifest.py.",
}
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in checks:
        c = checks[p]
        out["checks"].append({
            "property": p,
            "quick_cmd": f"python3 tools/check.py {p}",
            "thorough_cmd": f"python3 tools/check.py {p}",
            "technique": c.get("technique", "function contracts on the extracted code, discharged by Verus (SMT)"),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    else:
        out["not_applicable"].append({"property": p, "reason": na.get(p, "No check built yet.")})
json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
