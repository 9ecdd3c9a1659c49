#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the plans."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from lib import plans

props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if p in plans.TECH:
        t, note = plans.TECH[p]
        checks.append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything observed is public behaviour. Sanitizer builds and the shadow manifest used by Miri live in /verif/harness. Findings: known_findings.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
