#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/registry.py."""
import json, os, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from registry import PROPERTIES
checks = []
for i, p in PROPERTIES.items():
    note = p["note"] + " Functions: " + "; ".join(p["functions"][:8]) + ("; ..." if len(p["functions"]) > 8 else "") + "."
    if p.get("bound"):
        note += " Bounded part: " + p["bound"] + "."
    note += " Trusted: Kani/CBMC" + ("; " + "; ".join(p["trusted"]) if p["trusted"] else "") + ". Undecided obligations are reported in the evidence and never raise an alarm; the same harness bodies run natively as a bounded stand-in."
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=p["technique"], level=p["level"], level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: contracts sit on thin wrappers in /verif/harness that only call the real public functions. Repairs: see known-findings.txt.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
