#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
E = "exploration"
F = "fault_enumeration"
T = {}
exec(open(os.path.join(here, "tools", "manifest_table.py")).read())
checks, na = [], []
for p in props:
    if p in T:
        level, technique, note = T[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": "check under construction"})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(brec_verif)", "enable": "RUSTFLAGS=\"--cfg brec_verif\" (set in env.sh)", "source_commits": hook},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds harness/ (or progen/ for P15) against /repo by path dependency; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
