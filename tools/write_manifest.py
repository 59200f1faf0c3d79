#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
checks = []
for pid, s in sorted(props.SPECS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 checks/check.py {pid}",
        "thorough_cmd": f"python3 checks/check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": s.get("technique", "runtime monitoring: random histories of real document actors, checked step by step against independent models; networks of real daemon processes whose editors, directories and peers are recorded and compared"),
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Holds on every explored history; not exhaustive. " + " ".join(s.get("assumptions", []))).strip(),
    })
m = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": getattr(props, "NOT_APPLICABLE", [])}
if getattr(props, "HOOKS", None):
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
