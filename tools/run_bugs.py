#!/usr/bin/env python3
"""run_bugs.py [ID...]: applies each planted bug to /repo in turn and runs the check of its property.
Not part of any check. Takes the patch back afterwards, whatever happens."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout:
    sys.exit("/repo has changes")
for bug in sys.argv[1:] or sorted(os.listdir(S)):
    prop = json.load(open(os.path.join(S, bug, "meta.json")))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, bug, "patch.diff")], check=True)
    t0 = time.time()
    try:
        r = subprocess.run([sys.executable, os.path.join(V, "checks/check.py"), prop], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    parts = sorted({l.split(":")[0] for l in r.stdout.splitlines() if "/" in l.split(":")[0] and not l.startswith("VIOLATION")})
    caught = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
    print(f"{bug} | {prop} | {'caught' if caught else f'NOT CAUGHT ({r.returncode})'} | {time.time() - t0:.0f} s | {', '.join(parts)}", flush=True)
