#!/usr/bin/env python3
"""run_seeds.py [ID...]: applies each planted bug to /repo in turn, runs its property's check, undoes it. (Never a check itself.)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        t = time.time()
        r = subprocess.run(["python3", "run.py", prop], cwd=V, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print(f"{i:28} {prop} rc={r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} {time.time()-t:.0f}s {(lines[0][:150] if lines else r.stderr[-300:])}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
