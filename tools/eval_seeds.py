#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs its property's check, undoes it. Development helper."""
import json, os, re, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY"); continue
    t = time.time()
    try:
        r = subprocess.run(["python3", "/verif/run.py", "check", prop], capture_output=True, text=True, timeout=1500)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        u = [l.split()[:2] for l in r.stdout.splitlines() if re.match(r"\w+\s+(violation|noinput|error)", l)]
        print("%-28s %s rc=%d %.0fs %s %s" % (i, prop, r.returncode, time.time() - t, u, v[-1:] ), flush=True)
    except subprocess.TimeoutExpired:
        print(i, "TIMEOUT", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
