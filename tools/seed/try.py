#!/usr/bin/env python3
"""try.py [ID...]: runs the check of each seeded bug's property against it (applied to /repo, then undone)."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.realpath(os.path.join(HERE, "..", ".."))
for id in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + id
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    t = time.time()
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    print(p, id, "CAUGHT" if r.returncode == 1 and v else "MISSED rc %d %s" % (r.returncode, (r.stdout + r.stderr)[-600:]), "%.0fs" % (time.time() - t), flush=True)
