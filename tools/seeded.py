#!/usr/bin/env python3
"""seeded.py [ID...]: applies each planted bug to a scratch copy of /repo and runs the check of its property there."""
import json, os, subprocess, sys, glob, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrun"
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
for i in ids:
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    if subprocess.call(["git", "-C", W, "apply", d + "/patch.diff"]):
        print(i, "DOES NOT APPLY"); continue
    t = time.time()
    p = subprocess.run(["python3", V + "/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    line = next((l for l in p.stdout.splitlines() if l.startswith("VIOLATION")), "")
    print(i, m["property"], "caught" if p.returncode == 1 and line else f"MISSED rc={p.returncode}", f"{time.time()-t:.0f}s", flush=True)
shutil.rmtree(W, ignore_errors=True)
