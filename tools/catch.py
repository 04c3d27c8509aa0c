#!/usr/bin/env python3
"""catch.py [--all] ID...: runs the check of each planted bug's property (--all: every check) against a copy of /repo with the bug."""
import sys, os, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    W = "/tmp/catch/w"; 
    if os.path.exists(W): shutil.rmtree(W)
    os.makedirs("/tmp/catch", exist_ok=True); shutil.copytree("/repo", W, symlinks=True)
    subprocess.run(["git", "-C", W, "apply", V + "/seeded/%s/patch.diff" % i], check=True)
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); props = [m["property"]]
    if "--all" in sys.argv: props = ["C%02d" % k for k in range(1, 33)]
    for p in props:
        t = time.time(); r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], env=dict(os.environ, LPA_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else "missed rc=%d" % r.returncode, "%.0fs" % (time.time() - t), m["needs"], flush=True)
    shutil.rmtree(W)
