#!/usr/bin/env python3
"""Runs the checks of the planted bugs against a scratch copy: runseeds.py [ID...]  (VP_REPO is how check.py finds it)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="run-", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
        extra = os.environ.get("ALSO", "").split()
        for p in [meta["property"]] + extra:
            q = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p], cwd=HERE, text=True,
                               env=dict(os.environ, VP_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            why = [l for l in q.stdout.splitlines() if "**" in l or l.startswith("[")][:40]
            why = [l for l in why if "VIOL" in l or "cases" not in l]
            print(i, p, "CAUGHT" if q.returncode == 1 and v else "missed rc=%d" % q.returncode, why[:2], flush=True)
    finally:
        shutil.rmtree(w)
