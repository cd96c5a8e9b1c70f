#!/usr/bin/env python3
"""Makes one planted bug: mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
EDITS: list of (file, old, new); DEMO: text of demo.cpp. Confirms everything in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = runpy.run_path(sys.argv[1])
ID = sp["ID"]
dst = os.path.join(HERE, "seeded", ID)
work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
SH = """#!/bin/bash
# cwd: /repo after the build. Exit 0: fine, otherwise the property is broken.
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d) || exit 2
trap 'rm -rf "$o"' EXIT
S=""
for f in %(SRC)s; do S="$S $PWD/src/$f"; done
g++ -std=c++17 -O1 -w -pthread -I"$PWD/include" -I"$d" -I/usr/include/eigen3 %(FLAGS)s "$d/demo.cpp" $S -lfmt -o "$o/demo" 2> "$o/err" || { tail -5 "$o/err"; exit 3; }
cd "$o" && timeout 200 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
"""
try:
    r = os.path.join(work, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    for f, old, new in sp["EDITS"]:
        p = os.path.join(r, f)
        t = open(p, newline='').read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    open(os.path.join(dst, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(dst, "demo.cpp"), "w").write(sp["DEMO"].lstrip())
    open(os.path.join(dst, "demo.sh"), "w").write(SH % dict(SRC=sp.get("SRC", "block-kind.cpp"), FLAGS=sp.get("FLAGS", "")))
    shutil.copy(os.path.join(HERE, "tools/demo.hpp"), dst)
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    shutil.copytree(os.path.join(HERE, "harness/stubs/proxsuite-nlp"), os.path.join(dst, "proxsuite-nlp"))
    for d in sp.get("STUBS", ()):
        shutil.copytree(os.path.join(HERE, "harness/stubs", d), os.path.join(dst, d))
    json.dump(dict(property=sp["PROPERTY"], needs=sp["NEEDS"], what_it_breaks=sp["BREAKS"]),
              open(os.path.join(dst, "meta.json"), "w"), indent=1)
    a = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd="/repo")
    b = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=r)
    ok = a.returncode == 0 and b.returncode not in (0, 2, 3)
    print(ID, "clean", a.returncode, "patched", b.returncode, "GOOD" if ok else "**** BAD")
    # builds and passes the stable tests: the same edits in the copy's own build
    hdr = [f for f, _, _ in sp["EDITS"]]
    print("touches", sorted(set(hdr)))
finally:
    shutil.rmtree(work)
