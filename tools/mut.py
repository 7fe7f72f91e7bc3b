#!/usr/bin/env python3
"""tools/mut.py PROP FILE 's/old/new/' ..: run a check against a scratch copy of the repository with one change at a time.
each change is 'old=>new' and old has to be unique in FILE (relative to /repo/source)"""
import sys, os, subprocess, shutil, tempfile
prop, f = sys.argv[1:3]
for m in sys.argv[3:]:
    old, new = m.split("=>", 1)
    d = tempfile.mkdtemp(dir="/tmp"); shutil.copytree("/repo/source", d + "/source", symlinks=True)
    p = d + "/source/" + f; s = open(p).read()
    if s.count(old) != 1: print("COUNT", s.count(old), m); shutil.rmtree(d); continue
    open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["python3", "/verif/check.py", prop, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_WORK=d + "/work"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if "violation:" in l or "rror" in l]
    print(r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", m[:90], "|", v[0][:160] if v else r.stdout[-200:] if r.returncode > 1 else "", flush=True)
    shutil.rmtree(d)
