#!/usr/bin/env python3
"""planted bugs.
tools/seed.py new SPEC.py [id ..]  - SPEC.py defines B = [dict(id, prop, file, edits=[(old, new), ..], demo, needs, breaks, flags=""), ..]
                                     writes seeded/<id>/ and checks it in a scratch copy: applies, builds, stable tests pass, the demo
                                     passes without and fails with the patch, changed lines are from the original repository
tools/seed.py run [id ..]          - runs the checks of planted bugs against scratch copies of the repository"""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
ORIG = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
DEMO = """#!/bin/sh
# exit 0: behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/inc"
ln -s "$PWD/source/c/foreign/sph-sc-lib/sph-sp" "$t/inc/sph"
gcc -std=c17 -funsigned-char -w -O1 %s -I"$t/inc" -Isource/c/foreign -Isource/c/foreign/sph-sc-lib -Isource/c-precompiled "$here/demo.c" -o "$t/demo" -lm -lpthread || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=%d timeout 60 ./demo
"""
HEAD = """#include "sph-sp/main.c"
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s (line %d)\\n", #x, __LINE__); _exit(1); } } while (0)
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(b):
    d = S + "/" + b["id"]; os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp(dir="/tmp"); r = t + "/repo"
    try:
        sh("git clone -q /repo " + r)
        for e in b["edits"]:
            f, old, n = e if len(e) == 3 else (b["file"],) + tuple(e); p = r + "/source/" + f; s = open(p).read()
            if s.count(old) != 1: return b["id"], "COUNT %d %s" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, n))
        diff = sh("git -C %s diff" % r).stdout; open(d + "/patch.diff", "w").write(diff)
        orig = {}
        for f in set(x[6:] for x in diff.splitlines() if x.startswith("--- a/")): orig[f] = set(l.strip() for l in sh("git -C /repo show %s:%s" % (ORIG, f)).stdout.splitlines())
        olines = set().union(*orig.values()); minus = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        warn = [l for l in minus if l not in olines]
        san = b.get("san", ""); open(d + "/demo.sh", "w").write(DEMO % (san, 1 if "leak" in b.get("tags", "") else 0)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.c", "w").write(b.get("pre", "") + HEAD + b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        x = sh("cd /repo && sh %s/demo.sh" % d); y = sh("cd %s && sh %s/demo.sh" % (r, d))
        # a private /repo for the build and the tests
        z = sh("unshare -Urm sh -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json'" % (r, t))
        try:
            o = json.load(open(t + "/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; passed = set(o.get("passed", []) if isinstance(o, dict) else o); miss = [k for k in base if k not in passed]
        except Exception as ex: miss = [str(ex), z.stdout[-300:]]
        ok = x.returncode == 0 and y.returncode not in (0, 2) and not miss
        return b["id"], "%s demo %d/%d tests missing %s%s%s" % ("OK" if ok else "BAD", x.returncode, y.returncode, miss, " FIXLINES " + str(warn) if warn else "", "" if ok else "\n" + x.stdout[-600:] + y.stdout[-600:])
    finally: shutil.rmtree(t)
def run(i):
    m = json.load(open(S + "/%s/meta.json" % i)); t = tempfile.mkdtemp(dir="/tmp")
    try:
        shutil.copytree("/repo/source", t + "/source", symlinks=True)
        a = sh("cd %s && git apply --unsafe-paths --directory=. %s/%s/patch.diff || patch -p1 < %s/%s/patch.diff" % (t, S, i, S, i))
        r = sh("timeout 890 python3 %s/check.py %s quick" % (V, m["property"]), env=dict(os.environ, VERIF_REPO=t, VERIF_WORK=t + "/work", VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if "violation:" in l]
        return i, m["property"], {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "ERROR %d" % r.returncode), (v[0][:170] if v else "" if r.returncode < 2 else r.stdout[-300:])
    finally: shutil.rmtree(t)
if sys.argv[1] == "new":
    g = {}; exec(open(sys.argv[2]).read(), g); want = sys.argv[3:]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, o in ex.map(new, [b for b in g["B"] if not want or b["id"] in want]): print(i, o, flush=True)
else:
    ids = sys.argv[2:] or sorted(os.listdir(S))
    with cf.ThreadPoolExecutor(2) as ex:
        for x in ex.map(run, ids): print(*x, flush=True)
