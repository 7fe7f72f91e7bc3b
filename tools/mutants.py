#!/usr/bin/env python3
"""tools/mutants.py COVDIR OUT [-n N] [-s SEED] [-j JOBS] [FILE:FROM-TO ..]: small changes of single lines of the code, each checked with the properties that execute the line.
COVDIR contains for each property the lines its scenarios reach (VERIF_COVERAGE=1). changes that no check notices are printed as SURVIVED and need to be looked at:
they are equivalent, outside of the properties, or show that a check is too weak. results are appended to OUT and not repeated"""
import sys, os, re, json, random, subprocess, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
a = argparse.ArgumentParser(); a.add_argument("cov"); a.add_argument("out"); a.add_argument("-n", type=int, default=100); a.add_argument("-s", type=int, default=1); a.add_argument("-j", type=int, default=3)
a.add_argument("--verif", default="/verif"); a.add_argument("--repo", default="/repo"); a.add_argument("files", nargs="*"); A = a.parse_intermixed_args()
SRC = A.repo + "/source/"; CACHE = "/tmp/mcache"; os.makedirs(CACHE, exist_ok=True)
OWN = {"path.c": "C16", "spline-path.c": "C16", "filter.c": "C12 C11 C13 C26", "file.c": "C17", "arrays.c": "C20 C21", "arrays-template.c": "C20", "statistics.c": "C23 C21", "random.c": "C22", "thread-pool.c": "C10 C09", "futures.c": "C10 C07",
       "queue.h": "C28 C10", "fft.c": "C25", "plot.c": "C29", "helper.c": "C28", "quicksort.h": "C20", "sequencer.c": "C01 C05 C06 C02 C03 C14 C15 C27 C08 C07", "main.c": "C27 C24 C18 C20", "memreg.h": "C28", "array3.h": "C28", "string.h": "C28", "float.c": "C28"}
cov = {}
for p in sorted(os.listdir(A.cov)):
    if not p.endswith(".json"): continue
    for f, ls in json.load(open(A.cov + "/" + p)).items():
        for l, n in ls.items():
            if n: cov.setdefault((f, int(l)), set()).add(p[:-5])
def strip(l): return re.sub(r'"(?:[^"\\]|\\.)*"|/\*.*?\*/|//.*', lambda m: " " * len(m.group()), l)
OPS = [(r"(?<![-<>=!+*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w)\]] )\+(?= )", ["-"]), (r"(?<=[\w)\]] )-(?= )", ["+"]), (r"(?<=[\w)\]] )\*(?= )", ["/"]), (r"(?<=[\w)\]] )/(?= )", ["*"]), (r"(?<=[\w)\]] )%(?= )", ["/"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["="]),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])[3-9](?![\w.])", ["2"]), (r"(?<![\w.])[01]\.0\b", ["0.5"]),
       (r"\bif \(", ["if (1 || ", "if (0 && "]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bi\b", ["(i + 1)"]), (r"\bin\b", ["out"]), (r"\b(sp_inline_min|sp_inline_max)\b", ["sp_inline_max", "sp_inline_min"])]
def mutants(f):
    text = open(SRC + f).read().split("\n"); out = []
    for i, l in enumerate(text):
        if not cov.get((f, i + 1)) or l.lstrip().startswith(("#", "*", "/*")): continue
        s = strip(l)
        for pat, subs in OPS:
            for m in re.finditer(pat, s):
                for x in subs:
                    if x != m.group(): out.append((f, i, l[:m.start()] + x + l[m.end():]))
        t = s.strip()
        if re.match(r"^[\w>.()\[\]* -]+ [-+*]?= .*;$", t) and not re.match(r"^\w+(\*| )+\w+ = ", t) or re.match(r"^(\([^()]*\)|\w+)\(.*\);$", t) or t in ("continue;", "break;") or (t.startswith("status_require") and t.endswith(";")): out.append((f, i, ";"))
    return out
lim = {}
for x in A.files: n, _, r = x.partition(":"); lim.setdefault(n, []).append(tuple(map(int, r.split("-"))) if r else (0, 10**9))
files = sorted({f for f, _ in cov}); ms = []
for f in files:
    b = os.path.basename(f)
    if lim and b not in lim: continue
    ms += [m for m in mutants(f) if not lim or any(u <= m[1] + 1 <= v for u, v in lim[b])]
done = set()
if os.path.exists(A.out): done = {tuple(json.loads(l)["m"]) for l in open(A.out)}
ms = [m for m in ms if m not in done]; random.Random(A.s).shuffle(ms); print("candidates", len(ms), "done", len(done), flush=True); ms = ms[:A.n]
def obj(d):
    # generated code without debug information, to recognise changes without effect
    inc = d + "/inc"; os.makedirs(inc, exist_ok=True)
    if not os.path.exists(inc + "/sph"): os.symlink(d + "/source/c/foreign/sph-sc-lib/sph-sp", inc + "/sph")
    r = subprocess.run(["gcc", "-std=c17", "-funsigned-char", "-w", "-O2", "-S", "-o", "-", "-x", "c", "-", "-I" + d + "/source/c/foreign", "-I" + d + "/source/c/foreign/sph-sc-lib", "-I" + d + "/source/c-precompiled", "-I/verif/harness"], input='#include "vd_sp.h"\n', env=dict(os.environ, CPATH=inc), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return (r.returncode, re.sub(r"(?m)^\s*\.(file|ident).*$", "", r.stdout))
BASE = None
def run(m):
    f, i, new = m; d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(A.repo + "/source", d + "/source", symlinks=True, ignore=shutil.ignore_patterns("*.sc"))
        t = open(SRC + f).read().split("\n"); old = t[i]; t[i] = new
        with open(d + "/source/" + f, "w") as o: o.write("\n".join(t))
        rc, o = obj(d)
        res = "NOCOMPILE" if rc else "EQUAL" if o == BASE[1] else None; by = ""
        if not res:
            ps = cov[(f, i + 1)]; own = [p for p in OWN.get(os.path.basename(f), "").split() if p in ps]
            order = own + sorted(ps - set(own) - {"C22"}) + (["C22"] if "C22" in ps - set(own) else []); res = "SURVIVED"; by = ",".join(order)
            for p in order:
                try: r = subprocess.run(["python3", A.verif + "/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_WORK=d + "/work", VERIF_SEED="1", VERIF_TIER="quick", VERIF_MODEL_CACHE=CACHE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired: res = "TIMEOUT"; by = p; break
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = "CAUGHT"; by = p; break
                if r.returncode: res = "ERROR"; by = p + " " + r.stdout[-500:]; break
        with open(A.out, "a") as o: o.write(json.dumps({"m": [f, i, new], "old": old, "res": res, "by": by}) + "\n")
        if res not in ("EQUAL", "NOCOMPILE", "CAUGHT"): print(res, "%s:%d" % (os.path.basename(f), i + 1), "\n  -", old.strip()[:200], "\n  +", new.strip()[:200], "\n   ", by[-400:], flush=True)
        return res
    finally: shutil.rmtree(d, ignore_errors=True)
d = tempfile.mkdtemp(prefix="mutbase", dir="/tmp"); shutil.copytree(A.repo + "/source", d + "/source", symlinks=True); BASE = obj(d); shutil.rmtree(d)
assert BASE[0] == 0
n = {}
with ThreadPoolExecutor(A.j) as ex:
    for r in ex.map(run, ms): n[r] = n.get(r, 0) + 1
print(n)
