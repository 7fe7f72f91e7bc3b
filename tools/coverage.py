#!/usr/bin/env python3
"""tools/coverage.py COVDIR [C01,C02,..]: the lines of the code that the scenarios of each property reach, and the ones that none reaches. used by tools/mutants.py"""
import subprocess, os, sys, json, glob
from concurrent.futures import ThreadPoolExecutor
COV = sys.argv[1]; os.makedirs(COV, exist_ok=True)
def one(p):
    w=COV + "/" + p
    env=dict(os.environ,VERIF_COVERAGE="1",VERIF_WORK=w)
    r=subprocess.run(["python3","/verif/check.py",p,"quick"],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    lines={}
    for g in glob.glob(w+"/build/*/drv.gcda"):
        d=os.path.dirname(g)
        o=subprocess.run(["gcov","-j","-t","drv.gcda"],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL).stdout
        for f in json.loads(o)["files"]:
            n=f["file"]
            if "/source/" not in n and "/inc/sph/" not in n: continue
            n=n.split("/source/")[-1] if "/source/" in n else "c/foreign/sph-sc-lib/sph-sp/"+n.split("/inc/sph/")[1]
            L=lines.setdefault(n,{})
            for l in f["lines"]: L[l["line_number"]]=L.get(l["line_number"],0)+l["count"]
    json.dump(lines,open(COV + "/%s.json" % p,"w"))
    subprocess.run(["rm","-rf",w])
    return p,r.returncode,r.stdout[-200:]
ps = sys.argv[2].split(",") if len(sys.argv) > 2 else ["C%02d" % i for i in range(1, 30)]
with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one,ps): print(x,flush=True)
cov={}
for g in glob.glob(COV + '/*.json'):
    for f,ls in json.load(open(g)).items():
        for l,n in ls.items(): cov.setdefault(f,{}); cov[f][int(l)]=cov[f].get(int(l),0)+n
for f in sorted(cov):
    src=open('/repo/source/'+f).read().split('\n'); u=[l for l in sorted(cov[f]) if not cov[f][l]]
    print('==',f,len(cov[f]),'uncovered',len(u))
    for l in u: print(l,src[l-1].strip()[:110])
