import json,sys
P='/verif/properties.jsonl'; N='/verif/tools/notes.json'
ps=[json.loads(l) for l in open(P)]; n=json.load(open(N))
def add(id,title,st,over,qt,why,files,mech,obs,tech,note,state=()):
    global ps
    ps=[p for p in ps if p['id']!=id]
    ps.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":{"files":files,"state":list(state),"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}})
    n['checks'][id]={"technique":tech,"note":note}
S="source/c-precompiled/sph-sp/"
exec(open(sys.argv[1]).read())
ps.sort(key=lambda p:p['id'])
open(P,'w').write(''.join(json.dumps(p)+'\n' for p in ps)); json.dump(n,open(N,'w'),indent=1)
