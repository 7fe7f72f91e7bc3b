import random, copy, json
import core
from core import Check, TIER, SEED
from props_seq import q, THOROUGH


def corrupt(seed):
    def f(tr):
        r = random.Random(seed); out = []; kinds = {}
        for _ in range(3000):
            if len(out) >= 16 or not tr: break
            t = copy.deepcopy(r.choice(tr)); ev = t["ev"]
            if not ev or ev[-1].get("e") != "end": continue
            k = r.randrange(len(ev)); e = ev[k]; kind = e["e"]
            if kind == "start":
                if r.random() < 0.5: ev.insert(k, dict(e))
                else:
                    # the task never runs
                    t["ev"] = [x for x in ev if not (x.get("i") == e["i"] and x["e"] in ("start", "fin"))]
                    if any(x["e"] == "finb" and x["discard"] for x in ev): continue
                    # nobody enqueued it late
                    b = [j for j, x in enumerate(ev) if x["e"] == "enqe" and x["i"] == e["i"]]
                    f_ = [j for j, x in enumerate(ev) if x["e"] == "finb"]
                    if not b or b[0] > f_[0]: continue
            elif kind == "newx": e["r"] = 0
            elif kind == "touche": e["v"] += 1
            elif kind == "fin": del ev[k]
            elif kind == "fine": e["threads"] = 1
            elif kind == "crowd":
                f = r.choice(("r", "during", "ran", "right", "threads", "live")); e[f] += 1
                if e["w"] > 128 and f in ("ran", "right"): continue
            elif kind == "end" and t["leakfree"]: e["live"] = 2
            else: continue
            if kinds.get(kind, 0) >= 5: continue
            kinds[kind] = kinds.get(kind, 0) + 1; out.append(t)
        return out
    return f


def scn(r, sch, big=False):
    mode = r.randrange(2); w = r.choice((1, 1, 2, 3, 4))
    nt = r.randrange(1, 13 if big else 8)
    scripts = {0: []}; parent = {}
    fut = set()
    order = []
    for i in range(1, nt + 1):
        p = 0 if i == 1 or r.random() < 0.6 else r.randrange(1, i)
        parent[i] = p; scripts[i] = []
        f = mode == 1 and r.random() < 0.7
        if f: fut.add(i)
    # a script enqueues its tasks, then touches its futures; unfinished futures of tasks are touched by their owner
    for p in range(0, nt + 1):
        kids = [i for i in parent if parent[i] == p]
        ops = []
        for k in kids: ops.append((2 if k in fut else 1, k))
        pend = [k for k in kids if k in fut]
        r.shuffle(pend)
        # mix: some touches come before later enqueues
        seq = []
        avail = []
        todo = list(ops)
        while todo or pend:
            if todo and (not avail or r.random() < 0.65):
                o = todo.pop(0); seq.append(o); avail.append(o[1])
            else:
                c = [k for k in pend if k in avail]
                if c: k = c[0]; pend.remove(k); seq.append((3, k)); avail = [a for a in avail if a != k] or [0]
                elif todo: o = todo.pop(0); seq.append(o); avail.append(o[1])
            if r.random() < 0.25: seq.append((4, 0))
        scripts[p] = seq
    nowait = 1 if mode == 0 and r.random() < 0.2 else 0
    discard = 1 if mode == 0 and r.random() < 0.2 else 0
    ins = list(sch) + [mode, w, nowait, discard, r.randrange(1, w + 1) if r.random() < 0.15 else 0]
    for t, seq in scripts.items():
        ins += [t, len(seq)]
        for a, b in seq: ins += [a, b]
    # tasks enqueued by tasks can be left in the queue by a finish
    nested = any(p != 0 for p in parent.values())
    leakfree = 1 if not nowait and not discard and not nested else 0
    return {"in": ins, "head": {"w": w, "leakfree": leakfree}}


def C10():
    c = Check("C10"); r = random.Random(SEED + 10)
    for w, n, ch, dis in q(((1, 3, 1, "FALSE"), (2, 2, 1, "FALSE"), (2, 2, 0, "TRUE")), ((1, 4, 2, "FALSE"), (2, 3, 2, "FALSE"), (3, 2, 1, "FALSE"), (2, 3, 1, "TRUE"))):
        c.model("MC_Pool", cfg_text="SPECIFICATION Spec\nINVARIANTS Once Fifo Executed\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS W=%d\n N=%d\n Children=%d\n Signal=TRUE\n Discard=%s\n" % (w, n, ch, dis))
    for san, n in (("thread", q(1200, 15000)), ("address", q(800, 10000))):
        exe = core.build("pool_drv.c", san=san, sched=True)
        items = []
        for _ in range(n): items.append(scn(r, (r.choice((1, 1, 2, 3)), r.randrange(1, 1 << 30), r.choice((20, 50, 100)))))
        for _ in range(n // 6): items.append(scn(r, (4, r.randrange(0, 60) + 1000 * r.randrange(0, 60), 0)))
        many = []
        for _ in range(q(10, 100)):
            ins = [9]
            for _ in range(4):
                mode = r.randrange(3); w = r.choice((1, 2, 3, 8, 64, 127, 128, 128, 129, 200, 255)); n = r.choice((1, 100, 255, 256, 257, 1500, 20000, 65535, 65536, 70000)); rev = r.randrange(2) if n < 2000 else 0
                if san == "thread": n = min(n, 5000); w = w if w < 64 or r.random() < 0.5 else 5
                ins += [mode, w, n, rev]
            many.append({"in": ins, "head": {"w": 1, "leakfree": 0}})
        c.scenarios("TracePool", exe, many, None, corrupt(SEED), name="many threads and tasks, %s sanitizer" % san, nondet=True)
        c.scenarios("TracePool", exe, items, None, corrupt(SEED), name="scripts and schedules, %s sanitizer" % san, nondet=True)
    return c.finish()


PROPS = {"C10": C10}
