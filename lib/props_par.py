import copy, random
import core, seqfam, mixfam, props_gen
from core import Check, TIER, SEED
from seqfam import LEAF, GROUP, PGROUP, MAP, ISO, DROP, AUTO, Scn
from props_seq import with_fail, q, THOROUGH


def model(c, trees, ws, fail, inline="TRUE", wait="TRUE"):
    for t in trees:
        for w in ws:
            c.model("ParAlg", cfg_text="SPECIFICATION Spec\nINVARIANTS Once FreedUnused NoQueuedFreed Contained Complete Reported AllFreed\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS W=%d\n TreeNo=%d\n MayFail=%s\n Inline=%s\n WaitAll=%s\n" % (w, t, fail, inline, wait))


def sched(r): return (r.choice((1, 1, 2, 3)), r.randrange(1, 1 << 30), r.choice((30, 60, 150)))


def par_scn(r, sch, fail=False, **k):
    k.setdefault("mapp", 0.12); k.setdefault("depth", 3)
    k.setdefault("cut_short", False)
    w = k.pop("workers", None) or r.choice((1, 1, 2, 2, 3, 4))
    while True:
        sc = seqfam.random_tree_scn(r, par=1, gkinds=(GROUP, PGROUP, PGROUP), workers=w, sched=sch, **k)
        if any(n[0] == PGROUP for n in sc.nodes) or 1 in [sc.ops[i + 3] for i in range(len(sc.ops) - 4) if sc.ops[i] == 10]: break
    return with_fail(r, sc) if fail else sc


def large_par(r, sch, fail=False):
    w = r.choice((1, 2, 3))
    par = lambda sc: any(n[0] == PGROUP for n in sc.nodes) or 1 in [sc.ops[i + 3] for i in range(len(sc.ops) - 4) if sc.ops[i] == 10]
    sc = seqfam.large_scn(r, par, par=1, gkinds=(GROUP, PGROUP, PGROUP), workers=w, sched=sch, mapp=0.12, depth=3, cut_short=False)
    return with_fail(r, sc) if fail else sc


def delays(exe, sc, r, n1, n2):
    """the scenario under the default schedule with one delayed thread at each scheduling point, and with two at sampled ones"""
    sc.sched = (4, 0, 0)
    ev = core.run_driver(exe, [sc.item()["in"]])[0]
    steps = ev[-1].get("steps", 60) if ev else 60
    steps = min(steps, 999)
    out = []
    for a in range(1, min(steps, n1) + 1):
        sc.sched = (4, a, 0); out.append(sc.item())
    for _ in range(n2):
        a = r.randrange(1, steps + 1); b = r.randrange(1, steps + 1); c3 = r.randrange(1, steps + 1) if r.random() < 0.4 else 0
        sc.sched = (4, a + 1000 * b + 1000000 * c3, 0); out.append(sc.item())
    return out


def shape(k, w, par, fail=None):
    """fixed compositions for systematic schedules"""
    sc = Scn(1, 1); sc.init(w)
    if k == 0:
        for s in (0, 1, 2): n = sc.node(LEAF); sc.add(-1, n, s, s + 3)
    elif k == 1:
        g = sc.node(PGROUP); h = sc.node(PGROUP)
        for s in (0, 1): sc.add(h, sc.node(LEAF), s, s + 2)
        sc.add(g, h, 0, -1); sc.add(g, sc.node(LEAF), 1, 4); sc.add(-1, g, 0, -1)
    elif k == 2:
        p = None; chain = []
        l = sc.node(LEAF); cur = l
        for d in range(3):
            g = sc.node(PGROUP)
            sc.add(g, cur, 0, 3 if d == 0 else -1); cur = g
        sc.add(-1, cur, 0, -1)
    elif k == 3:
        gs = []
        for j in (0, 1):
            g = sc.node(PGROUP)
            for s in (0, 1): sc.add(g, sc.node(LEAF), s, s + 2)
            sc.add(-1, g, j, -1)
    sc.sort()
    sc.blk(0, 3, par, 1); sc.blk(3, 6, par); sc.blk(6, 7, par)
    sc.free_list(); sc.deinit()
    if fail is not None:
        n, what, nth = fail
        n = n % len(sc.nodes); a = sc.nodes[n]
        sc.nodes[n] = a[:2] + (1 if a[0] == PGROUP else what, nth) + a[4:]
    return sc


EQ = {"window", "output", "map", "race", "crash", "status", "life", "malformed", "rel", "leak"}


def order_scn(r, sch, par, fail=0):
    """events whose floating point sums depend on the order of the additions"""
    a = r.randrange(0, 5); evs = []
    for _ in range(r.randrange(1, 9)):
        big = r.random() < 0.5
        evs.append(dict(s=a + r.choice((0, 0, 0, 1, 2, 4)), d=r.randrange(1, 7), h=r.choice((-1, 1)) if big else 0, l=0 if big else r.randrange(-9, 10), f=len(evs) + 1 if r.random() < fail else 0))
    sizes = [r.randrange(1, 6) for _ in range(r.randrange(1, 4))]
    return {"in": [*sch, r.choice((1, 2, 3)) if par else 0, int(par), a, len(evs)] + [x for e in evs for x in (e["s"], e["d"], e["h"], e["l"], e["f"])] + [len(sizes)] + sizes,
            "head": {"first": a, "evs": evs, "sizes": sizes}}


def order_control(tr):
    r = random.Random(SEED); out = []
    for t in r.sample(tr, min(len(tr), 16)):
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1]); e["r"] = r.choice([x for x in range(9) if x != e["r"]]); out.append(t)
    return out


def C07():
    c = Check("C07"); r = random.Random(SEED + 7)
    model(c, q((1, 2, 3, 4, 5), range(1, 8)), q((1, 2), (1, 2, 3)), "FALSE")
    ex = {san: core.build("seq_drv.c", san=san, sched=True) for san in ("thread", "address")}
    for san, n in (("thread", q(1500, 20000)), ("address", q(1000, 15000))):
        items = [par_scn(r, sched(r)).item() for _ in range(n)]
        c.scenarios("TraceSeq", ex[san], items, EQ, seqfam.corrupt(SEED), name="random compositions and schedules, %s sanitizer" % san)
    c.scenarios("TraceSeq", ex["address"], [large_par(r, sched(r)).item() for _ in range(q(300, 3000))], EQ, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    items = []
    for k, w, par in ((0, 2, 1), (1, 2, 0), (3, 2, 1)) if not THOROUGH else [(k, w, par) for k in range(4) for w in (1, 2, 3) for par in (0, 1)]:
        items += delays(ex["thread"], shape(k, w, par), r, q(150, 999), q(60, 600))
    c.scenarios("TraceSeq", ex["thread"], items, EQ, seqfam.corrupt(SEED + 1), name="delay bounded schedules, thread sanitizer")
    # the event types of the library themselves
    mixfam.model(c); late = False
    for san, n in (("thread", q(500, 6000)), ("address", q(700, 8000))):
        mx = core.build("mix_drv.c", san=san, sched=True)
        c.scenarios("TraceMix", mx, [mixfam.mix_scn(r, sched(r), r.choice((1, 2, 2, 3, 4)), 1, True) for _ in range(n)], None, mixfam.control(SEED), name="waves and noises, %s sanitizer" % san)
        c.scenarios("TraceMix", mx, [mixfam.late_scn(r, sched(r), 0, 0) for _ in range(q(100, 500))], None, mixfam.control(SEED), name="noises prepared in a sequence")
        tr, res = c.scenarios("TraceMix", mx, [mixfam.late_scn(r, sched(r), r.choice((2, 3)), 1) for _ in range(q(200, 2000))], mixfam.RULES, None, name="noises prepared in parallel, %s sanitizer" % san)
        late = late or any(v is not None and v[1] == "known" for v in res.values())
    if late: c.known_finding("sp_noise_event_prepare takes the seed from sp_random_state, which all threads share, without synchronisation: noise events that are prepared by different workers race, and which event gets which seed depends on the schedule")
    # the order in which events are added up
    cfg = "SPECIFICATION Spec\nINVARIANT Same\nPROPERTY End\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n MERGE=\"%s\"\n FAIL=FALSE\n"
    c.model("MC_Order", cfg_text=cfg % (q(3, 4), "list"))
    c.must_fail("MC_Order", [cfg % (3, m) for m in ("reverse", "completion")])
    ox = core.build("order_drv.c", san="address", sched=True)
    c.scenarios("TraceOrder", ox, [order_scn(r, sched(r), k % 3 > 0) for k in range(q(900, 9000))], None, props_gen.corrupt({"blk": "l"}, 50, SEED), name="order of additions")
    # the scheduler lets one thread run at a time; a part also runs with free threads
    items = [par_scn(r, (0, 0, 0)).item() for _ in range(q(150, 2000))]
    c.scenarios("TraceSeq", ex["thread"], items, EQ - {"threads"}, None, name="free running threads, thread sanitizer")
    return c.finish()


def C08():
    c = Check("C08"); r = random.Random(SEED + 8)
    model(c, q((1, 2, 3, 4), range(1, 8)), q((1, 2), (1, 2, 3)), "TRUE")
    ex = {san: core.build("seq_drv.c", san=san, sched=True) for san in ("thread", "address")}
    for san, n in (("address", q(1800, 20000)), ("thread", q(900, 15000))):
        items = [par_scn(r, sched(r), True).item() for _ in range(n)]
        c.scenarios("TraceSeq", ex[san], items, None, seqfam.corrupt(SEED), name="one failing callback, random schedules, %s sanitizer" % san)
    c.scenarios("TraceSeq", ex["address"], [large_par(r, sched(r), True).item() for _ in range(q(300, 3000))], None, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    items = [with_fail(r, par_scn(r, sched(r), True)).item() for _ in range(q(700, 8000))]
    c.scenarios("TraceSeq", ex["address"], items, None, seqfam.corrupt(SEED + 5), name="two failing callbacks, random schedules")
    cfg = "SPECIFICATION Spec\nINVARIANT Reported\nPROPERTY End\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n MERGE=\"%s\"\n FAIL=TRUE\n"
    c.model("MC_Order", cfg_text=cfg % (q(3, 4), "list"))
    c.must_fail("MC_Order", [cfg % (3, m) for m in ("reverse", "completion")])
    ox = core.build("order_drv.c", san="address", sched=True)
    c.scenarios("TraceOrder", ox, [order_scn(r, sched(r), k % 4 > 0, r.choice((0.1, 0.4, 0.9))) for k in range(q(900, 9000))], None, order_control, name="which failure is reported")
    items = []
    cases = [(k, w, par, (n, what, nth)) for k in range(4) for w in (1, 2, 3) for par in (0, 1) for n in range(6) for what, nth in ((1, 1), (2, 1), (2, 2))]
    for k, w, par, f in cases if THOROUGH else r.sample(cases, 12):
        items += delays(ex["address"], shape(k, w, par, f), r, q(100, 300), q(30, 100))
    c.scenarios("TraceSeq", ex["address"], items, None, seqfam.corrupt(SEED + 1), name="one failing callback, delay bounded schedules")
    return c.finish()


def cycle_scn(r, sch):
    """initialisations, failing initialisations, rendering and shutdowns in a row"""
    sc = Scn(1, 1, sch); up = False
    t = 0
    for _ in range(r.randrange(1, 5)):
        w = r.choice((0, 1, 2, 3, 4, 8))
        if r.random() < 0.45:
            sc.init(w, r.randrange(1, w + 1) if w and r.random() < 0.5 else -r.choice((1, 2, 3)))
            if r.random() < 0.5: sc.deinit()
            continue
        sc.init(w)
        if w and r.random() < 0.7 and sc.dig <= 4:
            g = sc.node(PGROUP)
            for s in range(2): sc.add(g, sc.node(LEAF), s, s + 2)
            sc.add(-1, g, 0, -1); sc.sort(); sc.blk(0, 2, r.randrange(2)); sc.blk(2, 4, 1); sc.free_list()
        sc.deinit()
        if r.random() < 0.4: sc.deinit()
    return sc


def C09():
    c = Check("C09"); r = random.Random(SEED + 9)
    model(c, range(1, 8), q((1, 2), (1, 2, 3)), "TRUE")
    exe = core.build("seq_drv.c", san="address", sched=True)
    tags = {"stuck", "threads", "crash", "status", "leak", "malformed"}
    items = [par_scn(r, sched(r), r.random() < 0.3, depth=5, workers=r.choice((1, 1, 1, 2, 2, 3, 4, 8)), nb=6).item() for _ in range(q(2500, 30000))]
    c.scenarios("TraceSeq", exe, items, tags, seqfam.corrupt(SEED), name="nested parallel groups, random schedules")
    c.scenarios("TraceSeq", exe, [large_par(r, sched(r), r.random() < 0.3).item() for _ in range(q(300, 3000))], tags, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    items = [cycle_scn(r, sched(r)).item() for _ in range(q(800, 10000))]
    c.scenarios("TraceSeq", exe, items, tags, seqfam.corrupt(SEED), name="repeated and failing initialisation and shutdown")
    items = []
    for k, w, par in ((2, 1, 0), (1, 1, 1), (2, 2, 1)) if not THOROUGH else [(k, w, par) for k in range(4) for w in (1, 2, 3) for par in (0, 1)]:
        items += delays(exe, shape(k, w, par), r, q(150, 999), q(60, 600))
    c.scenarios("TraceSeq", exe, items, tags, seqfam.corrupt(SEED + 1), name="delay bounded schedules")
    return c.finish()


PROPS = {"C07": C07, "C08": C08, "C09": C09}
