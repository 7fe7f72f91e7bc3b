import random, re
import core, seqfam
from core import Check, TIER, SEED
from seqfam import LEAF, GROUP, PGROUP, MAP, ISO, DROP, AUTO

THOROUGH = TIER == "thorough"
SCN = re.compile(r'"<<\\"SCN\\", <<([-0-9, \n]*)>>, (<<<<.*?>>>>)>>"', re.S)


def q(a, b): return b if THOROUGH else a


def mc_seq(c, shapes, smax, dmax, maxblock, fails, show=True):
    """exhaustive model; returns its histories as scenarios"""
    text = "SPECIFICATION Spec\nINVARIANTS Correct Ends Printed\nCHECK_DEADLOCK FALSE\nCONSTANTS SMax = %d\n DMax = %d\n Shapes = {%s}\n MaxBlock = %d\n Fails = %s\n Show = %s\n" % (
        smax, dmax, ", ".join(map(str, shapes)), maxblock, str(fails).upper(), str(show).upper())
    r = c.model("MC_Seq", cfg_text=text)
    items = []
    for a, b in SCN.findall(r.text):
        ins = [int(x) for x in a.replace("\n", " ").split(",")]
        nodes = [tuple(int(y) for y in x) for x in re.findall(r"<<(\d+), (\d+), (\d+)>>", b)]
        # failing status and end settings are in the integers
        items.append({"in": ins, "head": {"par": 0, "cc": 1, "nodes": [{"kind": k, "zdur": z, "fw": 0, "dig": d} for k, d, z in nodes]}})
    return items


def pick(r, items, n):
    items.sort(key=lambda x: x["in"])
    if len(items) > n: items = r.sample(items, n)
    return items


def with_fail(r, sc):
    """let one callback fail"""
    n = r.randrange(len(sc.nodes)); k, z, fw, fn, preg, d = sc.nodes[n]
    what = 1 if k in (GROUP, PGROUP) or r.random() < 0.35 else 2
    sc.nodes[n] = (k, z, what, r.choice((1, 1, 2, 3)), preg, d)
    return sc


RENDER = {"window", "output", "status", "crash", "stuck", "malformed", "map"}
LIFE = {"life", "rel", "leak", "crash", "stuck", "malformed", "fail"}


def C01():
    c = Check("C01"); r = random.Random(SEED); exe = core.build("seq_drv.c")
    hist = mc_seq(c, [1, 9] if THOROUGH else [1], 2, q(2, 3), q(4, 5), False) + mc_seq(c, [10, 11], 1, q(2, 3), q(3, 4), False)
    items = pick(r, hist, q(1500, 30000))
    c.scenarios("TraceSeq", exe, items, RENDER, seqfam.corrupt(SEED), name="histories of MC_Seq")
    items = [s.item() for s in seqfam.flat_exhaustive(2, q(2, 3), q(2, 3), None, r)] + [s.item() for s in seqfam.flat_exhaustive(3, 4, 5, q(1200, 15000), r, 2)]
    c.scenarios("TraceSeq", exe, items, RENDER, seqfam.corrupt(SEED + 1), name="event lists and partitions")
    items = [seqfam.random_tree_scn(r).item() for _ in range(q(2500, 40000))]
    c.scenarios("TraceSeq", exe, items, RENDER, seqfam.corrupt(SEED + 2), name="random compositions")
    items = [seqfam.direct_scn(r).item() for _ in range(q(800, 10000))]
    c.scenarios("TraceSeq", exe, items, RENDER, seqfam.corrupt(SEED + 3), name="events without a list")
    c.scenarios("TraceSeq", exe, [seqfam.large_scn(r).item() for _ in range(q(700, 8000))], RENDER, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    return c.finish()


def C02():
    c = Check("C02"); r = random.Random(SEED + 2); exe = core.build("seq_drv.c")
    hist = mc_seq(c, [1, 2, 4], 1, 2, 3, False)
    c.scenarios("TraceSeq", exe, pick(r, hist, q(1500, 30000)), LIFE, seqfam.corrupt(SEED), name="histories of MC_Seq")
    items = [seqfam.random_tree_scn(r, kinds=(LEAF, LEAF, AUTO)).item() for _ in range(q(2500, 40000))]
    items += [seqfam.random_tree_scn(r, depth=0, top=6, cut_short=True, kinds=(LEAF, AUTO)).item() for _ in range(q(1500, 20000))]
    items += [with_fail(r, seqfam.random_tree_scn(r)).item() for _ in range(q(500, 5000))]
    items += [seqfam.direct_scn(r).item() for _ in range(q(500, 5000))] + [with_fail(r, seqfam.direct_scn(r)).item() for _ in range(q(500, 5000))]
    c.scenarios("TraceSeq", exe, items, LIFE, seqfam.corrupt(SEED + 2), name="random compositions")
    c.scenarios("TraceSeq", exe, [seqfam.large_scn(r).item() for _ in range(q(700, 8000))], LIFE, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    import props_par as pp
    px = core.build("seq_drv.c", san="address", sched=True)
    c.scenarios("TraceSeq", px, [pp.par_scn(r, pp.sched(r), r.random() < 0.15).item() for _ in range(q(1200, 12000))], LIFE, seqfam.corrupt(SEED + 5), name="parallel rendering")
    return c.finish()


def C03():
    c = Check("C03"); r = random.Random(SEED + 3); exe = core.build("seq_drv.c")
    hist = mc_seq(c, [1, 2, 3, 4, 5, 7] if not THOROUGH else list(range(1, 9)), 1, 2, q(2, 3), True)
    hist = [h for h in hist if any(h["in"][5 + 8 * k + 4] for k in range(len(h["head"]["nodes"])))]
    c.scenarios("TraceSeq", exe, pick(r, hist, q(2500, 40000)), None, seqfam.corrupt(SEED), name="failing histories of MC_Seq")
    items = []
    for _ in range(q(900, 10000)):
        sc = seqfam.random_tree_scn(r, cut_short=False)
        base = list(sc.nodes)
        # each callback of the composition in turn
        for n in range(len(base)):
            k, z, fw, fn, preg, d = base[n]
            for what, nth in ((1, 1), (2, 1), (2, 2)):
                if what == 2 and k in (GROUP, PGROUP): continue
                if r.random() < 0.5: continue
                sc.nodes = list(base); sc.nodes[n] = (k, z, what, nth, preg, d); items.append(sc.item())
    c.scenarios("TraceSeq", exe, items[:q(6000, 80000)], None, seqfam.corrupt(SEED + 2), name="each callback failing")
    c.scenarios("TraceSeq", exe, [with_fail(r, seqfam.large_scn(r)).item() for _ in range(q(700, 8000))], None, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    return c.finish()


def C04():
    c = Check("C04"); r = random.Random(SEED + 4); exe = core.build("seq_drv.c")
    hist = mc_seq(c, [2, 3, 7], 1, 2, q(3, 4), False)
    c.scenarios("TraceSeq", exe, pick(r, hist, q(2000, 40000)), None, seqfam.corrupt(SEED), name="histories of MC_Seq")
    items = []
    while len(items) < q(4000, 60000):
        sc = seqfam.random_tree_scn(r, depth=4, top=2, zdur=0.35, mapp=0.08)
        if r.random() < 0.25: seqfam.with_regs(r, sc)
        if any(n[0] == GROUP for n in sc.nodes): items.append(sc.item())
    for _ in range(q(500, 5000)): items.append(seqfam.with_regs(r, with_fail(r, seqfam.random_tree_scn(r, depth=4, top=2, zdur=0.35, mapp=0.08)), r.choice((0, 0.6))).item())
    n = 0
    while n < q(400, 4000):
        sc = seqfam.with_regs(r, seqfam.direct_scn(r, mapp=0.1))
        if any(x[0] == GROUP for x in sc.nodes): items.append(sc.item()); n += 1
    c.scenarios("TraceSeq", exe, items, None, seqfam.corrupt(SEED + 2), name="random groups")
    grp = lambda sc: any(x[0] == GROUP for x in sc.nodes)
    c.scenarios("TraceSeq", exe, [seqfam.large_scn(r, grp).item() for _ in range(q(700, 8000))], None, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    import mixfam
    mixfam.model(c)
    c.scenarios("TraceMix", core.build("mix_drv.c"), [mixfam.mix_scn(r) for _ in range(q(1200, 12000))], None, mixfam.control(SEED), name="waves and noises in compositions")
    return c.finish()


def C05():
    c = Check("C05"); r = random.Random(SEED + 5); exe = core.build("seq_drv.c")
    hist = mc_seq(c, [4, 5, 6, 8], 1, 2, q(3, 4), False)
    c.scenarios("TraceSeq", exe, pick(r, hist, q(2000, 40000)), None, seqfam.corrupt(SEED), name="histories of MC_Seq")
    items = []
    while len(items) < q(4000, 50000):
        sc = seqfam.random_tree_scn(r, depth=2, mapp=0.6)
        if r.random() < 0.25: seqfam.with_regs(r, sc)
        if any(n[0] in (MAP, ISO, DROP) for n in sc.nodes): items.append(sc.item())
    n = 0
    while n < q(800, 5000):
        sc = seqfam.random_tree_scn(r, depth=2, mapp=0.6)
        m = [k for k, x in enumerate(sc.nodes) if x[0] in (MAP, ISO, DROP)]
        if not m: continue
        k = r.choice(m + [r.randrange(len(sc.nodes))]); a = sc.nodes[k]
        sc.nodes[k] = a[:2] + (1 if a[0] in (GROUP, PGROUP) else r.choice((1, 2, 2)), r.choice((1, 2))) + a[4:]
        items.append(sc.item()); n += 1
    n = 0
    while n < q(600, 6000):
        sc = seqfam.direct_scn(r, mapp=0.6)
        if r.random() < 0.3: seqfam.with_regs(r, sc)
        if any(x[0] in (MAP, ISO, DROP) for x in sc.nodes): items.append(sc.item()); n += 1
    c.scenarios("TraceSeq", exe, items, None, seqfam.corrupt(SEED + 2), name="random maps")
    mp = lambda sc: any(x[0] in (MAP, ISO, DROP) for x in sc.nodes)
    c.scenarios("TraceSeq", exe, [seqfam.large_scn(r, mp, depth=2, mapp=0.6).item() for _ in range(q(700, 8000))], None, seqfam.corrupt(SEED + 4), name="large positions, many events, nested")
    import mixfam
    mixfam.model(c)
    c.scenarios("TraceMix", core.build("mix_drv.c"), [mixfam.mix_scn(r, maps=0.6) for _ in range(q(1200, 12000))], None, mixfam.control(SEED), name="waves and noises in compositions")
    return c.finish()


def C06():
    c = Check("C06"); r = random.Random(SEED + 6); exe = core.build("seq_drv.c")
    items = [seqfam.memory_scn(r).item() for _ in range(q(3000, 40000))] + [seqfam.memory_event_scn(r).item() for _ in range(q(3000, 40000))]
    c.scenarios("TraceSeq", exe, items, None, seqfam.corrupt(SEED), name="memory registers")
    c.scenarios("TraceSeq", exe, [seqfam.large_memory_scn(r).item() for _ in range(q(60, 500))], None, seqfam.corrupt(SEED), name="many registrations")
    return c.finish()


PROPS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06}
