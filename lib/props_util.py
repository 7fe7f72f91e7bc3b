"""C24 oscillators and conversions"""
import itertools, random, shutil
import core, props_file
from core import Check
from props_gen import corrupt, q, SEED


def items(calls, k, r=None):
    calls = list(calls)
    if r: r.shuffle(calls)
    return [{"in": sum(calls[j:j + k], []), "head": {}} for j in range(0, len(calls), k)]


def big(v): return [v >> 16, v & 65535]


def osc_all():
    """small arguments, completely"""
    for a in range(0, 6):
        for b in range(0, 6):
            if a + b:
                for t in range(0, 2 * (a + b) + 1): yield [1] + big(t) + [a, b]
    for s in range(1, 10):
        for t in range(0, 2 * s + 2): yield [2] + big(t) + [s]
    for c in range(1, 6):
        for x in range(c):
            for d in range(0, 2 * c + 2): yield [3, x, d, c]
    for c in range(1, 4):
        for x in range(c):
            for d in range(0, 64 * (c + 1), 16): yield [4, x, d, c]; yield [4, x, d + 1, c]
    for c in range(0, 6):
        for v in range(-16, 64 * 7, 8): yield [5, v, c]
    for n in range(1, 40): yield [6, n]
    for x in range(-48, 49): yield [7, x]
    for w in range(2, 40): yield [8, w]
    for x in range(0, 321): yield [10, x]
    for x in range(0, 7):
        for y in range(0, 7): yield [11, x, y, (x + y) % 9]
    for x in range(0, 40):
        for b in range(1, 12):
            for k in (0, 1, 4, 7, 8): yield [14, x, b, k]
    for g in (0, 1, 2):
        for i in range(-2, 130): yield [15, g, i]
    yield [12]
    for n in (1, 2, 3, 8, 96, 100, 441): yield [13, n]


def sines_one(r):
    w = r.randrange(2); rate = r.choice((1, 2, 3, 8, 10, 96)); cycle = rate * (100 if w else 1); n = r.choice((1, 2, 5, 12, 30))
    fs = lambda: r.choice((0, 1, cycle // 7, cycle // 2, cycle - 1, cycle, cycle + 1, 3 * cycle + 2, r.randrange(cycle)))
    am = [r.randrange(-2, 5) for _ in range(n)] if r.random() < 0.5 else []
    fm = [fs() for _ in range(n)] if r.random() < 0.5 else []
    return [16, w, rate, n, r.randrange(-3, 4), r.choice((0, 1, 2, 3, -1, -2)), fs(), r.choice((0, 0, 1, 1 + r.randrange(cycle))), int(bool(am))] + am + [int(bool(fm))] + fm


def osc_one(r):
    k = r.choice((1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10, 11, 12)); t = r.choice((r.randrange(100), r.randrange(1 << 16), r.randrange(1 << 32), (1 << 32) - 1 - r.randrange(9), (1 << 31) + r.randrange(-9, 9)))
    if k == 1: a = r.randrange(0, 800); b = r.randrange(0, 800) or 1; return [1] + big(t) + [a, b]
    if k == 2: return [2] + big(t) + [r.randrange(1, 16000)]
    if k == 3: c = r.choice((2, 9, 1000, 1000000)); return [3, r.randrange(c), r.choice((0, 1, c - 1, c, c + 1, r.randrange(3 * c))), c]
    if k == 4: c = r.choice((2, 9, 1000, 100000)); return [4, r.randrange(c), r.choice((0, 1, 63, 64, 65, r.randrange(64), r.randrange(64 * 3 * c))), c]
    if k == 5: return [5, r.randrange(-64, 700), r.randrange(0, 8)]
    if k == 6: return [6, r.randrange(1, 300)]
    if k == 7: return [7, r.randrange(-500, 500)]
    if k == 8: return [8, r.randrange(2, 300)]
    if k == 9: rate = r.choice((1, 96, 1000, 1001, 8000)); return [9, r.randrange(1, min(rate, 2000) + 1), r.randrange(-160, 161), r.randrange(1, 30), r.randrange(0, 60), rate]
    if k == 12: return [14, r.choice((r.randrange(100), r.randrange(1000000))), r.randrange(1, 2000), r.randrange(9)]
    if k == 10: return [10, r.randrange(0, 1000000)]
    return [11, r.choice((0, 1, 20, r.randrange(1000))), r.choice((0, 1, 20, r.randrange(1000))), r.randrange(0, 9)]


def osc_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 30: break
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1])
        if e["e"] == "harm": e["v"] += 2000
        elif e["e"] in ("tri",): e["v"] += 5000
        elif e["e"] in ("square",): e["v"] = -e["v"]
        elif e["e"] in ("phase", "phasef", "pan"): e["v"] += 1
        elif e["e"] == "sines": e["o"][r.randrange(len(e["o"]))] += r.choice((40, -40, 100000))
        elif e["e"] in ("sine", "window"): e["o"][r.randrange(len(e["o"]))] += 40
        elif e["e"] == "sinc" and e["x"]: e["v"] += 400000 // abs(e["x"]) + 40
        elif e["e"] == "convert": e[r.choice(("wave", "hz", "unit", "dur"))] += 1
        elif e["e"] == "round": e[r.choice(("up", "down", "near"))] += 1
        elif e["e"] == "pair": e[r.choice(("max", "smin", "diff", "sub", "quot", "opt", "lim", "abs", "odd", "inter"))] += 1
        else: continue
        out.append(t)
    return out


def C24():
    c = Check("C24"); r = random.Random(SEED + 24); exe = core.build("osc_drv.c")
    for cy in q((5, 6), (5, 6, 7, 8, 11)):
        c.model("MC_Osc", cfg_text="SPECIFICATION Spec\nINVARIANTS Accumulated Waves Squares Pans\nCHECK_DEADLOCK FALSE\nCONSTANTS Cycle=%d\n Steps=%d\n Changes={0,1,2,5,%d,%d}\n" % (cy, q(4, 6), cy, 3 * cy + 1))
    c.model("MC_Trig", cfg_text="SPECIFICATION Spec\nINVARIANTS Quarters Symmetry Curvature Squares Double Shift\nCHECK_DEADLOCK FALSE\n")
    tags = {"triangle", "square", "phase", "pan", "sine", "sinc", "window", "convert", "round", "pair", "status", "crash"}
    c.scenarios("TraceOsc", exe, items(osc_all(), 40, r), tags, osc_control, name="all small arguments")
    c.scenarios("TraceOsc", exe, items([osc_one(r) for _ in range(q(8000, 80000))], 30), tags, osc_control, name="random arguments")
    c.scenarios("TraceOsc", exe, items([sines_one(r) for _ in range(q(4000, 40000))], 20), tags, osc_control, name="sines from tables")
    return c.finish()


PROPS = {"C24": C24}


def fft_one(r, op, n, dense, m=9):
    idx = list(range(n)) if dense else r.sample(range(n), min(n, r.randrange(1, 5)))
    d = sum(([j, r.randrange(-m, m + 1), r.choice((0, r.randrange(-m, m + 1)))] for j in idx), [])
    return [op, n, len(idx)] + d + [r.choice((0, 0, 0, 0, r.randrange(1, 30)))  if op < 3 else 0]


def spectrum_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 30: break
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1])
        if e["e"] in ("fft", "ffti", "back"):
            if e["inj"]: e["live"] += 1; e["st"] = 0
            elif e["re"]: e[r.choice(("ore", "oim"))][r.randrange(len(e["re"]))] += 40 + sum(map(abs, e["re"] + e["im"])) // 5
            else: continue
        elif e["e"] == "large": e["out"][r.randrange(len(e["out"]))][r.choice((1, 2))] += 40 + sum(abs(x[1]) + abs(x[2]) for x in e["in"]) // 5
        elif e["e"] == "circular":
            if e["inj"]: e["ok"] = 1
            elif e["re"]: e[r.choice(("ore", "oim"))][r.randrange(len(e["re"]))] += 5
            else: continue
        elif e["e"] == "flip": e[r.choice(("inverted", "reversed"))][0] += 1
        elif e["e"] == "ir" and len(e["ir"]) > 1: e["ir"][0] += 3000
        else: continue
        out.append(t)
    return out


def fft_large(r, n):
    m = r.randrange(1, 7); a = []
    for j in set(r.choice((r.randrange(n), r.randrange(min(n, 50)), n - 1 - r.randrange(min(n, 50)))) for _ in range(m)): a += [j, r.randrange(-50, 50), r.randrange(-50, 50)]
    ks = sorted(set([0, 1, n - 1, n // 2, n // 2 + 1] + [r.randrange(n) for _ in range(40)]))
    return [7, r.choice((1, 2)), n, len(a) // 3] + a + [len(ks)] + ks


def C25():
    c = Check("C25"); r = random.Random(SEED + 25); exe = core.build("spectrum_drv.c")
    inv = "SPECIFICATION Spec\nINVARIANTS Correct Restored Parseval\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n Low0=%d\n High0=%d\n"
    c.model("MC_Spectrum", cfg_text=inv % (4, 2, 3))
    c.model("MC_Spectrum", cfg_text=inv % ((8,) + q((0, 1), (1, 1))))
    tags = {"transform", "inverse", "back", "failure", "status", "memory", "crash", "convolution"}
    calls = [fft_one(r, op, n, 1) for n in range(0, 41) for op in (1, 2, 3) for _ in range(q(15, 100))]
    calls += [[op, n, 1, j, 1, 0, 0] for n in range(1, 20) for j in range(n) for op in (1, 2)]
    calls += [[op, n, 1, j, 0, 1, f] for n in (1, 2, 3, 7, 8) for j in range(n) for op in (1, 2) for f in range(1, q(20, 30))]
    c.scenarios("TraceSpectrum", exe, items(calls, 15, r), tags, spectrum_control, name="small transforms")
    calls = [[8, k % 2, n, f] + [r.randrange(-9, 10) for _ in range(4 * n)] for k, n in enumerate(list(range(0, 40)) * q(8, 60)) for f in [r.choice((0, 0, 0, r.randrange(1, 20)))]]
    c.scenarios("TraceSpectrum", exe, items(calls, 4, r), tags, spectrum_control, name="circular convolution")
    calls = [fft_one(r, op, n, 0, 50) for n in [r.randrange(25, 700) for _ in range(q(200, 2000))] + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1023, 1024, 1025] for op in (1, 2, 3)]
    c.scenarios("TraceSpectrum", exe, items(calls, 4, r), tags, spectrum_control, name="large transforms of few values")
    calls = [fft_large(r, n) for n in [65535, 65536, 65537, 65539, 100000, 131071, 131072, 131073, 200000] + [r.randrange(1026, 65536) for _ in range(q(20, 150))] + [r.randrange(65536, 200000) for _ in range(q(20, 150))] for _ in range(2)]
    c.scenarios("TraceSpectrum", exe, items(calls, 2, r), tags, spectrum_control, name="very large transforms, some results")
    return c.finish()


def ir_par(r):
    kind = r.randrange(4); t = r.choice((50, 60, 80, 100, 130, 200, 300, 400, r.randrange(45, 450))); t2 = r.choice((t, 60, 100, 250, r.randrange(50, 450)))
    c = r.choice((r.randrange(20, 490), r.randrange(100, 400), t)) if kind < 2 else r.choice((0, -10, r.randrange(20, 480), r.randrange(20, 300)))
    c2 = r.choice((500, 600, r.randrange(max(c, 20), 490), r.randrange(max(c, 20), 490)))
    return kind, min(c, 480), t, c2, t2


def C26():
    c = Check("C26"); r = random.Random(SEED + 26); exe = core.build("spectrum_drv.c")
    for n, v, w in ((3, 2, 2), (5, q(1, 2), 1)):
        c.model("MC_Spectrum", cfg_text="SPECIFICATION Static\nINVARIANT Flips\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n Low0=%d\n High0=%d\n" % (n, v, w))
    tags = {"flip", "arguments", "response", "steady", "status", "memory", "crash"}
    calls = [[4, n] + a + a[:-1][::-1] for n in (1, 3, 5, 7, 9) for _ in range(20) for a in [[r.randrange(-20, 20) for _ in range((n + 1) // 2)]]]
    for _ in range(q(2000, 20000)): calls.append([5] + list(ir_par(r)) + [r.choice((20, 25, 33, 50))])
    for _ in range(q(2000, 20000)): k = ir_par(r); calls.append([6] + list(k) + [r.choice((0, 500, r.randrange(500), r.randrange(500), max(0, k[1] - k[2]), min(500, k[1] + k[2]))), r.choice((1, 2, 7, 10, 50, 100))])
    c.scenarios("TraceSpectrum", exe, items(calls, 6, r), tags, spectrum_control, name="responses")
    calls = []
    for t in [8, 10, 16, 20, 25, 40] + [r.randrange(8, 45) for _ in range(q(60, 600))]:
        for kind in range(4): a = r.randrange(60, 300); calls.append([5, kind, a, t, r.randrange(a, 440), r.choice((t, r.randrange(8, 60))), 20])
    c.scenarios("TraceSpectrum", exe, items(calls, 6, r), tags, spectrum_control, name="narrow transitions")
    return c.finish()


PROPS.update({"C25": C25, "C26": C26})


def block_scn(r):
    ins, views, heaps = [22, 1, 1, 1, 1], {}, {}
    for _ in range(r.randrange(3, 16)):
        k = r.choice((1, 1, 2, 2, 3, 4, 4, 5, 5, 5, 6))
        if k == 1 or not views:
            free = [v for v in range(6) if v not in views]
            if not free: continue
            v = r.choice(free); ch = r.choice((0, 1, 2, 2, 2)); size = r.choice((0, 1, 2, 3, 5, 8)); fail = r.choice((0, 0, 0, 0, 1, 2, 3)); ins += [1, v, ch, size, fail]
            if fail and size and fail <= ch: continue
            views[v] = (v, 0, size, ch); heaps[v] = 1; ins += [2, v, r.randrange(1, 90) * 1000]
        elif k == 2: ins += [2, r.choice(list(views)), r.randrange(1, 90) * 1000]
        elif k == 3: ins += [3, r.choice(list(views))]
        elif k == 4:
            p = [(a, b) for a in views for b in views if views[a][2] <= views[b][2] and views[a][3] <= views[b][3] and views[a][0] != views[b][0]]
            if p: ins += [4] + list(r.choice(p))
        elif k == 5:
            u = r.choice(list(views)); h, off, size, ch = views[u]; free = [v for v in range(6) if v not in views]
            if not free or (not size and not ch): continue
            v = r.choice(free); o = r.randrange(size + 1) if r.random() < 0.8 else size; ins += [5, v, u, o]; views[v] = (h, off + o, size - o, ch)
        elif k == 6:
            own = [v for v in views if views[v][0] == v and views[v][1] == 0]
            if own: v = r.choice(own); ins += [6, v]; views = {k: x for k, x in views.items() if x[0] != v}
    return {"in": ins, "head": {}}


def scaled(x, R, T): return {"in": [40, R, T] + x["in"], "head": x["head"]}


def list_scn(r, hi=None):
    ins = [22, 1, 1, 1, 1]; q = {x: [] for x in range(3)}; id = 0; hi = hi or r.choice((2, 4, 30, 2000000000))
    for _ in range(r.randrange(3, 22)):
        x = r.choice((0, 0, 0, 1, 2)); k = r.choice((10, 10, 10, 10, 11, 12, 12, 13) if r.random() < 0.9 else (11, 13)); l = q[x]
        if k == 10:
            if l != sorted(l, reverse=True): ins += [11, x]; l.reverse()
            if l != sorted(l, reverse=True): continue
            id += 1; s = r.randrange(hi); fail = r.choice((0, 0, 0, 0, 0, 0, 0, 1, 2)); ins += [10, x, id, s, s + r.randrange(5), fail]
            if fail != 1: l.append(s); l.sort(reverse=True)
        elif k == 11: ins += [11, x]; l.reverse()
        elif k == 12 and l: j = r.randrange(len(l)); ins += [12, x, j + 1]; del l[j]
        elif k == 13: ins += [13, x]; q[x] = []
        if r.random() < 0.04: ins += [31, x]
    return {"in": ins, "head": {}}


def links(m, r=None):
    if not r: return [[30, m] + list(x) for x in itertools.product(range(m + 1), repeat=2 * m)]
    out = []
    for _ in range(500):    # well linked lists and small changes of them
        o = list(range(1, m + 1)); o[1:] = r.sample(o[1:], m - 1); k = r.randrange(1, m + 1); o = o[:k]
        n = [0] * m; p = [r.randrange(m + 1) for _ in range(m)]
        for i, x in enumerate(o): n[x - 1] = o[i + 1] if i + 1 < k else 0; p[x - 1] = o[i - 1] if i else 0
        for _ in range(r.choice((0, 1, 1, 2))): r.choice((n, p))[r.randrange(m)] = r.randrange(m + 1)
        out.append([30, m] + n + p)
    return out


def other_one(r):
    k = r.randrange(3)
    if k == 0:
        d = r.choice((0, 1, 2, 5, 10, r.randrange(60))); s = r.choice((0, 1, 7, 1000000000)); res = r.choice((1, 2, 3, max(d - 1, 1), d or 1, d + 1, r.randrange(1, 20), 2000000000)); n = -(-d // res)
        if r.random() < 0.1: d = 1900000000 + r.randrange(99999999); s = r.randrange(9999999); res = r.randrange(10 ** 8, 10 ** 9); n = -(-d // res)
        return [20, res, s, s + d, r.choice((0, 0, 0, n, n - 1, n + 1, 1, r.randrange(n + 1))) if n else 0, r.randrange(1, 100)]
    if k == 1: return [21, r.choice((0, 0, 3)), r.choice((0, 0, 10)), r.randrange(1, 99), r.choice((0, 1, r.randrange(10 ** 9))), r.choice((0, 1, r.randrange(10 ** 9))), r.choice((0, r.randrange(1, 99)))]
    a, b = ([r.randrange(-9, 10) for _ in range(r.choice((1, 1, 2, 3, 5, 9)))] for _ in range(2)); return [22, len(a)] + a + [len(b)] + b


def blocks_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 40: break
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1])
        if e["e"] in ("fill", "zero", "copy", "offset"):
            h = [x[1] for x in e["heap"] if x[1] and x[1][0]]
            if h and r.random() < 0.6: h[-1][-1][-1] += 1
            elif e["views"]: e["views"][-1][3] += 1
            else: continue
        elif e["e"] == "list":
            m = r.randrange(3)
            if m == 0: e["live"] += 1 if e["op"] != "reverse" else 0; e["freed"] = e["freed"] + [99]
            elif m == 1 and len(e["fwd"]) > 1: e["bwd"].pop()
            elif len(e["fwd"]) > 1: e["fwd"][0][0] += 500; e["bwd"][-1][0] += 500
            else: continue
        elif e["e"] == "parts" and len(e["calls"]) > 1: e["calls"][1][r.randrange(3)] += 1
        elif e["e"] == "runs": e["runs"][-1][r.randrange(4)] += 1
        elif e["e"] == "valid": e["r"] = 1 - e["r"]
        elif e["e"] == "display" and e["rows"]: e["rows"][-1][r.randrange(4)] += 1
        elif e["e"] == "schedule": e["to"][r.randrange(3)] += 1
        elif e["e"] == "convolved": e["o"][-1] += 1
        else: continue
        out.append(t)
    return out


def C27():
    c = Check("C27"); r = random.Random(SEED + 27); exe = core.build("blocks_drv.c")
    cfg = "SPECIFICATION Spec\nINVARIANTS Forward Backward Order Laws PartLaws\nPROPERTY Insertion\nCHECK_DEADLOCK FALSE\nCONSTANTS Nodes=%d\n Starts={%s}\n Fault=\"%s\"\n"
    c.model("MC_Blocks", cfg_text=cfg % (q(4, 5), "1,2,3", "none"))
    c.must_fail("MC_Blocks", [cfg % (3, "1,2", f) for f in ("previous", "head", "remove", "reverse")])
    tags = {"new", "fill", "zero", "copy", "offset", "free", "links", "add", "reverse", "remove", "release", "failure", "parts", "schedule", "convolution", "leak", "crash", "validate", "display"}
    n = q(2500, 25000)
    c.scenarios("TraceBlocks", exe, [block_scn(r) for _ in range(n)], tags, blocks_control, name="blocks")
    c.scenarios("TraceBlocks", exe, [scaled(block_scn(r), r.choice((40, 257, 10000, 33000, 70001)), 1) for _ in range(q(150, 1500))], tags, blocks_control, name="large blocks")
    c.scenarios("TraceBlocks", exe, [scaled(list_scn(r, 31), 1, r.choice((1 << 16, 1 << 24, 1 << 27))) for _ in range(q(400, 4000))], tags, blocks_control, name="event lists with late events")
    late = []
    for _ in range(q(100, 1000)):
        for _ in range(4): s = r.randrange(16); d = r.randrange(31 - s); res = r.choice((1, 2, 3, d or 1, d + 1, 31)); k = -(-d // res); late.append([20, res, s, s + d, r.choice((0, 0, k, 1, max(0, k - 1))), r.randrange(1, 100)])
        s = r.choice((0, 0, 3)); late.append([21, s, s and 5, 7, r.randrange(12), r.randrange(12), r.choice((0, 5))])
    late = items(late, 20, r)
    many = []
    for _ in range(q(60, 600)):
        d = r.choice((255, 256, 257, 65535, 65536, 65537, r.randrange(1000, 200000))); res = r.choice((1, 2, 3, 7, 100)); k = -(-d // res); many.append([23, res, r.choice((0, 5, 65530, 1500000000)), 0, r.choice((0, 0, k, k - 1, k + 1, 300)), r.randrange(1, 100)]); many[-1][3] = many[-1][2] + d
    late += items(many, 10, r)
    c.scenarios("TraceBlocks", exe, [scaled(x, 1, r.choice((100, 1 << 16, 1 << 24, 1 << 27))) for x in late], tags, blocks_control, name="long and late range parts")
    c.scenarios("TraceBlocks", exe, [list_scn(r) for _ in range(n)], tags, blocks_control, name="event lists")
    c.scenarios("TraceBlocks", exe, items(links(0) + links(1) + links(2) + q(r.sample(links(3), 1500), links(3)) + links(5, r) + links(7, r), 20, r), tags, blocks_control, name="list validation")
    small = [[20, res, s, s + d, f, 3] for d in range(0, 8) for res in range(1, 10) for s in (0, 3) for f in range(0, -(-d // res) + 2)]
    c.scenarios("TraceBlocks", exe, items(small + [other_one(r) for _ in range(q(4000, 40000))], 20, r), tags, blocks_control, name="range parts, scheduling, convolution")
    return c.finish()


PROPS.update({"C27": C27})


def tools_scn(r):
    ins = []; kind = r.randrange(4); q = []; a = None; size = 0
    if kind == 0:
        for _ in range(r.randrange(2, 25)):
            k = r.choice((1, 1, 1, 2, 2, 3, 3, 4) if r.random() < 0.3 else (1, 1, 1, 2, 3))
            if k == 1:
                f = [i for i in range(1, 13) if i not in q]
                if f: i = r.choice(f); ins += [1, i]; q.append(i)
            elif k == 2 and q: ins += [2]; q.pop(0)
            elif k == 3:
                i = r.choice(q + q + [r.randrange(1, 13)]); ins += [3, i]
                if i in q: q.remove(i)
            elif k == 4: ins += [4]; q = []
    elif kind == 1:
        for _ in range(r.randrange(2, 25)):
            k = r.choice((5, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11))
            if k == 5 or (k in (6, 7, 8, 9) and a is None):
                fail = r.choice((0, 0, 0, 0, 1)); size = r.randrange(1, 8); ins += [5, size, fail]; a = None if fail else 0
                if fail: ins += [5, size, 0]; a = 0
            elif k == 6:
                if a < size: ins += [6, r.randrange(1000)]; a += 1
            elif k == 7:
                if a: ins += [7]; a -= 1
            elif k == 8: ins += [8]; a = 0
            elif k == 9:
                fail = r.choice((0, 0, 0, 1)); m = r.randrange(1, 10); ins += [9, m, fail]
                if not fail: size = m; a = min(a, m)
            elif k == 10: m = r.randrange(0, 9); t = r.randrange(3); ins += [10, t, m] + ([r.randrange(2) for _ in range(m)] if t == 2 else [])
            elif k == 11: ins += [11, r.randrange(4), r.randrange(1, 30), r.randrange(1, 30), r.choice((0, 0, 1))]
    elif kind == 2:
        def s(): m = r.choice((0, 1, 2, 3, 5)); return [m] + [r.choice((47, 46, 97, 98, 200)) for _ in range(m)]
        for _ in range(r.randrange(2, 9)):
            k = r.choice((12, 13, 14, 15, 16, 16, 19, 20, 21)); f = r.choice((0, 0, 0, 0, 0, 1))
            if k == 12: ins += [12, f] + s() + s()
            elif k in (13, 15): ins += [k, f] + s()
            elif k == 16: ins += [16, r.choice((0, 0, 0, 0, 0, 1, 2))] + s()
            elif k == 14: m = r.randrange(0, 5); ins += [14, f, m] + sum((s() for _ in range(m)), []) + s()
            elif k == 19:
                d = []; h = r.randrange(0, 3)
                for _ in range(h): x = r.randrange(1, 4); d += [[x, 0], [-x, 0]]
                if r.random() < 0.2: d.append([r.randrange(1, 4), 0])
                d += [[0, r.randrange(-9, 10)] for _ in range(r.randrange(1, 7))]; r.shuffle(d); ins += [19, r.choice((64, 32)), len(d)] + sum(d, [])
            elif k == 20: x = r.randrange(-20, 20); ins += [20, r.choice((64, 32)), x, x + r.randrange(-5, 6), r.randrange(0, 6)]
            else:
                m = r.randrange(0, 5); x = [r.randrange(-9, 9) for _ in range(m)]; y = [v + r.choice((0, 0, 1, -1, 2)) for v in x] + ([1] if r.random() < 0.2 else []); ins += [21, r.choice((64, 32)), r.randrange(0, 4), len(x)] + x + [len(y)] + y
    else:
        files = r.random() < 0.4
        if files: ins += [17, 3]
        for _ in range(r.randrange(1, 6)):
            p = []; depth = 0
            for _ in range(r.choice((1, 1, 2, 3, 4, 6))):
                x = r.choice((1, 1, 2, 3, 4, -1, -2)) if depth else r.choice((1, 1, 2, 3, 4, -1)); p.append(x); depth += 1 if x > 0 else -1 if x == -2 else 0
            ins += [18, r.choice((0, 0, 0, 0, 1, 2, 3)), r.randrange(2), r.randrange(2) if files else r.randrange(4), len(p)] + p
    return {"in": ins or [4], "head": {}}


def long_tools(r):
    """long strings and paths, large containers, deep directories"""
    sizes = (1, 2, 255, 256, 257, 300, 4095, 4097, 65535, 65536, 70000)
    def s(k=None, z=sizes): k = r.choice((0, 1, 1, 2, 3, 5)) if k is None else k; return [k] + sum(([r.choice((47, 97, 98, 200)), r.choice(z)] for _ in range(k)), [])
    ins = []
    for _ in range(r.randrange(1, 4)):
        k = r.choice((22, 22, 22, 23, 24, 25, 26, 11))
        if k == 22:
            f = r.choice((12, 13, 14, 14, 15, 16, 16))
            if f == 12: ins += [22, 12] + s() + s()
            elif f == 14: m = r.choice((2, 3, 130, 256, 257, 300)); ins += [22, 14, m] + sum((s(1, (1, 2, 300) if m > 9 else sizes) for _ in range(m)), []) + s(1, (1, 300))
            else: ins += [22, f] + s()
        elif k == 23: b = r.choice(sizes); u = r.randrange(b + 1) if r.random() < 0.5 else b; m = r.choice(sizes); w = m - min(u, m); ins += [23, b, u, m, r.choice((0, w, w // 2))]
        elif k == 24:
            st = []; size = total = 0
            for _ in range(r.randrange(1, 4)): x = r.choice(sizes); x = x if total + x < 190000 else 3; total += x; y = r.choice((0, size + x, r.randrange(size + x + 1))); size += x - y; st += [x, y]
            ins += [24, len(st) // 2] + st
        elif k == 25: ins += [25, r.choice(sizes), r.choice((1, 2, 3, 256, 100000))]
        elif k == 26:
            d = [[0, r.randrange(-9, 10)] for _ in range(r.randrange(1, 5))]
            for _ in range(r.randrange(3)): x = r.randrange(1, 4); d += [[x, 0], [-x, 0]]
            r.shuffle(d); rep = r.choice((1, 100, 300, 30000)); n = rep * len(d); at = r.choice((-1, 0, n - 1, r.randrange(n), min(n - 1, 70000))); small = [i for i in range(len(d)) if d[i][0] == 0]
            if at >= 0 and d[at % len(d)][0]: at = at - at % len(d) + r.choice(small)
            ins += [26, r.choice((64, 32)), rep, len(d)] + sum(d, []) + [at, r.choice((0, 1, -2)) if at >= 0 else 0]
        else: ins += [11, r.randrange(4), r.choice(sizes), r.choice(sizes), 0]
    return {"in": ins, "head": {}}


def deep_dirs(r):
    n = r.choice((90, 130)); return {"in": [18, 0, r.randrange(2), r.randrange(4), n] + [r.randrange(1, 4) for _ in range(n)] + [18, 0, r.randrange(2), 0, 3, 1, 2, 3], "head": {}}


def tools_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 40: break
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1]); k = e["e"]
        if k in ("enq", "deq", "remove", "qinit", "anew", "aadd", "aremove", "aclear", "aresize"): e["size"] += 1
        elif k == "register": e["freed"] = e["freed"] + [1]
        elif k == "alloc": e["live"] += 5
        elif k in ("append", "clone", "join", "slash", "dirname"):
            if e["inj"] or e["null"]: continue
            e["o"] = e["o"] + [97]
        elif k == "ensure": e["r"] = 1 - e["r"]
        elif k == "long": e["o"] = e["o"] + [[97, 1], [98, 1]]
        elif k == "abig": e["ok"] += 1
        elif k == "qbig": e["taken"] = e["taken"] + [[5, 1]]
        elif k == "rbig": e["a"] += 1
        elif k == "sbig": e["near"] = 1 - e["near"]
        elif k == "sum": e["v"] += 1; e["big"] += 1
        elif k in ("near", "nears"): e["r"] = 1 - e["r"]
        else: continue
        out.append(t)
    return out


def C28():
    import props_file, shutil
    c = Check("C28"); r = random.Random(SEED + 28); exe = core.build("tools_drv.c"); d = props_file.scratch()
    try:
        cfg = "SPECIFICATION Spec\nINVARIANTS Fifo Ends PathLaws DirLaws\nCHECK_DEADLOCK FALSE\nCONSTANTS Nodes=%d\n Length=%d\n Fault=\"%s\"\n"
        c.model("MC_Tools", cfg_text=cfg % (q(4, 5), q(5, 6), "none"))
        c.must_fail("MC_Tools", [cfg % (3, 2, f) for f in ("last", "remove")])
        tags = {"queue", "array", "failure", "register", "alloc", "string", "slash", "dirname", "directories", "sum", "near", "leak", "crash"}
        c.scenarios("TraceTools", exe, [tools_scn(r) for _ in range(q(6000, 60000))], tags, tools_control, name="containers, strings, directories")
        c.scenarios("TraceTools", exe, [long_tools(r) for _ in range(q(500, 5000))] + [deep_dirs(r) for _ in range(q(4, 20))], tags, tools_control, name="large sizes")
    finally: shutil.rmtree(d, ignore_errors=True)
    return c.finish()


PROPS.update({"C28": C28})


def plot_one(r, op, kind):
    fail = r.choice((0, 0, 0, 0, 0, 1, 2, 3, 4, 5))
    if op == 2: return [2, kind, r.choice((0, 0, 0, 1, 2)), r.randrange(2), r.choice((0, 1, 2, 5, 30, r.randrange(100), r.randrange(1000))), r.randrange(10 ** 9)]
    n = r.choice((0, 1, 2, 3, r.randrange(1, 12), r.randrange(1, 40))) or (kind == 3); ins = [op, kind, fail, n]
    for _ in range(n):
        if kind == 1: ins.append(r.choice((0, 1, -1, 999, 1000, -1000, 5, r.randrange(-2000, 2000), r.randrange(-10 ** 8, 10 ** 8))))
        elif kind == 2: v = r.choice((0, 1, 9, 9999, 10000, 2 ** 32 - 1, 2 ** 31, r.randrange(1000), r.randrange(2 ** 32))); ins += [v // 10000, v % 10000]
        else: ins.append(r.choice((0, 0, 1, -1)) if n > 6 else r.randrange(-4, 5))
    if kind == 3:
        while sum(map(abs, ins[4:])) > 28: ins[4 + next(k for k, v in enumerate(ins[4:]) if v)] = 0
    return ins + ([r.randrange(2)] if op == 1 else [])


def long_plot(r):
    n = r.choice((255, 256, 257, 1000, 65535, 65536, 65537, 70000)); kind = r.choice((1, 2, 2, 1, 3)); m = r.choice((7, 1000, 99999, 2 ** 31 - 1)) if kind < 3 else r.choice((1, 3, 1000))
    f = r.randrange(1, 25000); w = sum(([x, 6] for x in sorted({0, n - 6, r.randrange(n - 6), n // 2, min(n - 6, 65533)})), [])
    return [6, kind, 0, n, f, r.randrange(1000), m, len(w) // 2] + w


def plot_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 40: break
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1])
        if e["e"] == "display" and e["cmds"] and e["path"]: e["cmds"][0] = e["cmds"][0][:-1] if r.random() < 0.5 else [c for c in e["cmds"][0] if c != 34]
        elif e["e"] in ("data", "plot", "late") and not e.get("inj") and e["text"]:
            k = r.randrange(len(e["text"])); m = r.randrange(3)
            if m == 0: e["text"] = e["text"][:-1]
            elif m == 1: e["text"] += e["text"][-4:] + [48, 10]
            else: e["text"][0] = 53 if e["text"][0] != 53 else 56
        elif e["e"] == "many": e["own"] -= 1
        elif e["e"] == "longdata": k = r.randrange(len(e["rows"])); e["rows"][k][1] = 53 if e["rows"][k][1] != 53 else 56
        elif e["e"] == "line": e["text"][0] = 53 if e["text"][0] != 53 else 56
        else: continue
        out.append(t)
    return out


def line_value(r, kind):
    if kind == 1: return [r.choice((0, 1, -1, 999, 1000, r.randrange(-3000, 3000), r.randrange(-10 ** 8, 10 ** 8)))]
    return [r.choice((0, r.randrange(10), r.randrange(429496))), r.choice((0, 9999, r.randrange(10000)))]


def C29():
    c = Check("C29"); r = random.Random(SEED + 29); exe = core.build("plot_drv.c", io=True); d = props_file.scratch()
    cfg = "SPECIFICATION Spec\nINVARIANTS Own Unique\nCHECK_DEADLOCK FALSE\nCONSTANTS Plots=%d\n Values=3000\n Fault=\"%s\"\n"
    try:
        c.model("MC_Plot", cfg_text=cfg % (q(4, 5), "none"))
        c.must_fail("MC_Plot", [cfg % (3, f) for f in ("index", "remove")])
        tags = {"data", "command", "plot", "overwritten", "failure", "leak", "crash", "line"}
        calls = [plot_one(r, op, k) for op in (1, 1, 2, 3) for k in (1, 2, 3) for _ in range(q(300, 4000))]; r.shuffle(calls)
        c.scenarios("TracePlot", exe, items(calls, 4, r), tags, plot_control, name="plots")
        lines = [[4, k, 0, n] + sum((line_value(r, k) for _ in range(n)), []) for k in (1, 2) for n in list(range(8)) + [r.randrange(8, 60) for _ in range(q(40, 800))]]
        c.scenarios("TracePlot", exe, items(lines, 4, r), tags, plot_control, name="lines")
        long = [[4, k, 0, n] + sum((line_value(r, k) for _ in range(n)), []) for k in (1, 2) for n in (255, 256, 257, 300, 600)]
        long += [[1, k, 0, n] + sum((line_value(r, k) for _ in range(n)), []) + [r.randrange(2)] for k in (1, 2) for n in (255, 256, 257, 300, 600)]
        long += [long_plot(r) for _ in range(q(60, 400))] + [[5, k, 0, n] for k in (0, 1, 2, 3) for n in (3, 30, 300)] + [[5, 0, 0, 66000]]
        c.scenarios("TracePlot", exe, items(long, 1, r), tags, plot_control, name="long data and many plots")
    finally: shutil.rmtree(d, ignore_errors=True)
    return c.finish()


PROPS.update({"C29": C29})
