import random, copy
import core
from core import Check, SEED
from props_seq import q, THOROUGH


def corrupt(kinds, amount, seed):
    """changes single values of the given lists, and what is left over at the end"""
    def change(v, r):
        k = [i for i, x in enumerate(v)]
        if not k: return False
        i = r.choice(k)
        if isinstance(v[i], list): return change(v[i], r)
        v[i] += r.choice((1, -1)) * amount; return True
    def f(tr):
        r = random.Random(seed); out = []
        for _ in range(3000):
            if len(out) >= 16 or not tr: break
            t = copy.deepcopy(r.choice(tr)); k = r.randrange(len(t["ev"])); e = t["ev"][k]
            if e["e"] in kinds and change(e[kinds[e["e"]]], r): out.append(t)
            elif e["e"] in ("end", "freed") and r.random() < 0.2 and e.get("live") == 0: e["live"] += 1; out.append(t)
        return out
    return f


def rs(r, n, lo, hi): return [r.randrange(lo, hi + 1) for _ in range(n)]


def division(r, n):
    out = []
    m = r.random()
    while n > 0:
        b = n if m < 0.1 else 1 if m < 0.2 else min(n, r.choice((1, 1, 2, 3, 5, 8, 13)))
        out.append(b); n -= b
        if r.random() < 0.05: out.append(0)
    return out


def opt(v): return [1] + v if v else [0]


WH = {"size": 1, "wvf": [0], "n": 0, "start": 0, "bg": 0, "ch": [], "fn": 0, "keep": 1, "sphs": 0, "tsize": 0, "sfrq": 0, "samp": 0, "rate": 0, "total": 0}


def wave_form(r, sizes, large=0.06):
    """long waveforms are a repeated pattern with steps"""
    size = r.choice((1001, 40000, 65535, 65536, 65537, 70000, 96000, 140000)) if r.random() < large else r.choice(sizes)
    wvf = rs(r, r.choice((1, 7, 11)) if size > 1000 else size, -9, 9)
    return size, wvf, ([len(wvf)] if size > 1000 else []) + wvf


def wave_scn(r, limit=2, seq=False):
    size, wvf, wi = wave_form(r, (1, 2, 3, 5, 8, 12)); n = r.choice((1, 2, 5, 9, 17, 30)); nch = r.randrange(1, limit + 1)
    start = r.choice((0, 0, 1, 4, 11)) if seq else 0
    ch = []
    for c in range(nch):
        use = r.randrange(2) if c else 1
        ch.append([use, r.randrange(-3, 4), r.randrange(limit) if r.random() < 0.6 else c, r.choice((0, 1, 1, 2, 3, 7, 13, 40, 65535)),
                   rs(r, n, 0, r.choice((3, 20, 100, size))) if r.random() < 0.4 else [], r.randrange(size),
                   rs(r, n, 0, r.choice((3, 20, 100, size))) if r.random() < 0.4 else [],
                   rs(r, n, -4, 4) if c == 0 or r.random() < 0.5 else []])
    bg = r.randrange(-5, 6); div = division(r, start + n + (r.choice((0, 3)) if seq else 0))
    ins = [1 if seq else 0, start, size] + wi + [n, nch]
    for c in ch: ins += c[:4] + opt(c[4]) + [c[5]] + opt(c[6]) + opt(c[7])
    ins += [limit, bg, len(div)] + div
    return {"in": ins, "head": dict(WH, size=size, wvf=wvf, n=n, start=start, bg=bg, ch=ch, total=sum(div))}


def long_wave_scn(r, seq):
    """long events, blocks and modulation arrays, late positions"""
    size, wvf, wi = wave_form(r, (1, 2, 5, 12, 300), 0.3); n = r.choice((66000, 70001, 131080)); nch = r.choice((1, 2)); tile = r.choice((1, 3, 7, 20))
    start = r.choice((0, 3, 66000)) if seq else 0; base = r.choice((0, 0, 1 << 24, 2000000003)) if seq else 0; ch = []
    for c in range(nch):
        ch.append([r.randrange(2) if c else 1, r.randrange(1, 4), r.randrange(2) if r.random() < 0.6 else c, r.choice((0, 1, 7, 65535)), rs(r, tile, 0, 100) if r.random() < 0.5 else [], r.randrange(size),
                   rs(r, tile, 0, 100) if r.random() < 0.4 else [], rs(r, tile, -4, 4) if c == 0 or r.random() < 0.5 else []])
    total = start + n + (r.choice((0, 5)) if seq else 0)
    div = r.choice(([total], [65536, total - 65536], [65535, 1, total - 65536], [10, 40000, total - 40010], [total - 9, 9], [total // 2 + 4470, total - total // 2 - 4470], [30000] * (total // 30000) + [total % 30000]))
    p = 0; pos = {0, total - 8, r.randrange(total - 8)}
    for v in [0] + div[:-1] + [start, start + n, 65536 - sum(div[:1])]:
        p = p + v if v in div[:-1] else p
        for x in (p, start, start + n): pos.add(max(0, min(total - 8, x - r.randrange(9))))
    ins = [7 if seq else 6, start, size] + wi + [n, tile, base, nch]
    for c in ch: ins += c[:4] + opt(c[4]) + [c[5]] + opt(c[6]) + opt(c[7])
    bg = r.randrange(-5, 6); ins += [2, bg, len(div)] + div + [len(pos)] + sorted(pos)
    return {"in": ins, "head": dict(WH, size=size, wvf=wvf, n=n, start=start, bg=bg, ch=ch, total=total, tile=tile, base=base)}


def wavefn_scn(r):
    size, wvf, wi = wave_form(r, (1, 2, 3, 5, 8, 12)); n = r.choice((1, 4, 9, 20)); amp = r.randrange(-3, 4)
    a = rs(r, n, -4, 4) if r.random() < 0.6 else []; f = rs(r, n, 0, r.choice((3, 40))) if r.random() < 0.5 else []
    frq = r.choice((0, 1, 2, 5, 17)); keep = 1 if r.random() < 0.7 else 0; phs = r.randrange(size) if keep else 0; bg = r.randrange(-5, 6)
    div = division(r, n)
    return {"in": [2, size] + wi + [n, amp] + opt(a) + [frq] + opt(f) + [phs, keep, bg, len(div)] + div,
            "head": dict(WH, size=size, wvf=wvf, n=n, bg=bg, ch=[[1, amp, 0, frq, f, phs, [], a]], fn=1, keep=keep, total=n)}


def sine_scn(r, rate, lfo):
    n = r.choice((10, 50)); frq = r.choice((0, 1, 3, 10, rate - 1, rate + 3)); amp = r.randrange(0, 4); t = rate * (100 if lfo else 1); phs = r.randrange(t); div = division(r, n)
    return {"in": [3, rate, lfo, n, frq, amp, phs, len(div)] + div, "head": dict(WH, tsize=t, sfrq=frq, samp=amp, sphs=phs, rate=rate)}


def phase_scn(r):
    fl = r.randrange(2); cy = r.choice((1, 2, 7, 100)); n = 12
    return {"in": [4 + fl, cy, r.randrange(cy), n] + rs(r, n, 0, r.choice((5, 100, 1000))), "head": dict(WH)}


def C14():
    c = Check("C14"); r = random.Random(SEED + 14)
    for d, fr, mo in q(((3, "{0, 1, 3, 7}", "{0, 2, 6}"), (4, "{1, 4}", "{0, 3}")), ((4, "{0, 1, 3, 7}", "{0, 2, 6}"), (6, "{1, 4}", "{0, 3}"))):
        c.model("MC_Wave", cfg_text="SPECIFICATION Spec\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\nCONSTANTS Dur=%d\n Frqs=%s\n Mods=%s\n Keep=TRUE\n" % (d, fr, mo))
    co = corrupt({"gen": "out", "table": "t", "sine": "out"}, 13, SEED)
    exe = core.build("wave_drv.c")
    items = [wave_scn(r, 2, k % 3 == 0) for k in range(q(5000, 60000))] + [wavefn_scn(r) for _ in range(q(1500, 15000))]
    c.scenarios("TraceWave", exe, items, None, co, name="events and function")
    c.scenarios("TraceWave", exe, [long_wave_scn(r, k % 2 == 0) for k in range(q(150, 1500))], None, long_control, name="long events and late positions")
    for lim in (1, 4, 8):
        exe2 = core.build("wave_drv.c", defs=("-Dsp_channel_count_limit=%d" % lim,))
        c.scenarios("TraceWave", exe2, [wave_scn(r, lim, k % 3 == 0) for k in range(q(1000, 12000))], None, co, name="channel limit %d" % lim)
    c.scenarios("TraceWave", core.build("wave_drv.c", defs=("-Dsp_channel_count_limit=4",)), [sine_scn(r, rate, 0) for rate in (12, 48)], None, co, name="defaults of more channels")
    items = [sine_scn(r, rate, 0) for rate in (12, 16, 24, 30, 48, 100, 120, 480, 960) for _ in range(q(4, 30))] + [sine_scn(r, rate, 1) for rate in (12, 16) for _ in range(q(3, 20))] + [phase_scn(r) for _ in range(q(300, 3000))]
    c.scenarios("TraceWave", exe, items, None, co, name="sines and phases")
    return c.finish()



def own(x): return bool(x[3] or x[5] or x[4] or x[6] or x[7] or x[8])


def noise_scn(r, mod, fail=False, via=None, limit=2, unusable=False):
    rate = r.choice((10, 10, 20, 100)); u = rate // 10
    cap = 4 * rate
    trs = [2 * u, 3 * u, 5 * u]; frqs = [0, u, 2 * u, 3 * u]; wdts = [u, 2 * u, 4 * u, 65535]
    n = r.choice((5, 20, 45, 60)) if rate > 10 or r.random() < 0.6 else r.choice((50, 90))
    res = r.choice((3, 7, 10, 16, 50, 96)); div_unit = min(res, cap)
    def piecewise(vals):
        out = []
        while len(out) < n: out += [r.choice(vals)] * r.choice((1, 3, 7, 20))
        return out[:n]
    nch = r.choice((1, 2)) if limit == 2 else r.randrange(1, limit + 1); ch = []
    for c in range(nch):
        first = c == 0; use = 1 if first else r.choice((0, 1, 1, 1)); opts = 1 if first else r.random() < 0.65
        x = [use, r.choice((1, 2, 2, 2, 4, 0, -1)), r.randrange(2) if r.random() < 0.4 else min(c, limit - 1), 0, [], 0, [], 0, 0, []]
        if opts:
            if first or r.random() < 0.8: x[3] = r.choice(frqs)
            if first or r.random() < 0.6: x[5] = r.choice(wdts)
            if first or r.random() < 0.5: x[7] = r.choice(trs)
            if first or r.random() < 0.5: x[8] = r.choice(trs)
            if mod and r.random() < 0.7: x[4] = piecewise(frqs[1:])
            if mod and r.random() < 0.4: x[6] = piecewise(wdts[:3])
        if first or r.random() < 0.5: x[9] = [r.choice((0, 1, 2, 2, 2, 4)) for _ in range(n)] if r.random() < 0.6 else [2] * n
        if unusable and first: x[9] = []
        ch.append(x)
    via = r.randrange(4) == 0 if via is None else via
    start = r.choice((0, 3, 8)) if via else 0
    if via and mod: start = 0
    bg = r.randrange(-2, 3); seed = r.randrange(1, 1 << 30); reject = r.randrange(2)
    # impulse responses that can be needed
    keys = set()
    modulated = False; a = ch[0]; effs = []
    for c, x in enumerate(ch):
        if c and not (x[0] and own(x)): continue
        e = list(x)
        if c:
            for k in (4, 6, 5, 7, 8): e[k] = e[k] or a[k]
        effs.append(e); modulated = modulated or bool(e[4] or e[6])
    for e in effs:
        for p in range(0, n, div_unit) if modulated else [0]:
            f = e[4][p] if e[4] else e[3]; w = e[6][p] if e[6] else e[5]; keys.add((f, f + w, e[7], e[8]))
    runs = []; total = n + start + (r.choice((0, 5)) if via else 0)
    for k in range(3):
        if modulated:
            units = [min(div_unit, total - i) for i in range(0, total, div_unit)]
            if k == 0: d = units if r.random() < 0.5 else [total]
            else:
                d = []; i = 0
                while i < len(units): m = r.randrange(1, 4); d.append(sum(units[i:i + m])); i += m
        else: d = [total] if k == 0 and r.random() < 0.5 else division(r, total)
        af = r.randrange(1, 25) if fail and k != 1 else 0
        runs += [af, len(d)] + d
    ins = [rate, seed, reject, res, n, nch]
    for x in ch: ins += x[:4] + opt(x[4]) + [x[5]] + opt(x[6]) + [x[7], x[8]] + opt(x[9])
    ins += [limit, bg, 1 if via else 0, start, len(keys)]
    for k in sorted(keys): ins += list(k)
    ins += [3] + runs
    return {"in": ins, "head": {"rate": rate, "res": res, "n": n, "start": start, "bg": bg, "aligned": 1, "via": 1 if via else 0, "ch": ch}}


def unusable_control(tr):
    import copy
    out = []
    for t in tr[:30]:
        t = copy.deepcopy(t); e = [e for e in t["ev"] if e["e"] in ("run", "gen") and e["r"]]
        if e: e[0]["r"] = 0; e[0]["inj"] = 0; out.append(t)
    return out


def C15():
    c = Check("C15"); r = random.Random(SEED + 15); exe = core.build("noise_drv.c")
    for d, rm, un in ((q(7, 9), 4, "TRUE"), (q(9, 12), 5, "FALSE")):
        c.model("MC_Noise", cfg_text="SPECIFICATION Spec\nINVARIANTS Ok Aligned Complete\nCHECK_DEADLOCK FALSE\nCONSTANTS Dur=%d\n ResMax=%d\n Unaligned=%s\n" % (d, rm, un))
    co = corrupt({"gen": "out"}, 20000, SEED)
    c.scenarios("TraceNoise", exe, [noise_scn(r, False) for _ in range(q(600, 8000))], None, co, name="without modulation")
    c.scenarios("TraceNoise", exe, [noise_scn(r, True) for _ in range(q(500, 6000))], None, co, name="with modulation")
    c.scenarios("TraceNoise", exe, [noise_scn(r, k % 2 == 0, True) for k in range(q(300, 4000))], None, corrupt({}, 0, SEED), name="failing allocations")
    c.scenarios("TraceNoise", exe, [noise_scn(r, k % 2 == 0, k % 3 == 0, via=k % 4 // 2, unusable=True) for k in range(q(100, 1000))], None, unusable_control, name="without amplitudes")
    exe3 = core.build("noise_drv.c", defs=("-Dsp_channel_count_limit=4",))
    c.scenarios("TraceNoise", exe3, [noise_scn(r, k % 2 == 0, limit=4) for k in range(q(250, 3000))], None, co, name="more channels")
    return c.finish()



def path_scn(r, frac=False, high=False):
    n = r.choice((2, 3, 3, 4, 4, 5, 5, 7, 12)); ln = r.choice((8, 16, 32, 64)); curved = r.random() < 0.5
    if n > 7: ln = 64
    def points():
        pos = range(1, ln * 8) if frac else range(8, ln * 8, 8)
        m = n - 2
        if m > len(pos): return None
        x = sorted(r.sample(list(pos), m)); y = [r.randrange(0, 13)]
        while len(y) < n:
            v = r.randrange(0, 13)
            if curved and v == y[-1]: continue
            y.append(v)
        c = [r.choice((0, 1, 2, 3, 4, -1, -2, -4)) if curved else 0 for _ in range(n - 1)]
        return x, y, c
    x, y, c = points()
    zero = r.random() < 0.5
    if zero and n > 2:
        y[0] = y[-1] = 0
        if curved and (y[1] == 0 or y[-2] == 0): y = [0] + [1 + (k * 5) % 7 + k % 2 * 4 for k in range(n - 2)] + [0]
        if curved and any(a == b for a, b in zip(y, y[1:])): c = [0] * (n - 1)
    ins = []
    vs = [0, 10]
    if n <= 5: vs += [1, 11]
    if n > 2 and y[0] == 0 and y[-1] == 0: vs += [20] + ([21] if n <= 5 else [])
    if n > 2: vs += [30] + ([31] if n <= 5 and not any(c) else [])
    if n > 2: vs += [40] + ([41] if n <= 5 and not any(c) else [])
    K = r.choice((17, 100, 1024, 2047, 2048))
    for v in vs:
        if not high: ins += [1, v, ln, n] + x + y + c
        elif v not in (20, 21): ins += [4, K, 1, v, ln, n] + x + y + c
    return {"in": ins, "head": {"segs": []}}


def reads_scn(r, frac=False):
    """segments of all types, read in parts in different orders"""
    def seq(depth, x0, y0, maxn):
        segs = []; code = []; x, y = x0, y0; n = r.randrange(1, maxn + 1); ends = False
        for k in range(n):
            t = r.choice((0, 1, 1, 2, 3, 3, 4, 5, 1 if frac else 6)) if depth == 0 else r.choice((1, 1, 3, 4))
            if t == 2 and k + 1 < n: t = 1
            w = r.choice((1, 2, 3, 5, 9, 20)) * 8 + (r.randrange(8) if frac else 0); x2 = x + w; y2 = r.randrange(-12, 13)
            if t == 0 and k: t = 1
            if t == 0:
                code += [0, x2 - x0, y2]; segs.append(["move", x, 0, x2, 0])
            elif t == 1: code += [1, x2 - x0, y2]; segs.append(["line", x, y, x2, y2])
            elif t == 2: code += [2]; segs.append(["const", x, y, x + 400, y]); x = x + 400; ends = True; break
            elif t == 3:
                if y2 == y: y2 += 1
                cu = r.choice((-4, -2, 0, 1, 3, 4))
                code += [3, x2 - x0, y2, cu]; segs += [["line", x, y, x2, y2]] if not cu else []; segs += [["hull", x, min(y, y2), x2, max(y, y2)]]
            elif t in (4, 5) and r.random() < 0.5:
                k2 = t - 3; w = (t - 2) * (r.randrange(8, 61 if t == 4 else 41) if frac else 8 * r.randrange(1, 9 if t == 4 else 6)); x2 = x + w
                cy = [r.randrange(-12, 13) for _ in range(k2)]; code += [t]
                for i in range(k2): code += [x + w // (t - 2) * (i + 1) - x0, cy[i]]
                code += [x2 - x0, y2]; segs += [["curve", x, min([y, y2] + cy), x2, max([y, y2] + cy), [y] + cy + [y2]], ["hull", x, min([y, y2] + cy), x2, max([y, y2] + cy)]]
            elif t in (4, 5):
                k2 = t - 3; cx = sorted(r.randrange(x, x2 + 1) for _ in range(k2)); cy = [r.randrange(-12, 13) for _ in range(k2)]
                code += [t]
                for a, b in zip(cx, cy): code += [a - x0, b]
                code += [x2 - x0, y2]; segs += [["hull", x, min([y, y2] + cy), x2, max([y, y2] + cy)]]
            else:
                c2, s2, x2, y2, _ = seq(1, x, 0, 3); code += [6] + c2
                segs += s2
            x, y = x2, y2
        cnt = 0; i = 0
        return [len_code(code)] + code, segs, x, y, ends
    def len_code(code):
        i = 0; n = 0
        def skip(i):
            t = code[i]; i += 1
            if t == 6:
                m = code[i]; i += 1
                for _ in range(m): i = skip(i)
                return i
            return i + {0: 2, 1: 2, 2: 0, 3: 3, 4: 4, 5: 6}[t]
        while i < len(code): i = skip(i); n += 1
        return n
    code, segs, end, y, con = seq(0, 0, 0, 6)
    fin = [end - 400 if con else end, y]
    size = end // 8
    reads = [(1, 0, size)]
    for k in range(2):
        p = 0; d = division(r, size)
        for b in d: reads.append((1 if p == 0 else 0, p, p + b)); p += b
    for _ in range(6):
        a = r.randrange(size); reads.append((r.randrange(4) == 0, a, r.randrange(a, size + 1)))
    ins = [2] + code + [len(reads)]
    for a, b, c in reads: ins += [r.choice((1, 1, 2, 3)) if a else 0, b, c]
    return {"in": ins, "head": {"segs": segs, "fin": fin}}


def long_path_scn(r, high=False, huge=False):
    v = r.choice((0, 0, 10)); ln = (1 << 24) + r.choice((3, 5, 17)) if huge else r.choice((70000, 100000, 131072, 200000)); n = r.choice((2, 3, 4, 6)); ins = ([4, r.choice((17, 1024, 2048))] if high else []) + [3, v, ln, n]
    xs = sorted(r.sample(range(1, ln), n - 2)); y = [r.randrange(0 if v else -9, 10) for _ in range(n)]; cs = [r.choice((0, 0, 0, 2, 4, -3)) for _ in range(n - 1)]
    if huge: y = [(y[0] + k) % 2 for k in range(n)]; cs = [0] * (n - 1)
    for k in range(n - 1):
        if y[k] == y[k + 1]: cs[k] = 0
    pos = set(r.randrange(ln - 12) for _ in range(4)) | {max(0, min(ln - 12, x + r.choice((-6, -1, 0, 1)))) for x in xs + [0, ln, 32767, 65535, 65536]}
    pos = sorted(pos)
    if r.random() < 0.4: r.shuffle(pos)
    return {"in": ins + xs + y + cs + [len(pos)] + pos, "head": {}}


def long_control(tr):
    r = random.Random(SEED); out = []
    for t in tr[:16]:
        t = copy.deepcopy(t); w = r.choice(t["ev"][0]["w"]); v = w[1][0] if isinstance(w[1][0], list) else w[r.choice((1, 2))]; v[r.randrange(8)] += r.choice((1, -1)) * 60000; out.append(t)
    return out


def C16():
    c = Check("C16"); r = random.Random(SEED + 16); exe = core.build("path_drv.c")
    for size, sg, rd in q(((5, 3, 3), (6, 4, 2)), ((7, 4, 3), (6, 5, 3))):
        c.model("MC_Path", cfg_text="SPECIFICATION Spec\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\nCONSTANTS Size=%d\n Segments=%d\n Reads=%d\n ResetBack=TRUE\n" % (size, sg, rd))
    co = corrupt({"path": "out", "get": "out"}, 60000, SEED)
    c.scenarios("TracePath", exe, [path_scn(r) for _ in range(q(2000, 25000))], None, co, name="points")
    c.scenarios("TracePath", exe, [path_scn(r, True) for _ in range(q(700, 8000))], None, co, name="points between positions")
    c.scenarios("TracePath", exe, [path_scn(r, k % 3 == 2, True) for k in range(q(500, 5000))], None, co, name="large values")
    c.scenarios("TracePath", exe, [long_path_scn(r, k % 3 == 2) for k in range(q(150, 1500))] + [long_path_scn(r, huge=True) for _ in range(q(4, 16))], None, long_control, name="long paths")
    c.scenarios("TracePath", exe, [reads_scn(r) for _ in range(q(1500, 20000))], None, co, name="reads in parts")
    c.scenarios("TracePath", exe, [reads_scn(r, True) for _ in range(q(700, 8000))], None, co, name="reads in parts between positions")
    return c.finish()


PROPS = {"C14": C14, "C15": C15, "C16": C16}
