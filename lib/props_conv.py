import random, copy, re
import core
from core import Check, SEED
from props_seq import q, THOROUGH

IRS = [[1], [1, 3, 2, 5], [2, 0, 1], [0, 4], [0, 0, 0, 0, 7]]
INS = [[1], [1, 2], [3, 1, 2, 1], [1, 0, 2], [0, 1, 0, 2, 5, 1], []]


def filt(x, f, ir, inp, irfail=0, af=0, extra=()):
    a = [len(ir)] + ir + list(extra)
    return [1, x, f, len(a)] + a + [len(inp)] + inp + [irfail, af]


def flush(x, n):
    """read the rest of the tail"""
    return filt(x, 0, [1], [0] * n)


def corrupt(seed):
    def f(tr):
        r = random.Random(seed); out = []
        for _ in range(2000):
            if len(out) >= 16 or not tr: break
            t = copy.deepcopy(r.choice(tr)); k = r.randrange(len(t["ev"])); e = t["ev"][k]
            if e["e"] in ("fe", "cv", "ma") and e.get("out"):
                j = r.randrange(len(e["out"])); e["out"][j] += r.choice((1, -1)) * (1 if t["tol"] == 0 else 500)
            elif e["e"] == "ir" and r.random() < 0.3: t["ev"].insert(k, dict(e))
            elif e["e"] == "end": e["live"] += 1
            elif e["e"] == "irf": e["len"] += 2
            else: continue
            out.append(t)
        return out
    return f


def rseq(r, n, lim=9): return [r.randrange(-lim, lim + 1) for _ in range(n)]


def mc(c, depth, nir, nin, limit, r):
    res = c.model("MC_Convolve", cfg_text="SPECIFICATION Spec\nINVARIANTS SameOutput SameTail\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d\n NIr=%d\n NIn=%d\n KeepRest=TRUE\n" % (depth, nir, nin))
    hs = [[tuple(int(v) for v in p) for p in re.findall(r"<<(\d+), (\d+)>>", m)] for m in re.findall(r'<<"SCN", (<<.*?>>)>>\n', res.text)]
    if len(hs) != (nir * nin) ** depth: raise core.Error("expected %d histories, got %d" % ((nir * nin) ** depth, len(hs)))
    if len(hs) > limit: hs = r.sample(hs, limit)
    return hs


def hist_items(hs):
    out = []
    for k, h in enumerate(hs):
        ins = [1]
        for a, b in h: ins += filt(0, k % 2, IRS[b - 1], INS[a - 1])
        ins += flush(0, 6) + [5, 0]
        out.append({"in": ins, "head": {"tol": 0}})
    return out


def conv_hist_items(hs):
    out = []
    for h in hs:
        ins = [1]
        for a, b in h: ins += [2, 0, len(IRS[b - 1])] + IRS[b - 1] + [len(INS[a - 1])] + INS[a - 1]
        out.append({"in": ins, "head": {"tol": 0}})
    return out


def seg_scn(r):
    """one signal in segments, one impulse response"""
    ir = rseq(r, r.choice((1, 2, 3, 4, 5, 8, 13, 20))); ins = [1]
    raw = r.random() < 0.5
    for _ in range(r.randrange(1, 8)):
        s = rseq(r, r.choice((0, 1, 1, 2, 3, 4, 7, 12, 25)))
        ins += [2, 0, len(ir)] + ir + [len(s)] + s if raw else filt(0, 0, ir, s)
    if not raw: ins += flush(0, r.choice((1, 5, 30))) + [5, 0]
    return {"in": ins, "head": {"tol": 0}}


def sinc_call(r, x, n):
    s = rseq(r, n, 4)
    if r.random() < 0.5: return [3, x, r.choice((50, 100, 250, 400)), r.choice((110, 200, 310, 500)), r.randrange(2), len(s)] + s + [0]
    return [4, x, r.choice((0, 50, 100, 200)), r.choice((150, 300, 500)), r.choice((200, 310, 500)), r.choice((200, 310, 500)), r.randrange(2), len(s)] + s + [0]


def sinc_scn(r, change):
    ins = [10000000]; call = None
    for _ in range(r.randrange(2, 6)):
        n = r.choice((0, 1, 3, 8, 17, 30))
        if call is None or (change and r.random() < 0.4): call = sinc_call(r, 0, 0)
        elif change and r.random() < 0.8:
            # one parameter only
            k = r.randrange(2, 5 if call[0] == 3 else 7); call = list(call); flag = k == (4 if call[0] == 3 else 6)
            call[k] = 1 - call[k] if flag else call[k] + r.choice((1, 7, -3)) if call[k] > 10 else r.choice((0, 20))
        s = rseq(r, n, 4)
        ins += call[:-2] + [len(s)] + s + [0]
    ins += call[:-2] + [40] + [0] * 40 + [0, 5, 0]
    return {"in": ins, "head": {"tol": 150}}


def change_scn(r, fails=False):
    """changing functions and parameters, several states"""
    ins = [1]; prev = {}; nx = r.choice((1, 1, 2, 3))
    for _ in range(r.randrange(2, 11)):
        x = r.randrange(nx); m = r.random()
        if x in prev and m < 0.3: f, ir, ex = prev[x]
        elif x in prev and m < 0.45: f, ir, ex = 1 - prev[x][0], prev[x][1], prev[x][2]
        elif x in prev and m < 0.6: f, ir, ex = prev[x][0], prev[x][1], rseq(r, r.randrange(0, 4))
        elif x in prev and m < 0.7:
            f, ir, ex = prev[x]; ir = list(ir); ir[-1] += 1
        else: f, ir, ex = r.randrange(2), rseq(r, r.choice((1, 1, 2, 3, 5, 9, 14))), rseq(r, r.choice((0, 0, 0, 1, 3, 60, 200)))
        s = rseq(r, r.choice((0, 1, 1, 2, 3, 4, 7, 12)))
        irf = af = 0
        if fails and r.random() < 0.4:
            if r.random() < 0.5: irf = r.randrange(1, 90)
            else: af = r.randrange(1, 6)
        prev[x] = (f, ir, ex)
        ins += filt(x, f, ir, s, irf, af, ex)
        if r.random() < 0.05: ins += [5, x]; prev.pop(x)
    for x in range(nx):
        if x in prev: ins += flush(x, r.choice((1, 6, 20)))
        ins += [5, x]
    return {"in": ins, "head": {"tol": 0}}


def long_scn(r):
    """more than 65536 positions, coefficients or values in a segment"""
    n = r.randrange(1, 7); m = r.randrange(1, 7); mode = r.randrange(2)
    if r.random() < 0.6: L = r.choice((1, 2, 7, 20)); sizes = r.choice(([70000, 66000], [40000] * 3, [1, 65536, 5, 65537, 3], [30, 100000, 40], [65535, 2, 9])); lim = sum(sizes)
    else: L = r.choice((40000, 66000)); lim = r.choice((1, 3, 12)); sizes = r.choice(([lim, 50, 3, 200], [lim + 20, 300], [lim] + [8] * 20 + [500]))
    total = sum(sizes); pos = {0, total - 8, r.randrange(total - 8)}; p = 0
    for v in sizes[:-1]: p += v; pos |= {max(0, min(total - 8, p - r.randrange(0, 9)))}
    for v in (32768, 65536):
        if v < total - 8: pos.add(v - 4)
    return {"in": [1, 9, mode, n, L] + rseq(r, n) + [m, lim] + rseq(r, m) + [len(sizes)] + sizes + [len(pos)] + sorted(pos), "head": {"tol": 0}}


def long_control(tr):
    r = random.Random(SEED); out = []
    for t in tr[:12]: t = copy.deepcopy(t); r.choice(t["ev"][0]["w"])[1][r.randrange(8)] += r.choice((1, -1)); out.append(t)
    return out


def C11():
    c = Check("C11"); r = random.Random(SEED + 11); exe = core.build("conv_drv.c")
    hs = mc(c, q(3, 4), q(4, 5), q(4, 6), q(2500, 30000), r)
    c.scenarios("TraceConv", exe, hist_items(hs) + conv_hist_items(hs), None, corrupt(SEED), name="histories of MC_Convolve")
    c.scenarios("TraceConv", exe, [seg_scn(r) for _ in range(q(3000, 40000))], None, corrupt(SEED + 1), name="segmented signals")
    c.scenarios("TraceConv", exe, [long_scn(r) for _ in range(q(80, 800))], None, long_control, name="long streams and impulse responses")
    c.scenarios("TraceConv", exe, [sinc_scn(r, False) for _ in range(q(250, 3000))], None, corrupt(SEED + 2), name="windowed sinc in segments")
    return c.finish()


def irf_items(r):
    out = []
    for k in (0, 1):
        for lo in (200, 230, 250, 270, 300):
            for t in (80, 100, 133, 150, 200): out.append([1, 7, k, lo, 0, t, 0])
    for k in (2, 3):
        for lo in (0, 180, 200, 220):
            for hi in (280, 300, 320, 500):
                for t in (60, 70, 80, 100):
                    for t2 in (60, 90, 100): out.append([1, 7, k, lo, hi, t, t2])
    return [{"in": i, "head": {"tol": 0}} for i in out]


def C12():
    c = Check("C12"); r = random.Random(SEED + 12); exe = core.build("conv_drv.c")
    hs = mc(c, 3, q(5, 5), q(4, 6), q(2000, 30000), r)
    c.scenarios("TraceConv", exe, hist_items(hs), None, corrupt(SEED), name="histories of MC_Convolve")
    c.scenarios("TraceConv", exe, [change_scn(r) for _ in range(q(2500, 30000))], None, corrupt(SEED + 1), name="changing functions and parameters")
    c.scenarios("TraceConv", exe, [change_scn(r, True) for _ in range(q(1500, 20000))], None, corrupt(SEED + 3), name="failures")
    c.scenarios("TraceConv", exe, [sinc_scn(r, True) for _ in range(q(250, 3000))], None, corrupt(SEED + 2), name="windowed sinc with changes")
    c.scenarios("TraceConv", exe, irf_items(r), None, corrupt(SEED), name="windowed sinc impulse responses")
    return c.finish()


def ma(r, n, rad, prev, nxt, vals=None):
    v = vals or rseq(r, n, 50); i = [6, rad, n] + v
    i += [2] if prev == 2 else [1] + rseq(r, n, 50) if prev else [0]
    i += [2] if nxt == 2 else [1] + rseq(r, rad, 50) if nxt else [0]
    return i


def C13():
    c = Check("C13"); r = random.Random(SEED + 13); exe = core.build("conv_drv.c")
    for n, rad in q(((6, 1), (7, 2)), ((8, 1), (8, 2), (9, 3))):
        c.model("MC_Average", cfg_text="SPECIFICATION Spec\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n Rad=%d\n Vals={0,1,3}\n" % (n, rad))
    items = []
    for rad in range(0, 6):
        for n in range(2 * rad + 1, 2 * rad + 12):
            for p in (0, 1):
                for x in (0, 1):
                    for _ in range(q(12, 100)): items.append({"in": [1] + ma(r, n, rad, p, x), "head": {"tol": 0}})
    # the input as its own previous or next segment
    for _ in range(q(500, 5000)):
        rad = r.randrange(0, 6); p, x = r.choice(((0, 2), (2, 0), (1, 2), (2, 1), (2, 2), (2, 2)))
        items.append({"in": [1] + ma(r, 2 * rad + 1 + r.randrange(0, 12), rad, p, x), "head": {"tol": 0}})
    # windows wider than small integer types
    for _ in range(q(30, 300)):
        rad = r.choice((63, 64, 127, 128, 129, 140, 200, 255, 256)); n = 2 * rad + 1 + r.randrange(0, 40)
        items.append({"in": [1] + ma(r, n, rad, r.randrange(2), r.randrange(2)), "head": {"tol": 0}})
    for rad in (0, 1, 16383, 16384, 32767, 32768, 40000):
        for p in (0, 1):
            for x in (0, 1): items.append({"in": [1, 8, rad, 2 * rad + 1 + r.randrange(2000), p, x], "head": {"tol": 0}})
    # a long signal whole and in segments of equal size
    for _ in range(q(400, 5000)):
        rad = r.randrange(0, 5); n = r.randrange(2 * rad + 1, 2 * rad + 9); parts = r.randrange(2, 5); v = rseq(r, n * parts, 50)
        i = [1] + [6, rad, n * parts] + v + [0, 0]
        for k in range(parts):
            i += [6, rad, n] + v[n * k:n * k + n]
            i += [1] + v[n * (k - 1):n * k] if k else [0]
            i += [1] + v[n * (k + 1):n * (k + 1) + rad] if k + 1 < parts else [0]
        items.append({"in": i, "head": {"tol": 0}})
    c.scenarios("TraceConv", exe, items, None, corrupt(SEED), name="averages")
    return c.finish()


PROPS = {"C11": C11, "C12": C12, "C13": C13}
