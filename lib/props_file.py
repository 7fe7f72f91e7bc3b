"""C17 wav files, C18 rendering"""
import os, random, struct, shutil, tempfile
import core
from core import Check
from props_gen import corrupt, q, SEED, division


def scratch():
    d = os.path.join(core.WORK, "scratch-%d" % os.getpid()); os.makedirs(d, exist_ok=True); os.environ["VT_SCRATCH"] = core.RUN_ENV["VT_SCRATCH"] = d
    return d


def sample(r):
    k = r.randrange(10)
    if k == 0: return [0, 0]
    if k == 1: return [r.choice((1, -1)), r.randrange(-20, 20)]
    if k == 2: return [r.choice((-1, 1)) * (2 * r.randrange(1 << 23, 1 << 24) + 1), r.randrange(-30, 5)]      # ties
    if k == 3: return [r.choice((-1, 1)) * r.choice(((1 << 25) - 1, (1 << 26) - 1, (1 << 25) - 3, (1 << 29) - 1)), r.randrange(-30, 5)]
    if k in (4, 5, 6): return [r.randrange(-(1 << 23), 1 << 23), -23]
    return [r.randrange(-(1 << 30) + 1, 1 << 30), r.randrange(-60, 10)]


def write_scn(r, fail=False, large=False):
    ins = []
    for _ in range(r.choice((1, 1, 2))):
        path = r.choice((0, 0, 0, 0, 0, 0, 1, 2)); ch = r.choice((1, 1, 2, 2, 3, 4, 9)); rate = r.choice((1, 10, 44100, 48000, 96000, 1 << 20))
        chunks = [r.choice((0, 1, 1, 2, 3, 5, 8)) for _ in range(r.randrange(0, 6))]
        if large: ch = r.choice((1, 2, 3)); m = 1900 // ch; chunks = r.choice(([m - 30, 30], [m], [m // 2, 1, m // 3], [m // 4] * 4))
        ins += [1, path, ch, rate, r.choice((0, 100)) + r.randrange(1, 12) if fail else 0, len(chunks)]
        for n in chunks:
            ins.append(n)
            for _ in range(n * ch): ins += sample(r)
        if path == 0:
            for _ in range(r.choice((1, 2))):
                total = sum(chunks); reads = [r.choice((0, 1, 2, 3, 5, 7, 40)) for _ in range(r.randrange(0, 5))] if r.random() < 0.5 else division(r, total + 1) + [3, 1] if total else [1, 1]
                ins += [2, 0, r.randrange(1, 10) if fail else 0, len(reads)] + reads
    if r.random() < 0.2: ins += [2, r.choice((2, 3)), 0, 1, 3]
    return {"in": ins, "head": {}}


def long_scn(r):
    ch = r.choice((1, 1, 2, 3)); n = r.randrange(1, 7); R = r.choice((50000, 70000, 140000)) // n // ch; N = n * R; ins = [5, ch, r.choice((8000, 96000, 1 << 24)), n, R]
    for _ in range(n * ch): ins += sample(r)
    def parts(): return r.choice(([N], [N - 1, 1], [N // 3, N - N // 3], [4096] * (N // 4096) + [N % 4096]))
    w = parts(); d = parts(); d = r.choice((d, d + [1], d[:-1] + [d[-1] + 5, 2]))
    return {"in": ins + [len(w)] + w + [len(d)] + d, "head": {}}


def wav(r, extra, frames, ch, size_field=16):
    data = b"".join(struct.pack("<f", r.choice((0.0, 1.0, -1.0, r.uniform(-2, 2)))) for _ in range(frames * ch))
    ex = b"".join(r.choice((b"LIST", b"fact", b"dat ", b"PEAK")) + struct.pack("<I", n) + bytes(r.randrange(256) for _ in range(n)) for n in extra)
    body = b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 3, ch, 8000, 8000 * ch * 4, ch * 4, 32) + ex + b"data" + struct.pack("<I", len(data)) + data
    return b"RIFF" + struct.pack("<I", len(body)) + body


def read_items(r, n):
    items = []
    def add(b, fail=0, reads=None):
        reads = reads or [r.choice((1, 2, 3, 5, 0)) for _ in range(r.randrange(1, 7))]
        items.append({"in": [2, 1, len(b)] + list(b) + [fail, len(reads)] + reads, "head": {}})
    for extra in ([], [4], [0, 2]):                # all prefixes
        b = wav(r, extra, 3, 2)
        for k in range(len(b) + 1): add(b[:k])
    fields = [(0, 4), (8, 4), (12, 4), (20, 2), (34, 2), (36, 4)]
    for k in range(n):
        b = bytearray(wav(r, [r.choice((0, 2, 4, 6, 10, 44)) for _ in range(r.choice((0, 0, 1, 2, 3)))], r.randrange(0, 9), r.choice((1, 1, 2, 3, 8, 200))))
        x = r.randrange(5)
        if x == 0: f = r.choice(fields); b[f[0] + r.randrange(f[1])] ^= 1 << r.randrange(8)
        elif x == 1: b[22] = b[23] = 0
        elif x == 2: b = b[:r.randrange(len(b) + 1)]
        add(b, r.randrange(1, 9) if r.randrange(6) == 0 else 0)
    return items


def gap_scn(r):
    """a large chunk before the data"""
    extra = [r.choice((0, 4, 10)) for _ in range(r.randrange(3))]; ch = r.choice((1, 2, 3)); b = bytearray(wav(r, extra + [r.choice((0, 2, 8))], r.randrange(1, 9), ch))
    at = 36
    for n in extra: at += 8 + n
    n = r.choice((1000, 4096, 32768, 65535, 65536, 65540, 70000, 100000, 131072, 300000)); size = struct.unpack("<I", b[at + 4:at + 8])[0]; b[at + 4:at + 8] = struct.pack("<I", size + n)
    reads = [r.choice((1, 2, 3, 5)) for _ in range(r.randrange(1, 6))]
    return {"in": [2, 4, len(b)] + list(b) + [at + 8, n, 0, len(reads)] + reads, "head": {}}


def inter_scn(r):
    ch = r.randrange(1, 6); n = r.choice((0, 1, 2, 3, 9))
    return {"in": [4, ch, n] + [r.randrange(-99, 100) for _ in range(ch * n)], "head": {}}


def file_control(tr):
    """changed bytes, sizes and samples have to be rejected"""
    import copy
    out = []; rr = random.Random(SEED)
    for t in tr:
        if len(out) >= 24: break
        if rr.random() < 0.6: continue
        t = copy.deepcopy(t); ok = False
        for e in t["ev"]:
            if e["e"] == "written" and e["open"] and rr.random() < 0.5: k = rr.randrange(len(e["bytes"])); e["bytes"][k] ^= 1 << rr.randrange(8); ok = True; break
            if e["e"] == "read" and e["x"] and e["x"][0] and e["x"][0][0]: e["x"][0][0][rr.randrange(4)] ^= 4; ok = True; break
            if e["e"] == "long": k = rr.choice(("len", "rep", "brep", "w")); e[k] += 1; ok = True; break
            if e["e"] == "inter" and e["b"]: e["b"][0] += 1; ok = True; break
        if ok: out.append(t)
    return out


def C17():
    c = Check("C17"); r = random.Random(SEED + 17); exe = core.build("file_drv.c", io=True); d = scratch()
    try:
        for fr, ex, mp in q(((4, 2, 2), (3, 1, 3)), ((5, 2, 3), (4, 3, 2))):
            c.model("MC_File", cfg_text="SPECIFICATION Spec\nINVARIANTS Sizes Same Opened\nCHECK_DEADLOCK FALSE\nCONSTANTS Frames=%d\n Extra=%d\n MaxPart=%d\n NoSeek=FALSE\n" % (fr, ex, mp))
        c.scenarios("TraceFile", exe, [write_scn(r) for _ in range(q(1200, 15000))], None, file_control, name="written and read back")
        c.scenarios("TraceFile", exe, [write_scn(r, large=True) for _ in range(q(60, 500))], None, file_control, name="larger files")
        c.scenarios("TraceFile", exe, [long_scn(r) for _ in range(q(60, 500))], None, file_control, name="long files")
        c.scenarios("TraceFile", exe, [write_scn(r, True) for _ in range(q(700, 8000))], None, None, name="failing operations")
        c.scenarios("TraceFile", exe, read_items(r, q(1200, 15000)), None, file_control, name="foreign and damaged files")
        c.scenarios("TraceFile", exe, [gap_scn(r) for _ in range(q(120, 1000))], None, file_control, name="large chunks before the data")
        c.scenarios("TraceFile", exe, [inter_scn(r) for _ in range(q(300, 3000))], None, file_control, name="interleaving")
    finally: shutil.rmtree(d, ignore_errors=True)
    return c.finish()


def render_scn(r, fail=0):
    """fail: 1 callbacks, 2 allocations and file operations"""
    fn = r.randrange(5); ch = r.choice((1, 1, 2)); rate = r.choice((1, 3, 5, 10) if fn == 2 else (1, 3, 5, 10, 44, 96, 1000)) if fn in (2, 3) else r.choice((5, 48000)); bs = r.choice((1, 2, 3, 5, 7, 10, 16, 64))
    leaves = []; fails = []
    def gen():
        leaves.clear()
        def t(depth, base):
            k = 0 if depth >= 3 else r.choice((0, 1, 1, 2)) if depth == 0 else r.choice((0, 0, 0, 1, 2))
            if k == 0:
                s = r.choice((0, 0, 1, 3, 8)); d = r.choice((1, 2, 5, 9, 20, 33)); z = d if r.random() < 0.25 else 0
                leaves.append([base + s, base + s + d, s, s + d, z]); return [0], s + d, z
            n = r.choice((1, 2, 3)); code = []; end = 0; st = r.choice((0, 0, 2, 6)) if depth else 0
            for _ in range(n):
                c, e, z = t(depth + 1, base + st + (end if k == 2 else 0)); code += c
                end = max(end, e) if k == 1 else end + e
            return [k, n, st] + code, end + st, 0
        return t(0, 0)
    while True:
        code, total, z = gen()
        if len(leaves) <= 12 and (fn in (2, 3) or not z): break
    start = r.choice((0, 0, 1, 4, 10)); end = start + r.choice((0, 1, 5, 12, 20, 40, 65, bs, 2 * bs, 3 * bs + 1))
    fl = [[0, 0] for _ in leaves]
    if fail == 1: k = r.randrange(len(leaves)); fl[k] = [1, 0] if r.random() < 0.4 else [0, r.choice((1, 1, 2, 3))]
    runs = list(range(0, 24)) if fail == 2 else [0]
    ins = [fn, ch, rate, bs, start, end, len(leaves)]
    for l, f in zip(leaves, fl): ins += [l[2], l[3], l[4]] + f
    ins += [len(runs)] + runs + code
    return {"in": ins, "head": {"fn": fn, "ch": ch, "rate": rate, "bs": rate * 4 if fn == 2 else bs, "start": start, "end": end, "total": total, "unset": 0 if z else total, "leaves": [l[:2] for l in leaves]}}


def long_render_scn(r):
    """ranges of thousands of samples and late positions"""
    fn = r.choice((0, 1, 2, 4)); ch = r.choice((1, 2)); rate = r.choice((8000, 44100)) if fn == 2 else 5 if fn < 2 else 48000; bs = r.choice((1000, 4096, 65536, 65537, 96000))
    base = 0 if fn == 2 else r.choice((0, 0, 60000, 1 << 24, (1 << 24) + 1, 2000000001)); leaves = []; code = []; end = 0
    for _ in range(r.choice((1, 2, 3, 5))):
        s = r.choice((0, 1, 100, 65535, 66000, r.randrange(90000))); d = r.choice((1, 50, 300, 65536, 70000, r.randrange(1, 150000))); leaves.append([base + s, base + s + d, s, s + d, 0]); code += [0]; end = max(end, s + d)
    code = [1, len(leaves), base] + code; total = base + end
    start, stop = r.choice(((base, total), (base + end // 3, total), (base + 1, base + max(2, end - 5)), (base, total + 70000))) if fn != 2 else (0, total)
    if base and r.random() < 0.5: start = base - r.choice((1, 50, 3000))
    cuts = sorted({start} | {x for l in leaves for x in l[:2] if start < x < stop})
    ins = [fn, ch, rate, bs, start, stop, 100 + len(cuts)] + cuts + [len(leaves)]
    for l in leaves: ins += l[2:] + [0, 0]
    ins += [1, 0] + code
    return {"in": ins, "head": {"fn": fn, "ch": ch, "rate": rate, "bs": rate * 4 if fn == 2 else bs, "start": start, "end": stop, "total": total, "unset": total, "leaves": [l[:2] for l in leaves], "cuts": cuts}}


def render_control(tr):
    import copy
    out = []; rr = random.Random(SEED)
    for t in tr:
        if len(out) >= 24: break
        if rr.random() < 0.5: continue
        t = copy.deepcopy(t); k = rr.randrange(len(t["ev"])); e = t["ev"][k]
        if e["e"] == "rendered" and "segs" in e: e["segs"][-1][2 if rr.random() < 0.5 else 0] += 1
        elif e["e"] == "rendered" and e["bytes"]: e["bytes"][rr.randrange(len(e["bytes"]))] ^= 1
        elif e["e"] == "rendered" and e["out"] and e["out"][0]: e["out"][0][0] += 1
        elif e["e"] in ("free", "gen"): del t["ev"][k]
        else: continue
        out.append(t)
    return out


def C18():
    c = Check("C18"); r = random.Random(SEED + 18); exe = core.build("render_drv.c", io=True); d = scratch()
    try:
        for n, b in q(((7, 4), (9, 3)), ((12, 6), (16, 5))):
            c.model("MC_Render", cfg_text="SPECIFICATION Spec\nINVARIANTS Once Range Result Complete\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxEnd=%d\n MaxBlock=%d\n Remainder=TRUE\n" % (n, b))
        c.scenarios("TraceRender", exe, [render_scn(r) for _ in range(q(2500, 30000))], None, render_control, name="ranges")
        c.scenarios("TraceRender", exe, [long_render_scn(r) for _ in range(q(150, 1200))], None, render_control, name="long renderings and late positions")
        c.scenarios("TraceRender", exe, [render_scn(r, 1) for _ in range(q(1200, 15000))], None, None, name="failing events")
        c.scenarios("TraceRender", exe, [render_scn(r, 2) for _ in range(q(250, 3000))], None, None, name="failing allocations and file operations")
        import mixfam
        c.scenarios("TraceMix", core.build("mix_drv.c"), [mixfam.mix_scn(r, mode=2) for _ in range(q(1000, 10000))], None, mixfam.control(SEED), name="waves and noises in compositions")
    finally: shutil.rmtree(d, ignore_errors=True)
    return c.finish()


PROPS = {"C17": C17, "C18": C18}
