"""C20 array operations, C21 combinatorics, C22 random, C23 statistics"""
import itertools, random
import core
from core import Check
from props_gen import corrupt, q, SEED

T, S = 0, 1


def call(op, t, a=(), b=(), p=(), no=None, alias=0, i=1, o=None, exact=1):
    a, b, p = list(a), list(b), list(p)
    return [op, t, int(alias), i, i if o is None else o, exact, len(p)] + p + [len(a)] + a + [len(b)] + b + [len(a) if no is None else no]


def vals(r, n, t, big=False):
    m = r.random(); hi = r.choice((1, 3, 9, 1000)) if not big else 1000000
    lo = -hi if t else 0
    if m < 0.15: v = r.randrange(lo, hi + 1); return [v] * n
    a = [r.randrange(lo, hi + 1) for _ in range(n)]
    if m < 0.25: a.sort()
    elif m < 0.35: a.sort(reverse=True)
    return a


def size(r): return r.choice((1, 1, 2, 2, 3, 4, 5, 7, 8, 12, 20))


def one(r, op, t):
    """a random call of the operation"""
    n = size(r); a = vals(r, n, t); i = r.choice((1, 1, 2, 4)) if t else 1; lim = max(a + [2]); x = r.choice(a + [0, 1, lim, lim + 1]); K = 64
    al = r.random() < 0.3
    if op in (1, 2, 3, 12, 18): return call(op, t, a, no=1, i=i)
    if op == 5: v = r.choice(a); return call(op, t, [v] * n if r.random() < 0.5 else a, p=[v], no=1, i=i)
    if op in (4, 13, 61): return call(op, t, a, i=i)
    if op == 14: return call(op, t, a, i=i)
    if op in (7, 10, 11): return call(op, t, a, p=[x], i=i)
    if op == 6: return call(op, t, a, i=i, o=i * i)
    if op == 8: return call(op, t, a, p=[x], i=i, o=i * i)
    if op == 9: return call(op, t, a, p=[x or 3], i=i, o=i * (K if t else 1), exact=0)
    if op == 15: return call(op, t, a, p=[r.randrange(n), r.randrange(n)], i=i)
    if op in (16, 27): n = r.choice((n, 30, 100)); return call(op, t, vals(r, n, t), i=i)
    if op == 17: k = size(r); return call(op, t, [], p=[r.randrange(50), r.randrange(50)], no=k, i=i)
    if op == 19: s = r.randrange(n); e = r.randrange(s + 1, n + 1); return call(op, t, a, p=[s, e], no=e - s, i=i)
    if op in (20, 21, 22): return call(op, t, a, vals(r, n, t), [x], i=i)
    if op == 23: return call(op, t, a, vals(r, n, t), i=i, o=i * i)
    if op == 24: return call(op, t, a, [v or 7 for v in vals(r, n, t)], i=i, o=i * (K if t else 1), exact=0)
    if op in (25, 26): return call(op, t, a, vals(r, n, t), i=i)
    if op == 28: return call(op, t, [abs(v) for v in a], p=[r.choice((1, 2, 3, 5, 8, 100))], i=i)
    if op == 41: k = size(r); return call(op, 0, [r.randrange(n) for _ in range(k)], a, alias=al)
    if op == 90: k = size(r); return call(op, 0, a, [r.randrange(n) for _ in range(k)], no=k, alias=0)
    if op == 42:
        k = r.choice((1, 2, 7, 31, 32, 33, 40, 63, 64, 65, 96, 100)); m = (k + 31) // 32
        w = [r.choice((0, 1, -1, 1 << 30, -(1 << 31), r.randrange(-(1 << 31), 1 << 31))) for _ in range(m)]
        return call(op, 0, w, no=k, alias=al)
    if op == 43: return call(op, 0, a, p=[x], alias=al)
    if op == 44: n = r.choice((n, 31, 32, 33, 64, 70)); return call(op, 0, vals(r, n, 0))
    if op == 60: return call(op, 0, [], no=r.choice((1, 2, 31, 32, 33, 63, 64, 65, 100)))
    if op == 45: return call(op, 0, [], p=[r.randrange(100)], no=size(r))
    if op == 46: f = r.choice((1, 2, 3, 4, 7)); return call(op, 0, a, p=[f], no=(n - 1) * f)
    if op == 47 or op == 52: return call(op, 0, a, p=[r.choice((0, 1, 7, 100, 1000))], alias=al)
    if op == 48: b = r.choice((0, 1, 2, 3)); return call(op, 0, [], p=[r.randrange(20), b], no=r.randrange(1, 12))
    if op in (49, 40): return call(op, 0, a, p=[x], no=1)
    if op == 50: lo = r.choice(a + [0]); hi = r.choice(a + [lo, lo + 1, lim]); return call(op, 0, a, p=[lo, hi])
    if op == 51: return call(op, 0, a, p=[x])
    if op == 53:
        k = r.randrange(n); c = r.choice((1, n - k, r.randrange(n - k + 1))); c = min(c, n - k); return call(op, 0, a, p=[k, c], no=n - c)
    if op == 54: k = r.randrange(n); c = r.randrange(6); return call(op, 0, a, p=[k, c], no=n + c)
    if op == 55:
        n = max(2, n); a = sorted(r.randrange(1000) for _ in range(n)); k = r.randrange(n - 1); c = r.randrange(6); a[k + 1] = max(a[k + 1], a[k]); return call(op, 0, a, p=[k, c], no=n + c)
    if op in (56, 79): d = r.choice((1, 2, 4, 8)); return call(op, t, a, vals(r, n, t), [r.randrange(d + 1), d], i=i, o=i * d if t else 1)
    if op in (62, 63): b = vals(r, size(r), 0); return call(op, 0, a, b, no=len(a) if op == 62 else len(b))
    if op == 57: d = r.choice((1, 2, 4, 8)); return call(op, 0, a, vals(r, n, 0), [d] + [r.randrange(d + 1) for _ in range(n)])
    if op in (58, 59): return call(op, 0, a, i=1, o=1)
    if op in (70, 71): return call(op, 1, [abs(v) for v in a], i=i)
    if op == 72: return call(op, 1, a, i=i, o=2 * i)
    if op == 73: return call(op, 1, a, p=[r.choice((0, 1, 2, 9, 100))], i=i, o=K * i, exact=0)
    if op == 74: return call(op, 1, a, r.choice((vals(r, n, 1), [0] * n)), i=i, o=K * i, exact=0)
    if op == 75: n = max(2, n); return call(op, 1, vals(r, n, 1), i=i, no=n - 1)
    if op == 76: return call(op, 1, [], p=[r.randrange(-30, 30), r.choice((1, 2, 3, 5))], no=r.randrange(1, 9), i=i, o=i * K, exact=0)
    if op == 77: return call(op, 1, a, p=[r.choice((0, 1, 2, 9, 100, -3))], i=i, o=K * i, exact=0)
    if op == 78: return call(op, 1, a, p=[r.choice((0, 1, 2, 9, 100))], i=i, o=K * i, exact=0, alias=al)
    if op == 80: return call(op, 1, a, p=[r.choice((0, 1, -2, x, 3))], i=i, alias=al)
    if op == 81: return call(op, 1, a, p=[x], i=i)
    if op == 82: n = r.randrange(1, 9); return call(op, 1, [r.randrange(256) for _ in range(n)])
    if op == 83: return call(op, 1, a, no=1, i=i)
    raise Exception(op)


def large(r, op, t):
    """an array repeated until it is longer than counters of 8 or 16 bits"""
    n = r.choice((1, 2, 3, 4, 5, 7)); i = r.choice((1, 2, 4)) if t else 1
    for _ in range(200):
        c = one(r, op, t)
        np = c[6]; na = c[7 + np]
        if na > 12 or (not na and op not in (17, 45, 60)): continue
        if op == 42: c = call(42, 0, c[8 + np:8 + np + na], no=32 * na)
        if op == 19: c[7:9] = [0, na]; c[-1] = na
        if op == 53: c[7:9] = [0, 0]; c[-1] = na
        if op == 17: c[8] = 0
        if op == 14: a = [r.randrange(-9, 9) for _ in range(n)]; c = call(14, 1, a + [-sum(a)], i=c[3])
        n1 = max(1, c[7 + c[6]]); R = -(-r.choice((255, 256, 257, 300, 65535, 65536, 65537, 70000)) // n1)
        c[2] = (0 if op in (41, 43) else c[2] & 1) + 2 * max(2, R)
        return c
    raise Exception("large %d" % op)


LARGE = [(o, t) for t in (T, S) for o in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 61)] + [(o, T) for o in (40, 41, 42, 43, 45, 47, 49, 50, 51, 52, 53, 56, 57, 58, 59, 60)] + [(o, S) for o in (14, 70, 71, 72, 73, 74, 77, 78, 79, 80, 81, 83)]


def high(r, op):
    """times in the upper half of their range"""
    n = size(r); M = 1 << 31; v = lambda: r.choice((-M, M - 1, 0, -1, 1, r.randrange(-M, M), r.randrange(-M, M)))
    a = [v() for _ in range(n)]; x = r.choice(a + [v()]); y = r.choice(a + [v()])
    if op in (1, 2, 18): return call(op, 0, a, no=1, i=2)
    if op in (4, 13, 16, 27): return call(op, 0, a, i=2)
    if op == 5: return call(op, 0, [x] * n if r.random() < 0.6 else a, p=[x], no=1, i=2)
    if op == 49: return call(op, 0, a, p=[x], no=1, i=2)
    if op == 15: return call(op, 0, a, p=[r.randrange(n), r.randrange(n)], i=2)
    if op == 19: s = r.randrange(n); e = r.randrange(s + 1, n + 1); return call(op, 0, a, p=[s, e], no=e - s, i=2)
    if op in (43, 51, 10): return call(op, 0, a, p=[x], i=2)
    if op == 50: return call(op, 0, a, p=[min(x, y), max(x, y)], i=2)
    k = r.randrange(n); c = r.randrange(n - k + 1); return call(53, 0, a, p=[k, c], no=n - c, i=2)


PRECISE = [1, 2, 3, 4, 5, 7, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 25, 26, 27, 28, 72, 75, 80, 81]


def precise(r, op, t):
    """values with more significant digits than single precision has"""
    n = r.choice((1, 2, 3, 4, 5)); M = 300000000; lo = -M if t else 0; v = lambda: r.randrange(lo, M); a = [v() for _ in range(n)]; b = [v() for _ in range(n)]; x = r.choice(a + [v()])
    if op in (1, 2, 3, 18): return call(op, t, a, no=1)
    if op in (4, 13, 16, 27, 14): return call(op, t, a)
    if op == 5: return call(op, t, [x] * n if r.random() < 0.6 else a, p=[x + r.choice((0, 0, 1))], no=1)
    if op in (7, 10, 11, 81): return call(op, t, a, p=[x])
    if op == 80: return call(op, t, a, p=[x])
    if op == 15: return call(op, t, a, p=[r.randrange(n), r.randrange(n)])
    if op == 17: return call(op, t, [], p=[v(), r.randrange(M)], no=n)
    if op == 19: s = r.randrange(n); e = r.randrange(s + 1, n + 1); return call(op, t, a, p=[s, e], no=e - s)
    if op in (20, 21, 22): return call(op, t, a, b, [x])
    if op in (25, 26): return call(op, t, a, b)
    if op == 28: return call(op, t, [abs(k) for k in a], p=[r.choice((1, 2, 3, 7, 1000))])
    if op == 72: return call(op, t, a, o=2)
    return call(75, 1, a + [v()], no=n)


INF = 1999999999


def infinite(r, op):
    """samples that are infinite"""
    n = size(r); v = lambda: r.choice((INF, -INF, r.randrange(-9, 10), r.randrange(-9, 10), 0)); i = r.choice((1, 2, 4))
    a = [v() for _ in range(n)]; x = r.choice(a + [v()])
    if op in (1, 2, 3, 18): return call(op, 1, a, no=1, i=i)
    if op == 5: return call(op, 1, [x] * n if r.random() < 0.6 else a, p=[x], no=1, i=i)
    if op == 15: return call(op, 1, a, p=[r.randrange(n), r.randrange(n)], i=i)
    if op == 19: s = r.randrange(n); e = r.randrange(s + 1, n + 1); return call(op, 1, a, p=[s, e], no=e - s, i=i)
    if op in (80, 81, 10): return call(op, 1, a, p=[x], i=i)
    return call(op, 1, a, i=i)


INFINITE = (1, 2, 3, 4, 5, 10, 13, 15, 16, 18, 19, 27, 80, 81)
HIGH = (1, 2, 18, 4, 13, 16, 27, 5, 49, 15, 19, 43, 51, 10, 50, 53)


SHARED = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 61]
TIMES = list(range(40, 61)) + [62, 63, 90]
SAMPLES = [70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83]
OPS = [(o, t) for t in (T, S) for o in SHARED] + [(o, T) for o in TIMES] + [(o, S) for o in SAMPLES]


def small():
    """all small arrays for the operations that depend on positions or order"""
    for n in (1, 2, 3, 4):
        for a in itertools.product(range(3), repeat=n):
            for t in (T, S):
                b = [v - t for v in a]
                for op in (1, 2, 3): yield call(op, t, b, no=1)
                for op in (4, 14, 27): yield call(op, t, b)
            for k in range(n):
                for c in range(n - k + 1): yield call(53, T, a, p=[k, c], no=n - c)
                for c in range(3): yield call(54, T, a, p=[k, c], no=n + c)
                for e in range(k + 1, n + 1): yield call(19, T, a, p=[k, e], no=e - k)
            if n < 4:
                for x in range(3):
                    yield call(43, T, a, p=[x], alias=x & 1); yield call(51, T, a, p=[x])
                    for y in range(x, 3): yield call(50, T, a, p=[x, y])
    for n in (5, 6):
        for a in itertools.product(range(3), repeat=n): yield call(27, T, a)
    for a in itertools.permutations(range(6)): yield call(27, S, a)
    for a in range(4):
        for b in range(4):
            for x in range(4):
                for op in (20, 21, 22):
                    yield call(op, T, [a], [b], [x]); yield call(op, S, [a - 2], [b - 2], [x - 2])
            yield call(26, T, [a], [b]); yield call(11, T, [a], p=[b])
    for a in range(0, 40):
        for b in range(1, 12): yield call(28, T, [a], p=[b]); yield call(28, S, [a], p=[b], i=2)


def group(calls, seed, k=24):
    calls = list(calls); random.Random(seed).shuffle(calls)
    return [{"in": [seed + j] + sum(calls[j:j + k], []), "head": {}} for j in range(0, len(calls), k)]


EXACT = "reverse copy duplicate cusum add add2 multiply set sort shuffle select gt extract remove subdivide limit and or xor units new square bits totimes differences".split()


def arr_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 24: break
        if r.random() < 0.8: continue
        ks = [k for k, e in enumerate(t["ev"]) if e.get("op") in EXACT and e["o"]]
        if not ks: continue
        t = copy.deepcopy(t); e = t["ev"][r.choice(ks)]; m = r.randrange(8)
        if m == 0: e["live"] = 1
        elif m == 1 and e["a2"]: e["a2"][0] += 1
        else: e["o"][r.randrange(len(e["o"]))] += r.choice((1, -1))
        out.append(t)
    return out


def C20():
    c = Check("C20"); r = random.Random(SEED + 20); exe = core.build("arr_drv.c")
    for n, v in q(((5, 3),), ((6, 3), (5, 5))): c.model("MC_Sort", cfg_text="SPECIFICATION Spec\nINVARIANTS Sorted Inside\nPROPERTY Done\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n V=%d\n Unbounded=FALSE\n" % (n, v))
    ctl = arr_control
    c.scenarios("TraceArr", exe, group(small(), SEED), None, None, name="all small arrays")
    for w in range(1, q(4, 21)):
        c.scenarios("TraceArr", exe, group((one(r, o, t) for _ in range(q(120, 300)) for o, t in OPS), SEED + w), None, ctl, name="random arrays")
    c.scenarios("TraceArr", exe, group((large(r, o, t) for _ in range(q(8, 80)) for o, t in LARGE), SEED + 30, 8), None, ctl, name="long arrays")
    c.scenarios("TraceArr", exe, group((high(r, o) for _ in range(q(40, 400)) for o in HIGH), SEED + 31), None, ctl, name="large times")
    c.scenarios("TraceArr", exe, group((infinite(r, o) for _ in range(q(40, 400)) for o in INFINITE), SEED + 32), None, ctl, name="infinite samples")
    c.scenarios("TraceArr", exe, group((precise(r, o, t) for _ in range(q(20, 200)) for o in PRECISE for t in ((S,) if o > 60 else (T, S))), SEED + 32), None, ctl, name="values with many digits")
    return c.finish()


def comb_scn(r):
    ins = []
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(6)
        if k == 0: n = r.choice((1, 2, 3, 4, 5)); v = r.sample(range(r.choice((n, 1000000))), n); ins += [1, r.choice((0, 0, 0, 1, 2, 3, 4, 5, r.randrange(1, 130))), n] + v
        elif k == 1: ins += [2, r.choice((0, 0, 0, 1, 2, 3, 4, 5, r.randrange(1, 70))), r.randrange(1, 9)]
        elif k == 2: b = r.choice((1, 2, 3, 5, 10, 256, 257, 70000)); d = r.randrange(1, 5); ins += [3, b, d, r.choice((1, 2, 30))] + [r.choice((b - 1, r.randrange(b))) for _ in range(d)]
        elif k == 3: b = r.choice((1, 2, 3, 5, 10, 256, 257, 70000)); d = r.randrange(1, 5); ins += [4, b, d, r.choice((1, 2, min(b, 300), b ** d if b ** d < 130 else 40))] + [r.choice((0, b - 1, r.randrange(b))) for _ in range(d)]
        elif k == 4:
            f = r.randrange(5)
            x = r.randrange(0, 9) if f in (0, 3) else r.randrange(0, 13) if f in (1, 4) else r.randrange(1, 31); y = r.randrange(0, 10) if f in (0, 3) else r.randrange(0, x + 1)
            ins += [5, f, x, y]
        else: n = r.randrange(1, 5); ins += [6, r.randrange(1, 60), n] + [r.randrange(1, 8) for _ in range(n)]
    return {"in": ins, "head": {}}


def comb_all():
    for n in range(1, 7): yield [1, 0, n] + list(range(3, 3 + n))
    for n in range(1, 5):
        for f in range(1, 40): yield [1, f, n] + list(range(n))
    for n in range(1, 12): yield [2, 0, n]
    for n in range(1, 6):
        for f in range(1, 26): yield [2, f, n]
    for b in range(1, 6):
        for d in range(1, 5):
            if b ** d <= 700: yield [4, b, d, b ** d] + [0] * d; yield [3, b, d, b ** d] + [0] * d
    for x in range(0, 13):
        for y in range(0, x + 1): yield [5, 1, x, y]
        yield [5, 4, x, 0]
    for x in range(13, 90, 4):
        for y in range(0, 5): yield [5, 1, x, y]
    for x in (300, 1000, 46340, 2000000000): yield [5, 1, x, 1]; yield [5, 1, x, 0]; yield [5, 3, x, 1]; yield [5, 0, x, 1]
    for x in (300, 1000, 46340): yield [5, 1, x, 2]; yield [5, 3, x, 2]; yield [5, 0, x, 2]
    for x in range(1, 32): yield [5, 2, x, 0]
    for x in range(0, 7):
        for y in range(0, 11): yield [5, 0, x, y]; yield [5, 3, x, y]


def comb_large(r):
    for n in (7, 8, 9): yield [7, n] + r.sample(range(100000), n)
    for n in (12, 16, 17, 18): yield [8, n]
    for b, d, w in ((2, 17, 70000), (10, 6, 66000), (70000, 2, 70005), (3, 12, 65540)) + q((), ((2, 20, 140000),)): yield [9, b, d, w] + [r.randrange(b) for _ in range(d)] + [0, 1, 255, 256, 257, w // 2, 65535, w - 1]


def comb_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 24: break
        t = copy.deepcopy(t)
        for e in t["ev"]:
            if e["e"] in ("perms", "comps") and len(e["o"]) > 1: e["o"][0] = e["o"][1]; break
            if e["e"] in ("incs", "seqs") and len(e["o"]) > 1 and e["base"] > 1: e["o"][1][0] += 1; break
            if e["e"] in ("permsum", "compsum"): e["distinct"] -= 1; break
            if e["e"] == "seqsum": e["o"][3][0] += 1; break
            if e["e"] in ("count", "match"): e["v"] += 1; break
        else: continue
        out.append(t)
    return out


def C21():
    c = Check("C21"); r = random.Random(SEED + 21); exe = core.build("comb_drv.c")
    n, k = q((5, 9), (6, 11))
    c.model("MC_Comb", cfg_text="SPECIFICATION Spec\nINVARIANTS Complete Bounds\nPROPERTY End\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n K=%d\n" % (n, k))
    c.scenarios("TraceComb", exe, [{"in": x, "head": {}} for x in comb_all()], None, comb_control, name="all small sizes")
    c.scenarios("TraceComb", exe, [comb_scn(r) for _ in range(q(1000, 10000))], None, comb_control, name="random")
    c.scenarios("TraceComb", exe, [{"in": x, "head": {}} for x in comb_large(r)], None, comb_control, name="large series")
    return c.finish()


def rand_scn(r, only=None):
    ins = []
    def c(fn, st=0, n=0, arg=0, rng=0, d=()): return [fn, st, n, arg, rng & 0xffffffff, rng >> 32, len(d)] + list(d)
    for st in (0, 1, 2):
        if st or r.random() < 0.6: ins += c(0, st, 0, 0, r.choice((0, 1, 77, r.randrange(1 << 32))) if st == 0 else r.choice((0, 1, r.randrange(1 << 64), (1 << 64) - 1)))
    b32 = lambda: r.choice((1, 2, 3, 10, 1000, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, r.randrange(1, 1 << 32)))
    b64 = lambda: r.choice((1, 3, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 3 << 62, (1 << 62) + 12345, (1 << 60) + 7, (1 << 58) + 7, r.randrange(1 << 62, 1 << 64), r.randrange(1, 1 << 64)))
    for _ in range(r.randrange(4, 10)):
        st = r.choice((0, 1, 2)); n = r.choice((1, 1, 2, 3, 5, 8)); fn = r.choice((1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40))
        if only: fn = r.choice(only)
        if fn >= 20: st = 0
        if fn == 39: # range is multiplied with a multiple of 1/8
            w = [r.choice((1, 1, 2, 9, 100)) for _ in range(r.choice((1, 2, 4, 8)) + 1)]; ins += c(fn, st, n, r.choice((r.randrange(1, 5000), r.randrange(1, 2 ** 31), 2 ** 31 - 1)), 0, list(itertools.accumulate(w))); continue
        if fn == 40: # values around multiples of the base
            b = r.choice((1, 2, 4, 8, 16, 64)); ins += c(fn, st, r.choice((1, 5, 16)), r.choice((0, 1, b // 2, b * 9 - 3, b * 9, r.randrange(1000))), b, [r.randrange(9)]); continue
        if r.random() < 0.05: # long arrays
            fn = r.choice((2, 4, 6, 8, 10, 12, 14, 16, 21, 23, 25, 26, 28, 29, 31, 34, 38))
            ins += c(fn + 100, 0 if fn > 20 else st, r.choice((300, 4097, 70000)), r.choice((1, 24, 16000)), b64() if fn == 4 else b32(), list(itertools.accumulate(r.choice((0, 1, 3)) for _ in range(r.choice((3, 300))))) + [1000]); continue
        d = []
        if fn in (30, 31, 32) and r.random() < 0.1: # many choices
            d = list(itertools.accumulate(r.choice((1, 1, 2, 9)) for _ in range(r.choice((200, 257, 300))))); ins += c(fn, st, r.choice((1, 3, 6)), 1, 0, d); continue
        if fn in (30, 31, 32, 35):
            w = [r.choice((0, 1, 1, 2, 9, 100)) for _ in range(r.randrange(1, 7))]
            if r.random() < (0.5 if only else 0.1): w = [r.choice((1, 1, 1, 2, 0)) for _ in range(r.choice((8, 9, 10, 12, 16, 17) if fn == 32 else (8, 9, 16, 17, 24, 33)))]
            if fn == 32: w = [x or 1 for x in w]; n = r.choice((1, 2, len(w), len(w) + 1, len(w) + 3))
            if not sum(w): w[r.randrange(len(w))] = 1
            t = 0
            for x in w: t += x; d.append(t)
        if fn in (33, 37): n = r.choice((1, 5, 31, 32, 33, 63, 64, 65, 70))
        if fn == 36: n = r.choice((1, 2))
        ins += c(fn, st, n, r.choice((1, 16, 24, 160, 16000)) if fn in (15, 16, 29) else r.randrange(1, 50), b64() if fn in (3, 4) else r.randrange(1, 1000) if fn == 36 else b32() if fn in (7, 8, 22, 23) else 0, d)
    return {"in": ins, "head": {}}


def C22():
    c = Check("C22"); r = random.Random(SEED + 22); exe = core.build("rand_drv.c")
    w, n, k, h = q((32, 6, 2, 5), (96, 8, 4, 6))
    c.model("MC_Random", cfg_text="SPECIFICATION Spec\nINVARIANT Series\nCHECK_DEADLOCK FALSE\nCONSTANTS Word=%d\n Draws=%d\n Weights=%d\n Shuffled=%d\n" % (w, n, k, h))
    c.scenarios("TraceRand", exe, [rand_scn(r) for _ in range(q(700, 7000))], None, corrupt({"draw": "o"}, 7, SEED), name="draws")
    uni = [rand_scn(r, (32,)) for _ in range(q(80, 600))]
    c.scenarios("TraceRand", exe, uni, None, corrupt({"draw": "o"}, 7, SEED), name="unique choices")
    return c.finish()


STAT = ["range", "mean", "deviation", "median", "center", "skewness", "kurtosis", "inharmonicity", "totimes", "unique", "uniqueall", "repetition", "repetitionall"]


def stat_one(r, fn, t, a=None, m=1, R=1, off=0):
    n = r.choice((1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 11)); i = r.choice((1, 2, 4)) if t else 1; os = 1024; p = 0; fail = 0
    if fn >= 9: p = r.randrange(1, 30); a = [r.randrange(p, 60)] if m == 1 else [r.randrange(30, 60000)]; return [fn, 0, 1, 1, 0, p, 1, 1, 0, 1] + a
    if a is None: a = vals(r, n, t)
    n = len(a)
    if fn == 3: os = 8; fail = r.choice((0, 0, 0, 1))
    if fn == 0: os = i
    if fn == 4:
        a = [abs(v) for v in a]
        if not sum(a): a[-1] = 1
    if fn in (5, 6):
        if len(set(a)) == 1: a = list(a) + [a[0] + 1]
    if fn == 7: a = [abs(v) or 1 for v in a]
    if m > 1 and not t and fn < 8:
        while max(a) * m >= 2 ** 32: m //= 2
    if fn == 8: t = 1; p = r.choice((0, 1, 2, 5, 20, 1000))
    return [fn, t, i, os, fail, p, m, R, off, len(a)] + list(a)


def stat_control(tr):
    import copy
    out = []; r = random.Random(SEED)
    for t in tr:
        if len(out) >= 24: break
        if r.random() < 0.7: continue
        t = copy.deepcopy(t); e = r.choice(t["ev"][:-1])
        if e["inj"] or e["fn"] == "range" and r.random() < 0.5: continue
        m = r.randrange(6)
        if m == 0: e["a2"][0] += 1
        elif m == 1: e["live"] = 1
        else: e["o"][0] = e["o"][0] + 40 if e["fn"] != "deviation" else e["o"][0] * 2 + 9
        out.append(t)
    return out


def C23():
    c = Check("C23"); r = random.Random(SEED + 23); exe = core.build("stat_drv.c")
    for n, v in q(((4, 3),), ((5, 5), (6, 3))):
        c.model("MC_Stat", cfg_text="SPECIFICATION Spec\nINVARIANTS MedianLaw MeanLaw DeviationLaw MomentLaw WindowLaw CenterLaw\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\n V=%d\n" % (n, v))
    def items(calls, k): calls = list(calls); r.shuffle(calls); return [{"in": sum(calls[j:j + k], []), "head": {}} for j in range(0, len(calls), k)]
    tags = set(STAT) | {"memory", "input", "status", "unreported", "crash"}
    small = []
    for n in (1, 2, 3, 4):
        for a in itertools.product(range(4 if n < 4 else 3), repeat=n):
            for fn in (0, 1, 2, 3, 5, 6, 7): small += [stat_one(r, fn, t, list(a)) for t in (T, S)]
            small += [stat_one(r, 4, S, list(a)), stat_one(r, 8, S, [v - 1 for v in a])]
    for n in (5, 6):
        for a in itertools.product(range(3), repeat=n): small.append(stat_one(r, 3, n & 1, list(a)))
    c.scenarios("TraceStat", exe, items(small, 30), tags, stat_control, name="all small arrays")
    calls = [stat_one(r, fn, t) for _ in range(q(250, 3000)) for fn in range(13) for t in (T, S) if not (fn == 4 and t == T)]
    c.scenarios("TraceStat", exe, items(calls, 20), tags, stat_control, name="random arrays")
    calls = [stat_one(r, fn, t, m=r.choice((1, 1, 1000, 40000000)), R=1 if fn == 7 else r.choice((1, 50, 257, 70000))) for _ in range(q(12, 120)) for fn in range(13) for t in (T, S) if not (fn == 4 and t == T)]
    calls += [stat_one(r, 7, t, R=40) for _ in range(q(6, 40)) for t in (T, S)]
    c.scenarios("TraceStat", exe, items(calls, 10), tags, stat_control, name="long arrays and large values")
    calls = [stat_one(r, fn, t, m=r.choice((1, 1, 1000)), R=r.choice((1, 1, 50)), off=r.choice((100000, 16777217, 1000000007))) for _ in range(q(40, 400)) for fn in (0, 1, 2, 3, 5, 6) for t in (T, S)]
    c.scenarios("TraceStat", exe, items(calls, 20), tags, stat_control, name="large values with small differences")
    def digits(fn, t): a = [r.randrange(-20000000 if t else 0, 20000000) for _ in range(r.choice((1, 2, 3, 4)))]; return [fn, t, 1, 2, 0, 0, 1, 1, 0, len(a)] + a
    c.scenarios("TraceStat", exe, items([digits(fn, t) for _ in range(q(60, 600)) for fn in (0, 1, 3) for t in (T, S)], 20), tags, stat_control, name="values with many digits")
    centers = [stat_one(r, 4, T, m=r.choice((1, 1000, 40000000)), R=r.choice((1, 50, 257, 6000))) for _ in range(q(20, 200))] + [stat_one(r, 4, T, list(a)) for n in (1, 2, 3) for a in itertools.product(range(4), repeat=n)] + [stat_one(r, 4, T) for _ in range(q(300, 3000))]
    tr, res = c.scenarios("TraceStat", exe, items(centers, 1), tags, None, name="center of times")
    if any(v is not None and v[1] == "known" for v in res.values()):
        c.known_finding("sp_stat_times_center counts the first element twice in the sum: the result is (sum of index * value) / (sum of values + first value)")
    return c.finish()


PROPS = {"C20": C20, "C21": C21, "C22": C22, "C23": C23}
