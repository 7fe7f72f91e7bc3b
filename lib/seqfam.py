"""scenarios for the sequencer: event lists, groups, maps, event memory"""
import itertools, random, json, copy

LEAF, GROUP, PGROUP, MAP, ISO, DROP, AUTO, CROWD = range(8)


class TooMany(Exception): pass


def again(f):
    """scenarios that got too many nodes are made again"""
    def g(*a, **k):
        while True:
            try: return f(*a, **k)
            except TooMany: pass
    return g


class Scn:
    def __init__(self, cc=1, par=0, sched=(0, 0, 0)):
        self.cc, self.par, self.nodes, self.ops, self.sched = cc, par, [], [], sched
        self.dig = 0; self.short = False; self.crowd = False; self.maxdig = 6

    def node(self, kind, zdur=0, fw=0, fn=0, preg=0):
        d = 0
        if kind not in (GROUP, PGROUP):
            if kind == CROWD: self.crowd = True; d = 6
            else:
                self.dig += 1; d = self.dig
                if d > self.maxdig: raise TooMany()
        n = len(self.nodes); self.nodes.append((kind, zdur, fw, fn, preg, d))
        if n >= 16: raise TooMany()
        return n

    def op(self, *a): self.ops += list(a); return self
    def add(self, g, n, s, t): return self.op(2, g, n, s, t)
    def append(self, g, n, s, t): return self.op(3, g, n, s, t)
    def wrap(self, m, n, s, t): return self.op(4, m, n, s, t)
    def reg(self, n, r): return self.op(5, n, r)
    def ensure(self, n, k): return self.op(6, n, k)
    def fixed(self, n, r): return self.op(7, n, r)
    def memfree(self, n): return self.op(8, n)
    def sort(self): return self.op(9)
    def blk(self, s, e, par=0, pre=0): return self.op(10, s, e, par, pre)
    def free_list(self): return self.op(11)
    def init(self, w, x=0): return self.op(12, w, x)
    def deinit(self): return self.op(13)
    def free_event(self, n): return self.op(14, n)

    def base(self, n, nest):
        self.ops = [17, n >> 16, n & 65535, nest] + self.ops; return self

    def unit(self, n):
        """samples per position. follows the event definitions because it must be known before ranges are set"""
        self.ops = [18, n] + self.ops; return self

    def far(self, cut, at):
        """everything from position cut on happens at positions near a very large one. events can be very long"""
        lens = {2: 4, 3: 4, 4: 4, 5: 2, 6: 2, 7: 2, 8: 1, 9: 0, 10: 4, 11: 0, 12: 2, 13: 0, 14: 1, 15: 2, 16: 4}
        ops = []; i = 0
        while i < len(self.ops):
            n = lens[self.ops[i]]; ops.append(self.ops[i:i + n + 1]); i += n + 1
        par = {}; gend = {}; before = {}; size = {}
        for o in ops:
            if o[0] in (2, 3):
                _, g, n, s, t = o; t = s + size[n] if t < 0 else t
                before[n] = size.get(g, 0) if o[0] == 3 else 0
                par[n] = (g, s + before[n]); size.setdefault(n, t - s)
                if g >= 0: size[g] = max(size.get(g, 0), t + before[n])
            elif o[0] == 4: par[o[2]] = (o[1], o[3]); size[o[1]] = size[o[2]] = o[4] - o[3]
        def ab(n): return 0 if n < 0 else ab(par[n][0]) + par[n][1]
        def f(t): return t if t < cut else t + 1000 - cut
        out = []
        for o in ops:
            if o[0] in (2, 3, 4):
                g, n = o[1], o[2]; a = ab(n)
                if o[0] == 4: out.append([4, g, n, 0, f(a + o[4] - o[3]) - f(a)])
                else:
                    zero = f(ab(g) + before[n]) if g >= 0 else 0
                    out.append([o[0], g, n, f(a) - zero, -1 if o[4] < 0 else f(a + o[4] - o[3]) - zero])
            elif o[0] == 10:
                bs, be = o[1], o[2]
                if bs < cut < be: out += [[10, bs, cut] + o[3:], [10, f(cut), f(be)] + o[3:]]
                else: out.append([10, f(bs), (f(be) if bs >= cut else be)] + o[3:])
            else: out.append(o)
        self.ops = [19, at >> 16, at & 65535] + [x for o in out for x in o]
        return self

    def direct_prepare(self, n, t): return self.op(15, n, t)
    def direct(self, n, s, e, pre=0): return self.op(16, n, s, e, pre)

    def item(self):
        ins = [0] + list(self.sched) + [self.cc]
        for n, (kind, zdur, fw, fn, preg, d) in enumerate(self.nodes): ins += [1, n, kind, zdur, fw, fn, preg, d]
        # the first pseudo operation may be init, which needs to come before everything else
        return {"in": ins + self.ops, "head": {"par": self.par, "cc": self.cc, "nodes": [{"kind": k, "zdur": z, "fw": fw, "dig": d, "cn": preg if k == CROWD else 0} for (k, z, fw, fn, preg, d) in self.nodes]}}


def partitions(t):
    """all divisions of 0..t into consecutive blocks"""
    for cuts in itertools.product((0, 1), repeat=t - 1):
        p = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [t]
        yield list(zip(p, p[1:]))


def random_blocks(r, end, skip=True):
    """consecutive blocks over the span, sometimes with jumps"""
    out = []; p = 0
    if skip and r.random() < 0.15: p = r.randrange(0, max(1, end))
    while p < end:
        n = r.choice((1, 1, 2, 2, 3, 4, 5, 7, end))
        n = min(n, 24)
        out.append((p, p + n)); p += n
        if skip and r.random() < 0.08: p += r.randrange(1, 4)
    return out


def finish(sc, blocks, r=None, par=0, tail=True):
    for (s, e) in blocks: sc.blk(s, e, par, 1 if r and r.random() < 0.3 else 0)
    end = blocks[-1][1] if blocks else 0
    how = 0 if r is None else r.randrange(3)
    if how == 0: sc.blk(end, end + 2, par)
    elif how == 1: sc.blk(end + 1, end + 2, par); 
    sc.free_list()
    return sc


def flat(leaves, blocks, cc=1, r=None, par=0, kinds=None):
    sc = Scn(cc, par)
    for k, (s, d) in enumerate(leaves):
        n = sc.node(kinds[k] if kinds else LEAF, preg=1 if kinds and kinds[k] == AUTO else 0)
        sc.add(-1, n, s, s + d)
    sc.sort()
    return finish(sc, blocks, r, par)


def flat_exhaustive(nl, smax, dmax, limit=None, r=None, cc=1):
    """all lists of nl events with all partitions"""
    evs = [(s, d) for s in range(smax + 1) for d in range(1, dmax + 1)]
    allc = []
    for leaves in itertools.product(evs, repeat=nl):
        t = max(s + d for s, d in leaves)
        allc.append((leaves, t))
    if limit is None:
        for leaves, t in allc:
            for b in partitions(t): yield flat(leaves, b, cc, r)
    else:
        for _ in range(limit):
            leaves, t = r.choice(allc)
            cuts = [r.randrange(2) for _ in range(t - 1)]
            p = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [t]
            yield flat(leaves, list(zip(p, p[1:])), cc, r)


CROWDS = (2, 60, 254, 255, 256, 257, 300, 700)


def tree(r, sc, depth, budget, kinds, gkinds=(GROUP,), zdur=0.2, maxs=5, maxd=6, failing=None, mapp=0.25, stretch=0):
    """random composition below an unattached node. returns (node, duration, zero) where zero tells that the end is still unknown"""
    def leaf():
        budget[0] -= 1
        k = r.choice(kinds)
        if k == CROWD and sc.crowd: k = LEAF
        z = r.random() < zdur and k != CROWD
        d = r.randrange(1, maxd + 1)
        # prepare sets the end: when it is not known before, or another one
        zd = d if z else 0
        if not z and k != CROWD and r.random() < stretch: zd = d + r.choice((-2, -1, 1, 2, 3, 4)); zd = zd if zd > 0 else d + 1
        if zd and zd < d: sc.short = True
        n = sc.node(k, zdur=zd, preg=(r.choice(CROWDS) if k == CROWD else r.randrange(1, 4) if k == AUTO or r.random() < 0.15 else 0))
        if failing: failing(sc, n)
        return n, d, z
    def wrap_one(n, d, z):
        budget[0] -= 1
        m = sc.node(r.choice((MAP, ISO, ISO, DROP)))
        if failing: failing(sc, m)
        sc.wrap(m, n, 0, d)
        return m, d, False
    if depth == 0 or budget[0] <= 2 or r.random() < 0.3:
        n, d, z = leaf()
        if budget[0] > 0 and r.random() < mapp and not z and sc.nodes[n][0] != CROWD:
            return wrap_one(n, d, z)
        return n, d, z
    g = sc.node(r.choice(gkinds), zdur=r.choice((0, 0, 1, 3)))
    if failing: failing(sc, g)
    end = 0
    for _ in range(r.randrange(1, 4)):
        if budget[0] <= 0: break
        c, d, z = tree(r, sc, depth - 1, budget, kinds, gkinds, zdur, maxs, maxd, failing, mapp, stretch)
        isg = sc.nodes[c][0] in (GROUP, PGROUP)
        app = r.random() < 0.35 and sc.nodes[c][0] != CROWD
        s = r.choice((0, 0, r.randrange(0, maxs + 1)))
        t = -1 if isg else (0 if z else s + d)
        if app: sc.append(g, c, s, t); end = end + s + d
        else: sc.add(g, c, s, t); end = max(end, s + d)
    if end == 0:
        c = sc.node(LEAF) if sc.dig < sc.maxdig else None
        if c is not None:
            budget[0] -= 1; sc.add(g, c, 0, 2); end = 2
    if end and r.random() < mapp * 0.6 and budget[0] > 0 and end <= 20:
        return wrap_one(g, end, False)
    return g, end, False


@again
def random_tree_scn(r, kinds=(LEAF, LEAF, LEAF, AUTO), gkinds=(GROUP,), par=0, failing=None, depth=3, top=None, mapp=0.25, cc=None, blocks=None, workers=0, sched=(0, 0, 0), zdur=0.2, nb=6, toppar=None, cut_short=True, stretch=0.15):
    while True:
        sc = Scn(cc or r.choice((1, 1, 2)), par, sched); sc.maxdig = 5 if CROWD in kinds else 6
        if workers: sc.init(workers)
        budget = [r.randrange(2, nb + 1)]
        end = 0
        f = (lambda s, n: failing(r, s, n)) if failing else None
        adds = []
        for _ in range(r.randrange(1, (top or 3) + 1)):
            if budget[0] <= 0: break
            n, d, z = tree(r, sc, r.randrange(0, depth + 1), budget, kinds, gkinds, zdur, failing=f, mapp=mapp)
            s = r.choice((0, r.randrange(0, 6)))
            if sc.nodes[n][0] in (GROUP, PGROUP): t = -1
            else: t = s + d
            if d == 0: continue
            adds.append((n, s, t)); end = max(end, s + d)
        if not adds or end > 40: continue
        for (n, s, t) in adds: sc.add(-1, n, s, t)
        sc.sort()
        bl = random_blocks(r, end + (0 if par else r.choice((0, 0, 4))), not sc.short)
        tp = (r.randrange(2) if toppar is None else toppar) if par else 0
        if cut_short and r.random() < 0.2: bl = bl[:max(1, len(bl) // 2)]
        finish(sc, bl, r, tp)
        if workers: sc.deinit()
        return sc


@again
def direct_scn(r, failing=None, kinds=(LEAF, LEAF, AUTO), mapp=0.3):
    """an event that is prepared, rendered in parts and freed without a list. freed again, without effect"""
    while True:
        sc = Scn(r.choice((1, 2)))
        n, d, z = tree(r, sc, r.randrange(0, 4), [r.randrange(1, 6)], kinds, mapp=mapp, failing=(lambda s, k: failing(r, s, k)) if failing else None)
        if 0 < d <= 24: break
    k = r.randrange(12); isg = sc.nodes[n][0] in (GROUP, PGROUP)
    if k: sc.direct_prepare(n, -1 if isg else d)
    if k > 1:
        bl = [(s, min(e, d)) for (s, e) in random_blocks(r, d) if s < d]
        if r.random() < 0.3: bl = bl[:r.randrange(len(bl)) + 1]
        for (s, e) in bl: sc.direct(n, s, e, r.randrange(2))
    sc.free_event(n)
    if r.random() < 0.7: sc.free_event(n)
    return sc


BASES = (0, 40, 65500, 65530, 65536, 100000, (1 << 24) - 5, (1 << 24) + 1, (1 << 31) - 8, (1 << 31) + 3, (1 << 32) - 200)


FARS = (3000, 65536, 65600, 1 << 24, (1 << 24) + 1, (1 << 31) - 4, 1 << 31, (1 << 31) + 6, 3000000000, (1 << 32) - 200)


def large_scn(r, sel=None, **k):
    """positions that are large numbers, many events at once, all events in another group, distances that are large numbers"""
    while True:
        if not r.randrange(4):
            sc = random_tree_scn(r, kinds=(LEAF, AUTO), **{**k, "stretch": 0, "zdur": 0})
            if not sel or sel(sc): return sc.far(r.randrange(1, 24), r.choice(FARS))
            continue
        nest = r.choice((0, 0, 1, 1, 2)) if k.get("par") else r.choice((0, 0, 1))
        if nest: k["stretch"] = 0
        sc = random_tree_scn(r, kinds=r.choice(((LEAF, AUTO), (LEAF, AUTO, CROWD), (CROWD, LEAF))), **k)
        if sel and not sel(sc): continue
        if not r.randrange(4) and sc.crowd: return sc
        if not r.randrange(3) and not k.get("stretch") and not sc.crowd: return sc.unit(r.choice((3, 257, 8191, 16384, 22000, 32768, 65535, 65536, 65537)))
        return sc.base(r.choice(BASES), nest)


def large_memory_scn(r):
    sc = Scn(1); n = sc.node(r.choice((LEAF, AUTO))); rid = 0; spare = 0
    while rid < r.choice((250, 255, 256, 257, 300, 600)):
        k = r.randrange(3)
        if k == 1 and not spare: spare = r.choice((3, 100, 255, 256, 257, 300)); sc.ensure(n, spare)
        elif spare:
            for _ in range(min(spare, 300)): sc.fixed(n, rid); rid += 1
            spare = 0
        else:
            for _ in range(r.choice((1, 20, 255, 260))): sc.reg(n, rid); rid += 1
        if rid > 650: break
    sc.memfree(n)
    return sc


def with_regs(r, sc, p=0.6):
    """memory registered on groups and map events, released when they are freed"""
    ops = []
    for n, x in enumerate(sc.nodes):
        if x[0] in (LEAF, AUTO, CROWD) or r.random() > p: continue
        rid = 0
        for _ in range(r.randrange(1, 3)):
            if r.random() < 0.5: ops += [5, n, rid]; rid += 1
            else:
                z = r.randrange(1, 4); ops += [6, n, z]
                for _ in range(r.randrange(1, z + 1)): ops += [7, n, rid]; rid += 1
    sc.ops = ops + sc.ops
    return sc


def memory_scn(r):
    """registrations, reservations and registrations into reserved space in any order, freed once or repeatedly"""
    sc = Scn(1)
    n = sc.node(r.choice((LEAF, AUTO)))
    rid = 0
    for _ in range(r.randrange(1, 4)):
        spare = 0; cap = False; rid = 0
        for _ in range(r.randrange(0, 9)):
            k = r.randrange(3)
            if rid >= 28: break
            if k == 0: sc.reg(n, rid); rid += 1; spare = max(0, spare - 1)
            elif k == 1:
                z = r.randrange(0, 9); sc.ensure(n, z); spare = max(spare, z)
            elif spare > 0:
                for _ in range(r.randrange(1, spare + 1)):
                    if rid >= 28: break
                    sc.fixed(n, rid); rid += 1; spare -= 1
        sc.memfree(n)
        if r.random() < 0.3: sc.memfree(n)
    return sc


def memory_event_scn(r):
    """registrations on events that are then rendered and freed"""
    sc = Scn(1); end = 0
    for _ in range(r.randrange(1, 4)):
        n = sc.node(r.choice((LEAF, AUTO)), preg=0); rid = 0; spare = 0
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(3)
            if k == 0: sc.reg(n, rid); rid += 1; spare = max(0, spare - 1)
            elif k == 1: z = r.randrange(0, 6); sc.ensure(n, z); spare = max(spare, z)
            elif spare:
                sc.fixed(n, rid); rid += 1; spare -= 1
        if r.random() < 0.15: sc.free_event(n); continue
        s = r.randrange(4); d = r.randrange(1, 5); sc.add(-1, n, s, s + d); end = max(end, s + d)
    sc.sort()
    return finish(sc, random_blocks(r, max(1, end)), r)


def corrupt(seed):
    """traces that must not be accepted: each with one recorded fact changed"""
    def f(tr):
        r = random.Random(seed); out = []
        kinds = {}
        for _ in range(4000):
            if len(out) >= 24 or not tr: break
            t = r.choice(tr); ev = t["ev"]
            if not ev or ev[-1].get("e") != "end": continue
            k = r.randrange(len(ev)); e = ev[k]
            if kinds.get(e["e"], 0) >= 4: continue
            t = copy.deepcopy(t); e = t["ev"][k]
            if e["e"] == "gen":
                m = r.randrange(3)
                if m == 0: e["a"] += 1
                elif m == 1: e["b"] += 1
                else: del t["ev"][k]
                if e["r"]: continue
            elif e["e"] == "prep" and e["r"] == 0: t["ev"].insert(k, dict(e))
            elif e["e"] == "free": t["ev"].insert(k, dict(e))
            elif e["e"] == "rel": t["ev"].insert(k, dict(e))
            elif e["e"] == "map" and e["r"] == 0: e["a"] += 1
            elif e["e"] in ("ret", "dret") and e["st"] == 0:
                if r.randrange(2): e["out"][0][1][0] += 1
                else: e["st"] = 77
            elif e["e"] == "end": e["live"] = 1
            else: continue
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
            out.append(t)
        return out
    return f
