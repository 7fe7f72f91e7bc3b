"""compositions of wave and noise events in groups and maps for Mix"""
from props_gen import rs, opt, division, corrupt, q

# all rules but "known"
RULES = {"output", "race", "crash", "stuck", "leak", "threads", "status", "driver"}


def control(seed): return corrupt({"blk": "out"}, 300, seed)


def model(c):
    c.model("MC_Mix", cfg_text="SPECIFICATION Spec\nINVARIANTS Laws Prefix\nCHECK_DEADLOCK FALSE\nCONSTANTS Vals={1, 3}\n MaxStart=%d\n Muls={2}\n" % q(1, 2))



WAVE0 = {"start": 0, "bg": 0, "fn": 0, "keep": 1}


class Mix:
    def __init__(self, r, cc): self.r, self.cc, self.ins, self.nodes, self.dur, self.noises, self.par = r, cc, [], [], [], 0, 0

    def add(self, ins, node, dur): self.ins += ins; self.nodes.append(node); self.dur.append(dur); return len(self.nodes) - 1

    def wave(self):
        r = self.r; size = r.choice((1, 2, 3, 5, 8, 12)); wvf = rs(r, size, -9, 9); n = r.choice((1, 2, 3, 5, 9, 14)); nch = r.randrange(1, self.cc + 1); ch = []
        for c in range(nch):
            ch.append([r.randrange(2) if c else 1, r.randrange(-3, 4), r.randrange(self.cc) if r.random() < 0.4 else c, r.choice((0, 1, 1, 2, 3, 7, 13)),
                       rs(r, n, 0, 20) if r.random() < 0.3 else [], r.randrange(size), rs(r, n, 0, 20) if r.random() < 0.3 else [], rs(r, n, -4, 4) if c == 0 or r.random() < 0.5 else []])
        ins = [0, size] + wvf + [n, nch]
        for c in ch: ins += c[:4] + opt(c[4]) + [c[5]] + opt(c[6]) + opt(c[7])
        return self.add(ins, dict(WAVE0, k="wave", size=size, wvf=wvf, n=n, ch=ch), n)

    def noise(self, pre, n=None, same=None):
        r = self.r; n = n or r.choice((3, 8, 14)); self.noises += 1
        return self.add([5, n, r.randrange(1, 1 << 30)] + (same or [r.choice((1, 2)), r.choice((20, 30)), r.choice((5, 10)), r.choice((10, 20))]) + [pre], {"k": "noise", "n": n}, n)

    def group(self, kids, par, app=False):
        """kids: (node, start)"""
        end = 0; ins = [2 if par else 1, len(kids)]; at = []; self.par += par
        for j, s in kids:
            a = 1 if app and self.r.random() < 0.5 else 0; b = s + (end if a else 0); ins += [j, s, a]; at.append([j + 1, b]); end = max(end, b + self.dur[j])
        return self.add(ins, {"k": "group", "kids": at}, end)

    def map(self, j, iso):
        m = self.r.choice((-1, 2, 3)); return self.add([3 if iso else 4, j, m], {"k": "map" if iso else "add", "kid": j + 1, "mul": m}, self.dur[j])

    def item(self, roots, sched, workers, mode, late=0, seed=0):
        r = self.r; end = max(s + self.dur[j] for j, s in roots); start = 0
        total = end - start + r.choice((0, 0, 3)); div = division(r, total) if mode < 2 else [total]
        if mode < 2 and r.random() < 0.3: div = [total]
        div = [d for d in div if d] or [1]
        ins = list(sched) + [workers, self.cc, 100, mode, late, len(self.nodes)] + self.ins + [len(roots)] + [x for k in roots for x in k] + [start, len(div)] + div + ([r.choice((1, 2, 3, 5, 7, 16, 100))] if mode == 2 else [])
        if late: ins[1] = seed or ins[1]
        return {"in": ins, "head": {"cc": self.cc, "nodes": self.nodes, "roots": [[j + 1, s] for j, s in roots], "start": start, "end": start + sum(div), "tol": 4 + 9 * self.noises if self.noises else 0, "late": 1 if late and mode == 1 else 0}}


def mix_scn(r, sched=(0, 1, 0), workers=0, mode=0, par=False, noise=True, maps=0.3):
    m = Mix(r, r.choice((1, 2, 2))); noises = r.choice((0, 0, 1, 2)) if noise else 0; late1 = noises == 1 and r.random() < 0.5
    free = [m.wave() for _ in range(r.randrange(1, 6))] + [m.noise(0 if late1 else 1) for _ in range(noises)]
    k = 0
    for _ in range(r.randrange(0, 5)):
        if r.random() < maps and k < 2: x = free.pop(r.randrange(len(free))); free.append(m.map(x, r.random() < 0.6)); k += 1
        else:
            r.shuffle(free); x = r.randrange(1, min(4, len(free)) + 1); kids = free[:x]; free = free[x:]
            free.append(m.group([(j, r.randrange(0, 9)) for j in kids], 1 if par and r.random() < 0.6 else 0, r.random() < 0.4))
    return m.item([(j, r.randrange(0, 9)) for j in free], sched, workers, mode)


def late_scn(r, sched, workers, mode):
    """noises that are prepared by the renderer take their seeds in the order of their start"""
    m = Mix(r, 1); k = r.choice((2, 3)); roots = []; n = r.choice((6, 12)); t = 0
    same = [r.choice((1, 2)), r.choice((20, 30)), r.choice((5, 10)), r.choice((10, 20))]; leaves = [m.noise(0, n, same) for _ in range(k)]
    for j in leaves: roots.append((m.group([(j, 0)], mode == 1 and r.random() < 0.5) if r.random() < 0.4 else j, t)); t += r.randrange(1, 4)
    return m.item(roots, sched, workers, mode, 1, r.randrange(1, 1 << 30))
