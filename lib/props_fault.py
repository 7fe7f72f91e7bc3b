"""C19 failing allocations and file operations"""
import copy, os, random, shutil
import core
from core import Check
from props_file import scratch
from props_gen import SEED

OPS = "times_new samples_new block_new duplicate permutations compositions random_binary constant scale replace median fft path set_copy filter sinc list_add memory_add memory_ensure srq config_new group_add group_append seq render file_write file_read initialize pool string helper noise".split()


def variants(r, thorough):
    m = 3 if thorough else 1
    v = {
        "times_new": (1, 2, 17, 100), "samples_new": (1, 2, 17, 100), "block_new": range(12),
        "duplicate": range(16), "permutations": (1, 2, 3, 4) + ((5,) if thorough else ()), "compositions": range(1, 6 + m), "random_binary": (1, 5, 31, 32, 33, 64, 65, 127, 128, 255, 256),
        "constant": (1, 2, 9), "scale": range(20), "replace": range(12), "median": range(18), "fft": range(60), "path": range(18), "set_copy": range(4),
        "filter": range(200), "sinc": range(15), "list_add": range(6), "memory_add": range(24), "memory_ensure": range(80),
        "srq": [k + 100 * h for k in range(29) for h in (0, 1, 3, 4, 5)], "config_new": range(12), "group_add": range(16), "group_append": range(16),
        "seq": [k + 10 * p + 20 * b for k in range(10) for p in (0, 1) for b in (0, 1)], "render": [k + 10 * f for k in range(10) for f in (0, 1, 2)] + [30],
        "file_write": range(8), "file_read": range(8), "initialize": (0, 1, 2, 3, 4), "pool": range(12), "string": range(5), "helper": range(6), "noise": range(8)}
    its = []
    for k, o in enumerate(OPS):
        for x in v[o]: its.append({"in": [k, x, 400], "head": {"op": o, "v": x}})
    return its


def control(tr):
    """one recorded fact changed each"""
    r = random.Random(SEED); out = []
    def pos(t, kinds, pred=lambda e: True): return [k for k, e in enumerate(t["ev"]) if e["e"] in kinds and pred(e)]
    ts = [t for t in tr if t["ev"] and t["ev"][-1]["e"] == "end"]
    def alter(f, n=12):
        c = 0
        for t in r.sample(ts, len(ts)):
            ev = copy.deepcopy(t["ev"])
            if f(t, ev): out.append(dict(t, ev=ev)); c += 1
            if c == n: return
    def drop(kinds):
        def g(t, ev):
            p = pos(t, kinds)
            if not p: return False
            del ev[r.choice(p)]; return True
        return g
    def twice(t, ev):
        p = pos(t, ("f",))
        if not p: return False
        k = r.choice(p); ev.insert(k, ev[k]); return True
    def swallow(t, ev):
        p = pos(t, ("ret",), lambda e: e["r"])
        if not p: return False
        ev[r.choice(p)]["r"] = 0; return True
    def again(t, ev):
        p = pos(t, ("again",))
        if not p: return False
        ev[r.choice(p)]["d"][0] ^= 1; return True
    for f in (drop(("f",)), drop(("x",)), drop(("a",)), drop(("c",)), twice, swallow, again): alter(f)
    return out


def C19():
    c = Check("C19"); r = random.Random(SEED + 19); exe = core.build("fault_drv.c", io=True); d = scratch(); th = core.TIER == "thorough"
    try:
        cfg = "SPECIFICATION Spec\nINVARIANTS Sound Complete\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d\n Defect=\"%s\"\n"
        c.model("MC_Fault", cfg_text=cfg % (6 if th else 5, "none"))
        c.must_fail("MC_Fault", [cfg % (3, x) for x in ("keeptemps", "keepouts", "steal", "keepfiles", "swallow")])
        its = variants(r, th)
        c.scenarios("TraceFault", exe, its, control=control, name="calls")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c.finish()


PROPS = {"C19": C19}
