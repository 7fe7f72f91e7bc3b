"""building drivers from the working tree, running scenarios, validating recorded traces with TLC, reporting"""
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK") or os.path.join(VERIF, ".work")
SEED = int(os.environ.get("VERIF_SEED", "1"))
# only for tools/mutants.py: results of models that do not depend on the code under test are kept, and the first violation ends the check
MODEL_CACHE = os.environ.get("VERIF_MODEL_CACHE")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 8)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SRC = os.path.join(REPO, "source")
ENV = {k: v for k, v in os.environ.items() if k not in ("CPATH", "C_INCLUDE_PATH", "LIBRARY_PATH", "LD_PRELOAD", "JAVA_TOOL_OPTIONS")}
T0 = time.time()


class Error(Exception):
    """the check itself can not work"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (SRC, os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h


WRAP_ALLOC = ["malloc", "calloc", "realloc", "free"]
WRAP_IO = ["fopen", "fclose", "fwrite", "fread"]
WRAP_SCHED = ["pthread_create", "pthread_join", "pthread_exit", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
              "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_mutex_destroy", "pthread_cond_destroy",
              "nanosleep", "usleep", "clock_nanosleep", "sched_yield"]


def build(driver, san="address", io=False, sched=False, defs=(), opt="-O1"):
    """compile the driver (which includes the library's source) with the working tree"""
    cov = ["--coverage"] if os.environ.get("VERIF_COVERAGE") else [] # to see what the scenarios reach
    key = tree_hash(); key.update(repr((driver, san, io, sched, defs, opt, cov)).encode())
    out_dir = os.path.join(WORK, "build", key.hexdigest()[:24])
    exe = os.path.join(out_dir, "driver")
    if os.path.exists(exe):
        os.utime(out_dir); return exe
    base = os.path.join(WORK, "build")
    os.makedirs(base, exist_ok=True)
    olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
    for d in olds[:-24]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(dir=base)
    os.makedirs(os.path.join(tmp, "inc"))
    os.symlink(os.path.join(SRC, "c/foreign/sph-sc-lib/sph-sp"), os.path.join(tmp, "inc/sph"))
    H = os.path.join(VERIF, "harness")
    env = dict(ENV, CPATH=os.path.join(tmp, "inc"), LC_ALL="C")
    sanf = ["-fsanitize=" + san, "-fno-omit-frame-pointer"] if san else []
    wraps = WRAP_ALLOC + (WRAP_IO if io else []) + (WRAP_SCHED if sched else [])
    vdefs = list(defs) + (["-DVT_IO"] if io else []) + (["-DVT_SCHED"] if sched else [])
    inc = ["-I" + os.path.join(SRC, "c/foreign"), "-I" + os.path.join(SRC, "c/foreign/sph-sc-lib"), "-I" + os.path.join(SRC, "c-precompiled"), "-I" + H]
    def run(cmd):
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise Error("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    objs = []
    for f in ["vt.c"] + (["sched.c"] if sched else ["nosched.c"]):
        o = os.path.join(tmp, f + ".o"); objs.append(o)
        run(["gcc", "-std=gnu17", "-O2", "-g", "-c", os.path.join(H, f), "-o", o] + vdefs + (["-DVT_COV"] if cov else []))
    o = os.path.join(tmp, "drv.o")
    run(["gcc", "-std=c17", "-funsigned-char", "-w", "-O0" if cov else opt, "-g", "-fno-math-errno", "-fno-builtin", "-ftrivial-auto-var-init=pattern"] + cov + sanf + inc + vdefs + ["-c", os.path.join(H, driver), "-o", o])
    run(["gcc", "-g"] + cov + sanf + [o] + objs + ["-Wl," + ",".join("--wrap=" + w for w in wraps), "-o", os.path.join(tmp, "driver"), "-lm", "-lpthread"])
    if cov: return os.path.join(tmp, "driver")
    try:
        os.rename(tmp, out_dir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


RUN_ENV = dict(ENV, LC_ALL="C",
               ASAN_OPTIONS="detect_odr_violation=0:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:symbolize=0:handle_segv=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=78", TSAN_OPTIONS="atexit_sleep_ms=0:exitcode=0:symbolize=0:halt_on_error=0:report_signal_unsafe=0:history_size=4")


def run_driver(exe, lines, timeout=600, procs=NCPU, env=None, cwd=None):
    """lines: lists of integers. returns the recorded events for each"""
    if not lines: return []
    n = max(1, min(procs, len(lines)))
    chunks = [list(range(k, len(lines), n)) for k in range(n)]
    out = [None] * len(lines)
    def work(ix):
        data = "".join(" ".join(map(str, lines[i])) + "\n" for i in ix)
        p = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=dict(RUN_ENV, **(env or {})), cwd=cwd, errors="replace")
        res = p.stdout.splitlines()
        if len(res) != len(ix):
            raise Error("driver gave %d results for %d scenarios (exit %d) %s" % (len(res), len(ix), p.returncode, p.stderr[-500:]))
        for i, r in zip(ix, res):
            try: out[i] = json.loads(r)["ev"]
            except ValueError: out[i] = [{"e": "crash", "why": "unreadable log"}]
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(work, chunks))
    return out


class Tlc:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", text): pass
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in text or ("Finished computing" in text and rc == 0)
        self.error = None
        if not self.ok:
            k = text.find("Error:")
            self.error = text[k:k + 3000] if k >= 0 else text[-3000:]


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, mem="6g", extra=(), cfg_text=None):
    """run tlc in a private directory"""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".cfg")): shutil.copy(os.path.join(VERIF, "spec", f), d)
        if cfg_text:
            with open(os.path.join(d, "generated.cfg"), "w") as f: f.write(cfg_text)
            cfg = "generated"
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta"), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Error("tlc timeout: " + module)
        return Tlc(p.stdout, p.returncode, time.time() - t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


VERDICT = re.compile(r'<<"(ACCEPT|REJECT)", (\d+), (\d+), "([^"]*)">>')


def validate(module, traces, cov, cfg=None, nondet=False, timeout=700, env=None, workers=NCPU):
    """traces: dicts with id. returns {id: None or (position, reason)}"""
    res = {}; bad = [0]
    def go(ts, depth):
        os.makedirs(WORK, exist_ok=True)
        fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=WORK)
        with os.fdopen(fd, "w") as f:
            for t in ts: f.write(json.dumps(t, separators=(",", ":")) + "\n")
        try:
            r = tlc(module, cfg, dict({"TRACE_FILE": path, "SHOW": "1" if nondet and len(ts) == 1 else "0"}, **(env or {})), timeout=timeout, workers=workers)
        finally:
            os.unlink(path)
        cov["states"] += r.distinct; cov["transitions"] += r.generated
        if r.error:
            if "Parsing or semantic analysis failed" in r.text: raise Error("tlc: " + r.text[-3000:])
            if len(ts) == 1:
                bad[0] += 1
                log("tlc evaluation error for scenario", ts[0]["id"], r.error[:600].replace("\n", " "))
                res[ts[0]["id"]] = (0, "malformed"); return
            if depth > 14: raise Error("tlc: " + r.error)
            if bad[0] >= 3:
                # enough of them are known
                for t in ts: res[t["id"]] = None
                return
            # some event is outside of what the specification can evaluate: find it
            h = (len(ts) + 1) // 2
            go(ts[:h], depth + 1); go(ts[h:], depth + 1); return
        seen = {}
        if nondet:
            # accepted if one path explains the trace, rejected if no path does
            for t in ts: seen[t["id"]] = (0, "order")
        for v, i, l, why in VERDICT.findall(r.text):
            i = int(i); l = int(l)
            if v == "ACCEPT": seen[i] = None
            elif i not in seen or (seen[i] is not None and l > seen[i][0]): seen[i] = (l, why)
        for t in ts:
            if t["id"] not in seen: raise Error("no verdict for scenario %d\n%s" % (t["id"], r.text[-2000:]))
            res[t["id"]] = seen[t["id"]]
    if traces: go(traces, 0)
    return res


class Check:
    """collects coverage and violations of one property"""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "samples": []}
        self.notes = {}
        self.violations = []
        self.known = set()
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)

    def model(self, module, cfg=None, env=None, **k):
        """exhaustive check of the specification itself"""
        cache = None
        if MODEL_CACHE:
            h = hashlib.sha256(repr((module, cfg, env, k)).encode())
            for f in sorted(os.listdir(os.path.join(VERIF, "spec"))): h.update(open(os.path.join(VERIF, "spec", f), "rb").read())
            cache = os.path.join(MODEL_CACHE, h.hexdigest()[:32])
        if cache and os.path.exists(cache):
            with open(cache, "rb") as f: r = pickle.load(f)
        else:
            r = tlc(module, cfg, env, **k)
            if cache:
                with open(cache + str(os.getpid()), "wb") as f: pickle.dump(r, f)
                os.rename(cache + str(os.getpid()), cache)
        r.name = cfg or module
        if r.error: raise Error("specification %s does not hold:\n%s" % (cfg or module, r.error))
        self.cov["states"] += r.distinct; self.cov["transitions"] += r.generated
        self.notes.setdefault("models", []).append({"model": cfg or module, "distinct_states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})
        log("model", cfg or module, r.distinct, "states", "%.1fs" % r.wall)
        return r

    def must_fail(self, module, cfgs):
        """variants of a model with a defect: the invariants have to notice them"""
        if MODEL_CACHE: return
        for t in cfgs:
            r = tlc(module, cfg_text=t)
            if not r.error or "is violated" not in r.text: raise Error("the defect in a variant of %s is not noticed: %s" % (module, t))
        self.notes.setdefault("models", []).append({"model": module, "defective_variants_rejected": len(cfgs)})

    def violation(self, what, replay):
        path = os.path.join(WORK, "replay", "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f: json.dump(dict(property=self.prop, what=what, **replay), f, indent=1)
        self.violations.append(path)
        log("violation:", what[:400])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        if MODEL_CACHE: sys.stdout.flush(); os._exit(1)

    def known_finding(self, text):
        if text not in self.known:
            self.known.add(text); print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)

    def scenarios(self, module, exe, items, tags=None, control=None, cfg=None, max_report=5, drv_timeout=700, env=None, nondet=False, cwd=None, name=None, runner=None):
        """items: dicts with in (integers for the driver) and head (static part for the specification).
        runs them, validates the traces, confirms rejections by running the scenario again.
        tags: rule names that count for this property, None for all"""
        t = time.time()
        if self.violations and t - T0 > 240:
            log("not continued after violations:", module, name or ""); return [], []
        run = runner or (lambda lines: run_driver(exe, lines, drv_timeout, cwd=cwd, env=env))
        evs = run([x["in"] for x in items])
        tr = []
        for k, (x, ev) in enumerate(zip(items, evs)): tr.append(dict(x["head"], id=k, ev=ev))
        # after many scenarios that do not end the remaining ones are not started
        skipped = sum(1 for t in tr if t["ev"] and t["ev"][0].get("e") == "skipped")
        if skipped:
            keep = [k for k, t in enumerate(tr) if not (t["ev"] and t["ev"][0].get("e") == "skipped")]
            items = [items[k] for k in keep]; evs = [evs[k] for k in keep]; tr = [dict(tr[k], id=i) for i, k in enumerate(keep)]
            log("scenarios not started because of many timeouts:", skipped)
        ctl, ctl_error = [], None
        if control:
            # traces of implementations that fail can have any content
            try:
                for k, c in enumerate(control([t for t in tr if len(t["ev"]) > 1 and t["ev"][-1].get("e") == "end"])):
                    ctl.append(dict(c, id=len(tr) + k))
            except Exception as e: ctl_error = e; ctl = []
        t1 = time.time()
        res = validate(module, tr + ctl, self.cov, cfg, nondet)
        missed = [c["id"] for c in ctl if res[c["id"]] is None]
        bad = [k for k in range(len(tr)) if res[k] is not None]
        if ctl_error and not bad: raise ctl_error
        if missed and not bad:
            raise Error("%s accepts %d of %d deliberately corrupted traces, for example %s" % (module, len(missed), len(ctl), json.dumps(tr and ctl[missed[0] - len(tr)])[:1500]))
        self.cov["traces_validated_against_impl"] += len(tr)
        self.cov["events"] += sum(len(e) for e in evs)
        for k in sorted({0, len(tr) // 2, len(tr) - 1}):
            if len(self.cov["samples"]) < 6: self.cov["samples"].append({"spec": module, "scenario": items[k]["in"][:400], "events": evs[k][:12]})
        self.notes.setdefault("conformance", []).append({"spec": module, "set": name or "", "scenarios": len(tr), "events": sum(len(e) for e in evs), "corrupted_controls_rejected": len(ctl) - len(missed), "driver_s": round(t1 - t, 1), "tlc_s": round(time.time() - t1, 1)})
        log("conformance", module, name or "", len(tr), "scenarios", sum(len(e) for e in evs), "events", len(ctl), "controls", "driver %.1fs tlc %.1fs" % (t1 - t, time.time() - t1), "rejected", len(bad))
        if any(res[k][1] == "driver" for k in bad):
            k = [k for k in bad if res[k][1] == "driver"][0]
            raise Error("driver scenario is invalid: %s at %d: %s" % (items[k]["in"], res[k][0], json.dumps(tr[k])[:3000]))
        other = {}
        rel = []
        for k in bad:
            if tags is None or res[k][1] in tags or res[k][1] == "malformed": rel.append(k)
            else: other[res[k][1]] = other.get(res[k][1], 0) + 1
        if other: log("rejections that concern other properties:", other)
        # same reasons first, short scenarios first
        rel.sort(key=lambda k: (len(items[k]["in"]), k))
        done = set(); t2 = time.time()
        for k in rel:
            if res[k][1] in done or len(done) >= max_report: continue
            # scenarios that do not end take long to repeat
            if time.time() - t2 > (30 if done else 300): break
            # confirm: a rejection counts if it shows again
            ev2 = run([items[k]["in"]])[0]
            r2 = validate(module, [dict(items[k]["head"], id=0, ev=ev2)], dict(self.cov), cfg, nondet)
            if r2[0] is None:
                log("rejection did not repeat", items[k]["in"], res[k]); continue
            done |= {r2[0][1], res[k][1]}
            l = r2[0][0]
            self.violation("%s: rule %s at event %d: %s" % (module, r2[0][1], l, json.dumps(ev2[l - 1:l])[:500]),
                           {"spec": module, "rule": r2[0][1], "at": l, "scenario": items[k]["in"], "head": items[k]["head"], "driver": exe, "events": ev2})
        if skipped and not done: raise Error("%d scenarios of %s were not started because of timeouts that did not repeat" % (skipped, module))
        return tr, res

    def finish(self):
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": dict(self.cov, **self.notes), "wall_s": round(time.time() - T0, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        log("done", self.prop, "violations", len(self.violations), {k: v for k, v in self.cov.items() if k != "samples"})
        return 1 if self.violations else 0
