#!/usr/bin/env python3
"""Driver: builds one property's harness from /repo's working tree, runs the seeded search, gates,
minimises and reports violations, writes the evidence file.

  check.py C01 [--thorough]       quick or thorough check (VERIF_TIER overrides), seed VERIF_SEED
  check.py C01 --replay FILE      replay a reported violation (prints the trace)
  check.py C01 --build            only build
"""
import sys, os, re, json, time, hashlib, subprocess, threading, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import config  # noqa

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "g++"
WRAPS = """malloc calloc realloc free memcpy memmove memset pthread_create pthread_join pthread_detach pthread_self pthread_equal
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal
pthread_cond_broadcast pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_atexit atexit clock_gettime gettimeofday time nanosleep
clock_nanosleep usleep sleep sysconf sched_yield pthread_yield __assert_fail abort""".split()
BASE_DEFS = ["-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED", "-DBOOST_THREAD_NO_LIB=1", "-DBOOST_THREAD_POSIX",
             "-DBOOST_THREAD_BUILD_LIB=1", "-DBOOST_ALL_NO_LIB", "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_ERROR_CODE_HEADER_ONLY",
             "-DBOOST_SYSTEM_NO_DEPRECATED"]
FLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-w", "-fno-omit-frame-pointer"]
LIBSRC = ["src/pthread/thread.cpp", "src/pthread/once.cpp", "src/future.cpp", "src/tss_null.cpp"]


class CheckError(Exception):
    pass


def sha(data):
    return hashlib.sha1(data if isinstance(data, bytes) else data.encode()).hexdigest()


_hc, _hl = {}, threading.Lock()
def filehash(p):
    with _hl:
        if p in _hc:
            return _hc[p]
    try:
        with open(p, "rb") as f:
            h = sha(f.read())
    except OSError:
        h = "missing"
    with _hl:
        _hc[p] = h
    return h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_obj(src, obj, flags):
    """Compiles src to obj unless an object made by the same command from files of the same content is there."""
    cmd = [CXX] + flags + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = obj + ".key"
    if os.path.exists(key) and os.path.exists(obj):
        try:
            k = json.load(open(key))
            if k["cmd"] == cmd and all(filehash(p) == h for p, h in k["deps"].items()):
                return
        except Exception:
            pass
    if os.path.exists(key):
        os.unlink(key)
    r = run(cmd)
    if r.returncode:
        raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({"cmd": cmd, "deps": {p: filehash(p) for p in deps if not p.startswith("/usr/")}}, open(key, "w"))


def build_lib():
    out = os.path.join(BUILD, "libsim.so")
    src = os.path.join(HERE, "sim.cpp")
    k = sha(open(src, "rb").read() + open(os.path.join(HERE, "sim.h"), "rb").read())
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == k:
        return out
    tmp = out + ".%d" % os.getpid()
    r = run([CXX, "-std=gnu++17", "-O2", "-g", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-fno-gnu-unique", "-fvisibility=hidden", "-Wno-misleading-indentation", "-o", tmp, src])
    if r.returncode:
        raise CheckError("building libsim failed:\n" + r.stdout[-4000:])
    os.rename(tmp, out)
    open(kf, "w").write(k)
    return out


def build(prop, cfg):
    """Returns {variant: exe}."""
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HERE, "-I" + os.path.join(VERIF, "checks"), "-I" + os.path.join(VERIF, "checks", "shim")]
    if os.path.isdir("/opt/vp/lib/shadow"):
        inc.insert(1, "-I/opt/vp/lib/shadow")
    jobs, exes = [], {}
    pool = ThreadPoolExecutor(JOBS)
    libf = pool.submit(build_lib)
    plan = {}
    for name, v in cfg["variants"].items():
        d = os.path.join(BUILD, prop, name)
        os.makedirs(d, exist_ok=True)
        objs = []
        flags = FLAGS + BASE_DEFS + ["-D" + x for x in v.get("defs", [])] + inc + v.get("flags", [])
        lflags = FLAGS + BASE_DEFS + ["-D" + x for x in v.get("defs", []) if v.get("lib_defs", True)] + inc + v.get("flags", [])
        srcs = [(os.path.join(VERIF, "checks", s), flags + ["-include", os.path.join(HERE, "sim.h")]) for s in v["src"]]
        srcs += [(os.path.join(REPO, s), lflags) for s in v.get("lib", LIBSRC)]
        srcs += [(os.path.join(HERE, "main.cpp"), flags)]
        fs = []
        for i, (s, fl) in enumerate(srcs):
            o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
            objs.append(o)
            fs.append(pool.submit(compile_obj, s, o, fl))
        plan[name] = (d, objs, fs)
    err = None
    for name, (d, objs, fs) in plan.items():
        for f in fs:
            try:
                f.result()
            except CheckError as e:
                err = err or e
    lib = libf.result()
    pool.shutdown()
    if err:
        raise err
    for name, (d, objs, fs) in plan.items():
        exe = os.path.join(d, "sim")
        cmd = [CXX, "-no-pie", "-Wl,-z,now", "-o", exe, "-Wl,--no-as-needed", lib] + objs + ["-Wl,-rpath," + os.path.dirname(lib)] + ["-Wl,--wrap=" + w for w in WRAPS]
        k = sha(json.dumps(cmd) + "".join(filehash_fresh(o) for o in objs))
        kf = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == k):
            r = run(cmd)
            if r.returncode:
                raise CheckError("linking failed:\n" + r.stdout[-4000:])
            open(kf, "w").write(k)
        exes[name] = exe
    return exes


def filehash_fresh(p):
    with open(p, "rb") as f:
        return sha(f.read())


# ---------------------------------------------------------------------------------------- reports
def parse_report(path):
    r = {"choices": [], "fibers": [], "stacks": {}, "trace": []}
    try:
        lines = open(path, errors="replace").read().split("\n")
    except OSError:
        return None
    intr = False
    for l in lines:
        if l == "trace-begin":
            intr = True
        elif l == "trace-end":
            intr = False
        elif intr:
            r["trace"].append(l)
        elif l.startswith("c "):
            r["choices"].append(l)
        elif l.startswith("stack "):
            p = l.split()
            r["stacks"][int(p[1])] = [int(x, 16) for x in p[2:]]
        elif l.startswith("fiber "):
            r["fibers"].append(l)
        else:
            k = l.split(" ", 1)
            if len(k) == 2:
                r[k[0]] = k[1]
    return r if "class" in r else None


_symc = {}
def symbolise(exe, pcs):
    need = [p for p in set(pcs) if (exe, p) not in _symc and p]
    if need:
        r = subprocess.run(["addr2line", "-e", exe, "-f", "-C"] + [hex(p - 1) for p in need], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        o = r.stdout.split("\n")
        for i, p in enumerate(need):
            fn = o[2 * i] if 2 * i < len(o) else "?"
            loc = o[2 * i + 1] if 2 * i + 1 < len(o) else "?"
            loc = re.sub(r" \(discriminator.*", "", loc)
            loc = re.sub(r"^.*/(boost/thread/|src/|checks/)", r"\1", loc)
            _symc[(exe, p)] = (re.sub(r"<.*>", "<>", fn)[:110], loc)
    return [_symc.get((exe, p), ("?", "?")) for p in pcs if p]


def nice_message(exe, rep):
    def sub(m):
        pcs = [int(x, 16) for x in m.group(2).split() if x != "0"]
        return m.group(1) + " " + " <- ".join("%s (%s)" % s for s in symbolise(exe, pcs))
    return re.sub(r"\b(pcs?)((?: [0-9a-f]{6,8}| 0)+)", sub, rep.get("message", ""))


def describe(exe, rep):
    out = []
    for f in rep["fibers"]:
        out.append(f)
        i = int(f.split()[1])
        for fn, loc in symbolise(exe, rep["stacks"].get(i, []))[:12]:
            out.append("    %s  %s" % (fn, loc))
    return out


def write_replay(path, scen, choices, extra=()):
    with open(path, "w") as f:
        for e in extra:
            f.write(e + "\n")
        f.write("scenario %s\n" % scen)
        for c in choices:
            f.write(c + "\n")


def replay_once(exe, path, out, trace=False, timeout=120):
    """(status, report|None); status is 'ok', 'violation' or 'error'."""
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = run([exe, "--replay", path, "--out", out] + (["--trace"] if trace else []), timeout=timeout)
    except subprocess.TimeoutExpired:
        return "error", None
    if r.returncode == 10:
        return "violation", parse_report(out)
    if r.returncode == 0:
        return "ok", {"text": r.stdout}
    return "error", {"text": r.stdout}


def minimise(exe, rep, tmp, budget):
    """ddmin over the recorded choices, keeping scenario and violation class."""
    t0 = time.time()
    best = list(rep["choices"])
    tests = [0]
    pool = ThreadPoolExecutor(JOBS)
    cls = rep["class"]

    def fails(ch, n):
        if time.time() - t0 > budget:
            return False
        p = os.path.join(tmp, "m%d.replay" % n)
        write_replay(p, rep["scenario"], ch)
        st, r = replay_once(exe, p, p + ".out", timeout=60)
        tests[0] += 1
        return st == "violation" and r and r["class"] == cls and (r.get("message", "")[:24] == rep.get("message", "")[:24])

    def first(cands):
        for k in range(0, len(cands), JOBS):
            res = list(pool.map(lambda ic: fails(ic[1], k + ic[0]), enumerate(cands[k:k + JOBS])))
            for i, ok in enumerate(res):
                if ok:
                    return cands[k + i]
            if time.time() - t0 > budget:
                return None
        return None

    n = 2
    while len(best) >= 1 and time.time() - t0 < budget:
        size = max(1, len(best) // n)
        chunks = [(i, min(i + size, len(best))) for i in range(0, len(best), size)]
        c = first([best[:a] + best[b:] for a, b in chunks])
        if c is not None:
            best = c
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(n * 2, len(best))
    pool.shutdown()
    return best, tests[0]


# ---------------------------------------------------------------------------------------- known findings
def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def match_known(known, rep, text):
    for e in known:
        if e.get("scenario") and not re.fullmatch(e["scenario"], rep["scenario"]):
            continue
        if e.get("class") and not re.fullmatch(e["class"], rep["class"]):
            continue
        if all(re.search(x, text, re.S) for x in e.get("match", [])):
            return e
    return None


# ---------------------------------------------------------------------------------------- search
class Worker:
    def __init__(self, exe, variant, k, stride, seed, tmp, scen=None):
        self.exe, self.variant, self.k, self.stride, self.seed, self.scen = exe, variant, k, stride, seed, scen
        self.next, self.n, self.tmp = k, 0, tmp
        self.stats, self.p = [], None

    def start(self, tlimit, count):
        self.n += 1
        b = os.path.join(self.tmp, "%s_%s_%d_%d" % (self.variant, self.scen or "all", self.k, self.n))
        self.out, self.st, self.hash = b + ".out", b + ".stats", os.path.join(self.tmp, "%s_%s_%d.hash" % (self.variant, self.scen or "all", self.k))
        cmd = [self.exe, "--seed", str(self.seed), "--start", str(self.next), "--stride", str(self.stride), "--time", "%.2f" % tlimit,
               "--count", str(count), "--out", self.out, "--stats", self.st, "--hashes", self.hash]
        if self.scen:
            cmd += ["--scen", self.scen]
        self.p = subprocess.Popen(cmd, stdout=open(b + ".log", "w"), stderr=subprocess.STDOUT)
        self.log = b + ".log"

    def collect(self):
        if os.path.exists(self.st):
            try:
                s = json.load(open(self.st))
                self.stats.append(s)
                self.next = s["next_idx"]
            except Exception:
                pass


def merge(stats):
    t = {"runs": 0, "events": 0, "syncs": 0, "switches": 0, "sim_ns": 0, "threads": 0, "max_events": 0, "nondet": 0, "faults": {}, "probes": {}, "scenarios": {}, "samples": []}
    for s in stats:
        for k in ("runs", "events", "syncs", "switches", "sim_ns", "threads", "nondet"):
            t[k] += s[k]
        t["max_events"] = max(t["max_events"], s["max_events"])
        for k, v in s["faults"].items():
            t["faults"][k] = t["faults"].get(k, 0) + v
        for k, v in s["probes"].items():
            o = t["probes"].get(k, [0, 0])
            t["probes"][k] = [o[0] + v[0], o[1] + v[1]]
        for k, v in s["scenarios"].items():
            t["scenarios"][k] = t["scenarios"].get(k, 0) + v
        t["samples"] += s["samples"]
    return t


def gate(exe, out, tmp, tag):
    """Fresh-process replay of the recorded choices must give the same violation, twice, with the same event hash."""
    rep = parse_report(out)
    if not rep:
        raise CheckError("unreadable violation report " + out)
    p = os.path.join(tmp, tag + ".replay")
    write_replay(p, rep["scenario"], rep["choices"])
    st1, r1 = replay_once(exe, p, p + ".1")
    st2, r2 = replay_once(exe, p, p + ".2")
    for st, r in ((st1, r1), (st2, r2)):
        if st != "violation" or r["class"] != rep["class"] or r["hash"] != r1["hash"]:
            raise CheckError("a violation did not replay: scenario %s idx %s seed %s class %s message %s -> %s %s" % (
                rep["scenario"], rep.get("idx"), rep.get("seed"), rep["class"], rep.get("message"), st, r and r.get("class", r.get("text"))))
    return rep, r1


def full_text(exe, rep):
    return rep["class"] + "\n" + nice_message(exe, rep) + "\n" + "\n".join(describe(exe, rep))


def check(prop):
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER") or ("thorough" if "--thorough" in sys.argv else "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = config.CHECKS[prop]
    known = load_known(prop)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp):
        os.unlink(evp)
    exes = build(prop, cfg)
    t_built = time.time()
    print("%s: %s; built %d variant(s) in %.1f s; VERIF_SEED=%d tier=%s" % (prop, cfg["title"], len(exes), t_built - t_start, seed, tier))
    sys.stdout.flush()
    T = float(os.environ.get("VERIF_TIME", cfg.get("quick_s", 16) if tier == "quick" else cfg.get("thorough_s", 600)))
    tmp = tempfile.mkdtemp(prefix="run_", dir=BUILD)
    rc, viol, hits = 0, None, {}
    allstats, hashes = [], []
    try:
        # cross-process determinism: the same indices in two fresh processes
        det = 0
        def detrun(vx):
            v, exe = vx
            o = []
            for _ in range(2):
                r = run([exe, "--seed", str(seed), "--start", "1000003", "--stride", "1", "--count", str(cfg.get("det_runs", 48)), "--verbose", "--twice", "0",
                         "--out", os.path.join(tmp, "det_%s.out" % v)], timeout=400)
                if r.returncode == 3:
                    raise CheckError("simulator error: " + r.stdout[-2000:])
                o.append([l for l in r.stdout.split("\n") if "hash=" in l])
            if o[0] != o[1]:
                raise CheckError("two processes with the same seed differ (variant %s): %s" % (v, [x for x in zip(*o) if x[0] != x[1]][:2]))
            return len(o[0])
        with ThreadPoolExecutor(4) as ex:
            det = sum(ex.map(detrun, exes.items()))
        nv = len(exes)
        wl = []
        weights = {v: cfg["variants"][v].get("weight", 1) for v in exes}
        # every variant gets all the workers for its share of the time
        tot_w = sum(weights.values())
        first_viol = None
        for v, exe in exes.items():
            if first_viol:
                break
            share = T * weights[v] / tot_w
            end = time.time() + share
            ws = [Worker(exe, v, k, JOBS, seed, tmp) for k in range(JOBS)]
            for w in ws:
                w.start(share, 10**12)
            live = list(ws)
            while live:
                time.sleep(0.03)
                for w in list(live):
                    r = w.p.poll()
                    if r is None:
                        if time.time() > end + 150:
                            w.p.kill()
                            raise CheckError("a simulation process did not end")
                        continue
                    w.collect()
                    if r == 0:
                        live.remove(w)
                    elif r == 10:
                        rep = parse_report(w.out)
                        if not rep:
                            raise CheckError("unreadable report")
                        txt = full_text(exe, rep)
                        e = match_known(known, rep, txt)
                        if e:
                            hits.setdefault(e["id"], [e, 0])[1] += 1
                            left = end - time.time()
                            if left > 0.2:
                                w.start(left, 10**12)
                            else:
                                live.remove(w)
                        else:
                            if not first_viol:
                                first_viol = (v, exe, w.out)
                            live.remove(w)
                    elif r == 5:
                        raise CheckError("nondeterminism: " + open(w.log).read()[-1500:])
                    else:
                        raise CheckError("simulation process failed (%s): %s" % (r, open(w.log).read()[-1500:]))
                if first_viol:
                    for w in live:
                        w.p.terminate()
                    for w in live:
                        w.p.wait()
                    break
            wl += ws
        allstats = [s for w in wl for s in w.stats]
        if first_viol:
            v, exe, out = first_viol
            rep, r1 = gate(exe, out, tmp, "gate")
            txt = full_text(exe, r1)
            mb = float(os.environ.get("VERIF_MIN_S", 40 if tier == "quick" else 120))
            small, ntests = minimise(exe, rep, tmp, mb)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%s-%s.replay" % (prop, rep["scenario"], re.sub(r"\W", "_", rep["class"])))
            mp = os.path.join(tmp, "min.replay")
            write_replay(mp, rep["scenario"], small)
            st, rm = replay_once(exe, mp, mp + ".1", trace=True)
            st2, rm2 = replay_once(exe, mp, mp + ".2", trace=True)
            if st != "violation" or st2 != "violation" or rm["hash"] != rm2["hash"] or rm["class"] != rep["class"]:
                raise CheckError("the minimised violation did not replay twice the same")
            head = ["# property %s" % prop, "variant %s" % v, "# found by VERIF_SEED=%d run index %s run seed %s" % (seed, rep.get("idx"), rep.get("seed")),
                    "# class %s" % rm["class"], "# message %s" % nice_message(exe, rm), "# event-hash %s" % rm["hash"],
                    "# %d decisions recorded, %d after minimisation (%d replays)" % (len(rep["choices"]), len(small), ntests),
                    "# replay with: python3 sim/check.py %s --replay %s" % (prop, os.path.relpath(rp, VERIF)),
                    "# decisions 'c KIND THREAD INDEX VALUE': G workload choice, P preemption at the thread's INDEX-th event (VALUE-1 = next thread), K pick when blocked,",
                    "#   T stall, J realtime jump, W which waiter a signal wakes, a.. fault kinds (a spurious wakeup, b EINTR, c thread creation, d mutex init, e cond init, f allocation, i weak CAS, j sleep EINTR, k user exception, l interruption)"]
            head += ["# " + l for l in describe(exe, rm)]
            write_replay(rp, rep["scenario"], small, head)
            print("violation in scenario %s (variant %s): %s: %s" % (rep["scenario"], v, rm["class"], nice_message(exe, rm)))
            for l in describe(exe, rm)[:60]:
                print("  " + l)
            print("minimised to %d decisions:" % len(small))
            for c in small[:60]:
                print("  " + c)
            for l in rm["trace"][-40:]:
                print("  | " + l)
            viol, rc = rp, 1
        hs = set()
        for f in os.listdir(tmp):
            if f.endswith(".hash"):
                d = open(os.path.join(tmp, f), "rb").read()
                for i in range(0, len(d) - 7, 8):
                    hs.add(d[i:i + 8])
        wall = time.time() - t_start
        t = merge(allstats)
        rt = max(0.001, time.time() - t_built)
        nontriv_rule = "one case = one simulated run: scenario, workload choices, schedule and faults all drawn from (VERIF_SEED, run index). Two runs count as distinct when the hash of their sequence of (thread, synchronisation-operation kind) pairs and context switches, with the scenario, differs; a run in which no context switch happened between two threads is not counted as non-trivial because its hash equals that of every other sequential run of the same workload."
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if viol else 0,
              "coverage": {
                  "evaluations": t["runs"], "distinct_nontrivial": len(hs), "rule": nontriv_rule, "samples": t["samples"][:6],
                  "runs_per_hour": int(t["runs"] * 3600 / rt), "seeds": "one 64-bit run seed per run, derived from VERIF_SEED and the run index",
                  "simulated_seconds": round(t["sim_ns"] / 1e9, 3), "events": t["events"], "sync_operations": t["syncs"], "context_switches": t["switches"],
                  "threads_created": t["threads"], "longest_run_events": t["max_events"],
                  "faults_injected": t["faults"], "probes_hits_and_runs": t["probes"], "runs_per_scenario": t["scenarios"], "variants": {v: cfg["variants"][v].get("defs", []) + cfg["variants"][v].get("flags", []) for v in exes},
                  "distinct_measure": "64-bit hashes of interleavings, counted exactly over all workers",
                  "determinism": {"runs_compared_across_two_processes": det, "same_process_repeats_differing": t["nondet"]},
                  "known_findings_hit": {k: v[1] for k, v in hits.items()},
                  "real_components": "boost/thread headers and " + ", ".join(LIBSRC) + " from " + REPO + " (instrumented build of the working tree)",
                  "stub_components": "pthread primitives, clocks, sleeps, thread creation, operator new/delete and malloc, function-static guards (simulator); libstdc++, Boost.Chrono/DateTime/SmartPtr/Atomic headers run real code",
              },
              "assumptions": ["interleaving semantics: every memory access is a possible switch point and memory-model violations are seen as data races, but stale relaxed reads are not simulated",
                              "seeded sampling: a clean run is evidence, not proof"]}
        json.dump(ev, open(evp, "w"), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k, (e, n) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, e["what"], n))
    print("%s: %d runs, %d distinct interleavings, %.0f runs/hour, %.1f simulated s, faults %s, wall %.1f s" % (
        prop, t["runs"], len(hs), t["runs"] * 3600 / rt, t["sim_ns"] / 1e9, json.dumps({k: v for k, v in t["faults"].items() if v}), wall))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol))
    return rc


def do_replay(prop, path):
    cfg = config.CHECKS[prop]
    exes = build(prop, cfg)
    v = next(iter(exes))
    for l in open(path):
        if l.startswith("variant "):
            v = l.split()[1]
    out = os.path.join(BUILD, "replay.%d.out" % os.getpid())
    st, rep = replay_once(exes[v], path, out, trace=True)
    if st == "violation":
        for l in rep["trace"]:
            print(l)
        print("%s: %s" % (rep["class"], nice_message(exes[v], rep)))
        for l in describe(exes[v], rep):
            print(l)
        print("event-hash %s" % rep["hash"])
        os.unlink(out)
        return 1
    print(st, rep and rep.get("text", "")[-20000:])
    return 0 if st == "ok" else 3


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":  # nothing persists between runs: only see that the tools are there
        for t in (CXX, "objcopy", "addr2line"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 3
        print("setup ok: %s" % run([CXX, "--version"]).stdout.splitlines()[0])
        return 0
    prop = a[0]
    try:
        if "--replay" in a:
            return do_replay(prop, a[a.index("--replay") + 1])
        if "--build" in a:
            print(build(prop, config.CHECKS[prop]))
            return 0
        return check(prop)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
