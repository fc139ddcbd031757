#!/usr/bin/env python3
"""Decides one property by seeded simulation of the real KTL headers in /repo. See DESIGN.md.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--runs N]
       check.py --build-all            (setup: builds every simulator once)
       check.py --replay FILE          (re-executes a replay file, with its trace)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KTL_REPO", "/repo")
BUILD = os.environ.get("KTL_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("KTL_OUT", HERE)
JOBS = 8

WRAP = """malloc free calloc realloc posix_memalign aligned_alloc memalign
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock pthread_mutex_clocklock
pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_self
sched_yield nanosleep clock_nanosleep usleep syscall
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort""".split()

RUNTIME = ["sim/rt.cpp", "sim/driver.cpp"]
GROUPS = {
    "world": ["scen/stubs.cpp", "scen/comps_a.cpp", "scen/comps_b.cpp", "scen/comps_c.cpp", "scen/comps_posix.cpp", "scen/comps_generic.cpp", "scen/world.cpp", "scen/volume.cpp"],
    "overflow": ["scen/stubs.cpp", "scen/overflow.cpp"],
    "shared": ["scen/stubs.cpp", "scen/lifetime.cpp", "scen/handles.cpp"],
    "containers": ["scen/stubs.cpp", "scen/containers.cpp", "scen/buffer.cpp", "scen/cont_vec1.cpp", "scen/cont_vec2.cpp", "scen/cont_arr1.cpp", "scen/cont_arr2.cpp", "scen/heap.cpp", "scen/heap1.cpp", "scen/heap2.cpp"],
    "stl": ["scen/stubs.cpp", "scen/heap.cpp", "scen/heap1.cpp", "scen/heap2.cpp", "scen/stl.cpp", "scen/stl1.cpp", "scen/stl2.cpp", "scen/stl3.cpp", "scen/stl4.cpp", "scen/stl5.cpp", "scen/stl_frail1.cpp", "scen/stl_frail2.cpp"],
}
VARIANTS = {
    "a": ["-std=c++17", "-O1"],
    "b": ["-std=c++20", "-O2"],
}
# property: (group, quick runs, thorough runs)
PROPS = {
    "C01": ("world", 2700000, 12000000),
    "C02": ("shared", 7500000, 40000000),
    "C09": ("overflow", 4500000, 25000000),
    "C10": ("overflow", 4500000, 25000000),
    "C11": ("shared", 5400000, 30000000),
    "C12": ("containers", 6000000, 30000000),
    "C13": ("containers", 3000000, 15000000),
    "C14": ("stl", 3600000, 18000000),
    "C17": ("stl", 3000000, 15000000),
    "C15": ("containers", 4800000, 24000000),
    "C16": ("containers", 4800000, 24000000),
    "C03": ("world", 2700000, 12000000),
    "C04": ("world", 2700000, 12000000),
    "C05": ("world", 2700000, 12000000),
    "C06": ("world", 2700000, 12000000),
    "C07": ("world", 2700000, 12000000),
    "C08": ("world", 2700000, 12000000),
}

REAL = ("Real code: every KTL header under /repo/include/ktl, compiled from the working tree. "
        "Simulated: heap (malloc/aligned_alloc/operator new and their releases), mutexes, atomics and plain memory accesses "
        "of KTL code (each is a scheduling point and a race-detector event), threads (one simulated thread per client). "
        "Stubs: strict upstream allocators, sub-allocators with limited room, elements with tracked lifetimes, report streams.")


def log(*a):
    print(*a, flush=True)


def fail(msg):
    log("CHECK-ERROR:", msg)
    sys.exit(2)


def files_under(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return sorted(out)


def tree_hash(variant, group):
    h = hashlib.sha256()
    inc = os.path.join(REPO, "include")
    for f in files_under(inc, (".h", ".hpp", ".inl", ".cpp", ".ipp")):
        h.update(os.path.relpath(f, inc).encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in files_under(os.path.join(HERE, "sim"), (".h", ".cpp")) + files_under(os.path.join(HERE, "scen"), (".h", ".cpp")):
        h.update(os.path.relpath(f, HERE).encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr((VARIANTS[variant], WRAP, GROUPS[group], RUNTIME, REPO)).encode())
    return h.hexdigest()[:16]


def build(group, variant):
    key = tree_hash(variant, group)
    d = os.path.join(BUILD, "%s-%s" % (group, variant))
    exe = os.path.join(d, "sim-" + key)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe, key, 0.0
        t0 = time.time()
        for f in os.listdir(d):
            if f.startswith("sim-") or f.endswith(".o"):
                os.unlink(os.path.join(d, f))
        common = ["clang++", "-g1", "-fno-pie", "-Wno-everything", "-c"]
        std, opt = VARIANTS[variant]
        scen = common + [std, opt, "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + os.path.join(REPO, "include")]
        jobs = []
        for s in GROUPS[group]:
            jobs.append(scen + [os.path.join(HERE, s), "-o", os.path.join(d, os.path.basename(s)[:-4] + ".o")])
        for s in RUNTIME:
            jobs.append(common + ["-std=c++17", "-O2" if s.endswith("rt.cpp") else "-O1", os.path.join(HERE, s), "-o", os.path.join(d, os.path.basename(s)[:-4] + ".o")])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs):
                if r.returncode:
                    log(r.stdout[-6000:])
                    fail("the simulator does not compile against %s/include" % REPO)
        objs = [j[-1] for j in jobs]
        tmp = exe + ".tmp"
        r = subprocess.run(["clang++", "-no-pie"] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-6000:])
            fail("the simulator does not link")
        os.rename(tmp, exe)
        for o in objs:
            os.unlink(o)
        return exe, key, time.time() - t0


def run(cmd, timeout):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        fail("timeout: " + " ".join(cmd))


def replay(exe, path, trace=False):
    """returns (status, class, hash, output)"""
    r = run([exe, "replay", path] + (["--trace"] if trace else []), 120)
    m = re.search(r"^REPLAY violation class=(\S+) hash=(\S+)", r.stdout, re.M)
    if r.returncode == 3 and m:
        return "violation", m.group(1), m.group(2), r.stdout + r.stderr
    m = re.search(r"^REPLAY clean hash=(\S+)", r.stdout, re.M)
    if r.returncode == 0 and m:
        return "clean", "", m.group(1), r.stdout + r.stderr
    return "error", "", "", r.stdout + r.stderr


def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"\bpc (0x[0-9a-f]+)", text)))
    if not pcs:
        return ""
    r = subprocess.run(["addr2line", "-Cfpe", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return "".join("#   %s %s\n" % (pc, l) for pc, l in zip(pcs, r.stdout.splitlines()))


def read_known(prop):
    """known-findings.txt: 'finding: property=<id> replay=<file> class=<class> <text>' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) replay=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((os.path.join(HERE, m.group(2)), m.group(3), m.group(4)))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        for g in GROUPS:
            exe, key, t = build(g, "a")
            log("built", g, "in %.1f s" % t)
        return 0
    if args and args[0] == "--replay":
        text = open(args[1]).read()
        prop = re.search(r"^property (\S+)", text, re.M).group(1)
        var = re.search(r"^# variant (\S+)", text, re.M)
        exe, _, _ = build(PROPS[prop][0], var.group(1) if var else "a")
        st, cls, h, out = replay(exe, args[1], True)
        log(out)
        return 1 if st == "violation" else 0 if st == "clean" else 2
    if not args or args[0] not in PROPS:
        fail("usage: check.py <property>; properties: " + " ".join(PROPS))
    prop = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    group, q, th = PROPS[prop]
    runs = int(opt.get("--runs", q if tier == "quick" else th))
    t0 = time.time()
    log("property %s tier %s seed %d" % (prop, tier, seed))

    variants = ["a"] if tier == "quick" else ["a", "b"]
    results = []
    violation = None
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rdir = os.path.join(OUT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    buildS = 0.0
    known = []
    for vi, var in enumerate(variants):
        exe, key, bt = build(group, var)
        buildS += bt
        if vi == 0:
            # findings recorded as genuine defects that were not repaired: shown, not raised
            for path, cls, text in read_known(prop):
                st, c, h, out = replay(exe, path)
                if st == "violation" and c == cls:
                    log("KNOWN-FINDING: property=%s %s" % (prop, text))
                    known.append(text)
                elif st == "error":
                    fail("the replay of a known finding cannot be executed: " + out[-1500:])
                elif st == "violation":
                    # something else than what was recorded
                    violation = (path, c, h, out, exe, var)
                else:
                    log("note: a recorded finding no longer reproduces:", text)
        if violation:
            break
        out = os.path.join(BUILD, "%s-%s-%d.json" % (prop, var, os.getpid()))
        vio = os.path.join(rdir, "%s-%s.replay" % (prop, var))
        if os.path.exists(vio):
            os.unlink(vio)
        n = runs if var == "a" else max(1, runs // 3)
        wall = 300 if tier == "quick" else 1500
        r = run([exe, "search", "--prop", prop, "--seed", str(seed + (0 if var == "a" else 1000003)), "--runs", str(n), "--jobs", str(JOBS), "--wall", str(wall),
                 "--out", out, "--viol", vio, "--minimise-s", "40"], wall + 400)
        if r.returncode not in (0, 1):
            log(r.stdout[-3000:], r.stderr[-3000:])
            fail("simulator ended with %d" % r.returncode)
        d = json.load(open(out))
        os.unlink(out)
        if d["mismatches"]:
            fail("%d of %d re-executed runs were not deterministic" % (d["mismatches"], d["rechecked"]))
        results.append((var, d))
        if r.returncode == 1:
            a = replay(exe, vio)
            b = replay(exe, vio)
            want = re.search(r"^expect_class (\S+)\nexpect_hash (\S+)", open(vio).read(), re.M)
            if a[0] != "violation" or a[:3] != b[:3] or (a[1], a[2]) != want.groups():
                log(a[3], b[3])
                fail("a reported violation does not replay identically")
            with open(vio) as f:
                text = f.read()
            with open(vio, "w") as f:
                f.write("# variant %s (%s)\n" % (var, " ".join(VARIANTS[var])) + symbolise(exe, text) + text)
            violation = (vio, a[1], a[2], a[3], exe, var)
            break
        if d["runs"] < n:
            log("note: %d of %d runs done within %d s" % (d["runs"], n, wall))

    wallS = time.time() - t0
    tot = lambda k: sum(d[k] for _, d in results)
    merge = lambda k: {x: sum(d[k].get(x, 0) for _, d in results) for x in sorted({y for _, d in results for y in d[k]})}
    if results:
        ss = sum(d["search_s"] for _, d in results) or 1e-9
        faults = {k: v for k, v in merge("faults").items() if v}
        cov = {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct_nontrivial"),
            "rule": "One evaluation is one simulated run: a plan (operations per client, preemption points, faults, heap placement and fill) drawn from the seed, executed against the real headers and judged against the reference model. "
                    "Runs are distinct by the hash of their event log (every scheduling decision, heap and lock event, and every result). Non-trivial: a preemption inside an operation or an injected or natural failure actually happened in it"
                    " (single-client runs without one of these are not counted).",
            "samples": [s for _, d in results for s in d["samples"]][:4] or ["(no sample)"],
            "distinct_event_logs": tot("distinct"),
            "seeds": "one plan seed per run, derived from VERIF_SEED=%d and the run index" % seed,
            "runs_per_hour": int(tot("runs") / ss * 3600),
            "scheduling_points": tot("steps"),
            "context_switches": tot("switches"),
            "context_switches_inside_operations": tot("midop_switches"),
            "client_operations": tot("ops"),
            "simulated_heap_requests": tot("heap_requests"),
            "simulated_time": "%d scheduler steps (KTL has no clock; a step is one intercepted memory, lock or heap event)" % tot("steps"),
            "faults_injected": faults,
            "runs_per_scenario": merge("scenarios"),
            "probes": merge("probes"),
            "determinism": {"runs_re_executed_in_other_processes": tot("rechecked"), "mismatches": tot("mismatches")},
            "components": REAL,
            "build_variants": {v: " ".join(VARIANTS[v]) for v, _ in results},
            "search_s": round(ss, 2), "build_s": round(buildS, 2),
        }
        if known:
            cov["known_findings_reproduced"] = known
    else:
        cov = {"evaluations": 1, "distinct_nontrivial": 0, "rule": "only a recorded finding was replayed; it failed differently than recorded", "samples": [open(violation[0]).read()]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["The sampled runs stand for the others: a clean batch is evidence, not proof.",
                          "Sequentially consistent interleavings with happens-before race detection: effects of weak memory are found as races, not executed.",
                          "Scenario code and KTL are compiled by clang++ 18 with memory-access instrumentation."],
          "wall_s": round(wallS, 2), "violations": 1 if violation else 0}
    p = os.path.join(OUT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)
    for v, d in results:
        log("variant %s: %d runs, %d distinct non-trivial, %.1f s, faults %s" % (v, d["runs"], d["distinct_nontrivial"], d["search_s"], {k: n for k, n in d["faults"].items() if n}))
    if violation:
        path, cls, h, out, exe, var = violation
        log(out.strip()[-1500:])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("held on everything explored (%.1f s)" % wallS)
    return 0


if __name__ == "__main__":
    sys.exit(main())
