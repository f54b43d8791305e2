#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property by seeded search.

  check.py <property>        exit 0: held on everything explored
                             exit 1: prints "VIOLATION property=<id> replay=<path>"
                             exit 2: the check could not be carried out
  check.py --build           only builds
  check.py --replay <file>   rebuilds and replays a replay file
  check.py --determinism [n] every property: n runs twice, in different process layouts
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO (default /repo), VERIF_WALL (seconds of search).
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("VERIF_OUT", HERE)     # where replays/ and evidence/ go
SCN = ["sem", "ring", "pool", "mq", "mutex", "ctor", "prio", "jobs", "indep", "user", "pipe"]
LIBFLAGS = ("-std=c++17 -O1 -g1 -w -fno-omit-frame-pointer -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
            "-fno-builtin-memset -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memcmp "
            "-U_FORTIFY_SOURCE -fno-pie -fdata-sections -DREISER_RT_HAS_PTHREADS").split()
HOSTFLAGS = "-std=c++17 -O2 -g1 -w -U_FORTIFY_SOURCE -fno-pie".split()
WRAP = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memset", "memcpy", "memmove", "memcmp"]
EXPORT_H = """#pragma once
#define ReiserRT_Core_EXPORT __attribute__((visibility("default")))
#define ReiserRT_Core_NO_EXPORT __attribute__((visibility("hidden")))
#define ReiserRT_Core_DEPRECATED __attribute__((__deprecated__))
#define ReiserRT_Core_DEPRECATED_EXPORT ReiserRT_Core_EXPORT ReiserRT_Core_DEPRECATED
#define ReiserRT_Core_DEPRECATED_NO_EXPORT ReiserRT_Core_NO_EXPORT ReiserRT_Core_DEPRECATED
"""
# simulated runs of a quick check (about 12 s of search on 8 cores)
RUNS = {"C01": 350000, "C02": 260000, "C03": 700000, "C04": 900000, "C05": 340000, "C06": 1500000, "C07": 400000,
        "C08": 400000, "C09": 520000, "C10": 240000, "C11": 360000, "C12": 210000, "C13": 520000, "C14": 400000,
        "C15": 190000, "C16": 250000, "C17": 290000, "C18": 150000, "C19": 440000, "C20": 330000, "C21": 210000,
        "C22": 190000, "C23": 900000, "C24": 230000, "C25": 480000, "C26": 100000, "C27": 360000, "C30": 30000, "C31": 160000, "C32": 200000, "C33": 400000, "C34": 350000}
THOROUGH = 40
# searched apart, because a finding that is not repaired would end the main search at once
APART = {"C30": ["C30.one", "C30.unknown"]}


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def sources():
    lib = sorted(f for f in glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True) if re.search(r"\.(cpp|cc|cxx|hpp|h|hh|tpp|ipp|inl)$", f))
    ex = sorted(f for f in glob.glob(os.path.join(REPO, "examples", "JobDispatcher", "src", "*")) if re.search(r"\.[ch]pp$", f))
    return lib, ex, sorted(glob.glob(os.path.join(SIM, "*.[ch]pp")))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def static_data(obj, everything):
    """Moves the static variables of the library (or of its templates, instantiated elsewhere) into a section of their own: every run starts with their initial values."""
    rc, out = run(["readelf", "-SW", obj])
    if rc:
        fail("readelf failed\n" + out[-2000:])
    args = []
    for name in sorted(set(re.findall(r"\]\s+(\.(?:data|bss)(?:\.\S*)?)\s", out))):
        if not name.startswith(".data.rel.ro") and (everything or "8ReiserRT" in name) and (everything or len(name) > 5):
            args += ["--rename-section", name + "=simlibdata,alloc,load,data,contents"]
    if args:
        rc, out = run(["objcopy", *args, obj])
        if rc:
            fail("objcopy failed\n" + out[-2000:])


def build():
    lib, example, sim = sources()
    if not lib:
        fail("no sources in %s/src" % REPO)
    h = hashlib.sha256(repr([LIBFLAGS, HOSTFLAGS, WRAP, EXPORT_H]).encode())
    for f in lib + example + sim:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    d = os.path.join(BUILD, h.hexdigest()[:20])
    exe = os.path.join(d, "sim")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(BUILD, "????????????????????")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "inc"))
        with open(os.path.join(tmp, "inc", "ReiserRT_CoreExport.h"), "w") as f:
            f.write(EXPORT_H)
        inc = ["-I" + os.path.join(tmp, "inc"), "-I" + SIM]
        for x in sorted({os.path.dirname(f) for f in lib + example}):
            inc.append("-I" + x)
        example = [f for f in example if f.endswith(".cpp") and os.path.basename(f) != "main.cpp"]
        jobs, objs = [], []
        for n, f in enumerate(x for x in lib if re.search(r"\.(cpp|cc|cxx)$", x)):
            o = os.path.join(tmp, "lib%d_%s.o" % (n, os.path.basename(f)))
            jobs.append(["g++", *LIBFLAGS, *inc, "-c", f, "-o", o]); objs.append(o)
        for f in example:
            o = os.path.join(tmp, "ex_%s.o" % os.path.basename(f))
            jobs.append(["g++", *LIBFLAGS, *inc, "-c", f, "-o", o]); objs.append(o)
        for s in ["scn_" + x for x in SCN] + ["scn"]:
            o = os.path.join(tmp, s + ".o")
            jobs.append(["g++", *LIBFLAGS, *inc, "-c", os.path.join(SIM, s + ".cpp"), "-o", o]); objs.append(o)
        host = []
        for s in ["rt", "case", "lin", "main"]:
            o = os.path.join(tmp, s + ".o")
            jobs.append(["g++", *HOSTFLAGS, "-I" + SIM, "-c", os.path.join(SIM, s + ".cpp"), "-o", o]); host.append(o)
        # the longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[j.index("-c") + 1]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for rc, out in ex.map(run, jobs):
                if rc:
                    fail("build failed\n" + out[-4000:])
        for o in objs:
            static_data(o, not os.path.basename(o).startswith("scn"))
        rc, out = run(["g++", "-no-pie", "-g1", "-o", os.path.join(tmp, "sim"), *host, *objs, "-Wl," + ",".join("--wrap=" + w for w in WRAP), "-lpthread"])
        if rc:
            fail("link failed\n" + out[-4000:])
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return exe


def resolve(exe, text):
    """Annotates pc=0x... with function and line."""
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", text)))
    if not pcs:
        return text
    try:
        out = subprocess.run(["addr2line", "-Cfse", exe] + ["0x%x" % (int(p, 16) - 1) for p in pcs], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except OSError:
        return text
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(out):
            text = re.sub(r"pc=%s\b" % p, lambda m: "in %s (%s)" % (out[2 * i].split("(")[0], out[2 * i + 1].split(" ")[0]), text)
    return text


def properties():
    r = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        r[d["id"]] = d
    return r


def known_findings(prop):
    """Unfixed findings: 'finding: property=<id> class=<tag> match=<regular expression of the message> | <what fails>'."""
    r = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) \| (.*)", l)
            if m and m.group(1) == prop:
                r.append(m.groups()[1:])
    except OSError:
        pass
    return r


REAL = ["src/Semaphore", "src/RingBufferSimple", "src/RingBufferGuarded", "src/Mutex", "src/MemoryPoolBase", "src/MemoryPoolDeleterBase", "src/ObjectPool",
        "src/ObjectPoolDeleter", "src/BlockPool", "src/BlockPoolDeleter", "src/MessageQueueBase", "src/MessageQueue", "src/ReiserRT_CoreExceptions", "examples/JobDispatcher (C30)",
        "libstdc++ headers (std::function, lock guards, atomics, unique_ptr), compiled with instrumentation"]
STUB = ["threads (fibers on one OS thread), thread creation and join, std::random_device and the number of processors (C30)", "the scheduler", "pthread mutexes, condition variables, reader-writer and spin locks, POSIX semaphores, call_once",
        "clocks and sleeps (virtual time)", "the heap used by library and scenario code", "atomic operations (executed by the simulator, sequentially consistent "
        "in value, with happens-before edges only as strong as the memory order asked for)"]


def explore(exe, name, seed, runs, workers, wall, rp):
    """Runs a batch; returns what the simulator reports."""
    p = subprocess.run([exe, "batch", name, str(seed), "0", str(runs), str(workers), str(wall), rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode not in (0, 1):
        fail("simulator failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
    try:
        return json.loads(p.stdout)
    except ValueError:
        fail("unreadable simulator output: " + p.stdout[-500:] + p.stderr[-500:])


def main():
    if len(sys.argv) < 2:
        fail("usage: check.py <property>")
    if sys.argv[1] == "--build":
        print(build())
        return 0
    if sys.argv[1] == "--replay":
        exe = build()
        p = subprocess.run([exe, "replay", sys.argv[2]] + sys.argv[3:], stdout=subprocess.PIPE, text=True)
        sys.stdout.write(resolve(exe, p.stdout))
        return p.returncode
    if sys.argv[1] == "--determinism":
        exe = build()
        n = sys.argv[2] if len(sys.argv) > 2 else "200"
        bad = 0
        for prop in sorted(RUNS):
            for seed in ("1", "7"):
                a = subprocess.Popen([exe, "hash", prop, seed, "0", n], stdout=subprocess.PIPE)
                b = subprocess.Popen([exe, "hash", prop, seed, "0", n], stdout=subprocess.PIPE, env={"SOME_OTHER": "environment"}, cwd="/")
                same = a.communicate()[0] == b.communicate()[0]
                bad += not same
                print(prop, seed, "identical" if same else "DIFFERENT", flush=True)
        return 2 if bad else 0
    t0 = time.time()
    prop = sys.argv[1]
    if prop not in RUNS:
        fail("no check for " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe = build()
    t1 = time.time()
    info = properties()[prop]
    runs = RUNS[prop] * (THOROUGH if tier == "thorough" else 1)
    wall = float(os.environ.get("VERIF_WALL", "600" if tier == "thorough" else "45"))
    workers = max(1, min(os.cpu_count() or 1, 32))
    # determinism self-check on a sample: two processes, event-log hashes must agree
    nd = "400" if tier == "thorough" else "24"
    ha = [subprocess.Popen([exe, "hash", prop, str(seed), "0", nd], stdout=subprocess.PIPE, text=True) for _ in range(2)]
    outs = [p.communicate()[0] for p in ha]
    if outs[0] != outs[1] or any(p.returncode for p in ha) or not outs[0]:
        fail("the simulation of %s is not deterministic" % prop)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    rp = os.path.join(OUT, "replays", "%s-%s-%d.txt" % (prop, tier, seed))
    if os.path.exists(rp):
        os.remove(rp)
    d = explore(exe, prop, seed, runs, workers, wall, rp)
    hours = max(d["search_s"], 1e-6) / 3600
    faults = {k: {"times": v[0], "runs": v[1]} for k, v in d["faults"].items()}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct"],
            "rule": "A case is one simulated execution: workload, sizes, enabled faults, scheduling strategy and every scheduling and fault decision derive from "
                    "(VERIF_SEED, run number). Non-trivial: at least two simulated threads and at least one preemption or injected fault. Distinct: the hash "
                    "of the event log (every synchronisation event with thread and object, every context switch) differs.",
            "samples": d["samples"],
            "runs_requested": runs,
            "nontrivial_runs": d["nontrivial"],
            "runs_per_hour": int(d["runs"] / hours),
            "seeds_per_hour": int(d["runs"] / hours),
            "seed_range": "VERIF_SEED=%d, run numbers 0..%d (each run number is a seed of its own)" % (seed, runs - 1),
            "simulated_seconds": d["sim_us"] / 1e6,
            "simulated_threads": d["threads"],
            "steps": d["steps"], "context_switches": d["switches"], "preemptions": d["preemptions"], "recorded_decisions": d["decisions"],
            "faults_injected": {k: v for k, v in faults.items() if v["times"]},
            "faults_not_injected": [k for k, v in faults.items() if not v["times"]],
            "conditions_reached": {k: {"times": v[0], "runs": v[1]} for k, v in d["probes"].items()},
            "runs_ended_early_by_other_properties": d["foreign"],
            "observations_claimed_by_other_properties": d["soft_foreign"],
            "first_foreign": resolve(exe, "%s: %s (run %d)" % (d["foreign_tag"], d["foreign_msg"], d["foreign_run"])) if d["foreign"] else None,
            "linearizability_searches_cut_off": d["lin_capped"],
            "determinism_self_check": "%s runs executed twice in separate processes, event logs identical" % nd,
            "real_code": REAL, "stubbed": STUB,
        },
        "assumptions": ASSUME,
        "wall_s": 0.0,
        "violations": 0,
    }
    rc = 0
    lines = []
    def judge(d, rp, found_by):
        """A violation is reported, or recognised as one of the findings listed in KNOWN_FINDINGS.txt."""
        v = d["violation"]
        msg = resolve(exe, v["msg"])
        with open(rp, errors="replace") as f:
            body = f.read()
        with open(rp, "w") as f:
            f.write("# property %s: %s\n# %s\n" % (prop, info["title"], msg.replace("\n", " ")) + body)
        known = [k for k in known_findings(prop) if k[0] == v["tag"] and re.search(k[1], found_by + ": " + msg)]
        r = {"class": v["tag"], "message": msg, "run": v["run"], "operations_after_minimisation": v["ops"], "decisions_after_minimisation": v["decisions"], "replay": rp}
        if known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[0][2]))
            ev["coverage"].setdefault("known_findings", []).append(r)
            return 0
        ev["violations"] += 1
        ev["coverage"].setdefault("violation", r)
        lines.append("%s violated: %s" % (prop, msg))
        lines.append("found by seed %d run %d of %s; minimised to %d operations and %d scheduling decisions; replay: bash %s/replay.sh %s"
                     % (seed, v["run"], found_by, v["ops"], v["decisions"], HERE, rp))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if d.get("violation"):
        rc |= judge(d, rp, prop)
    else:
        lines.append("%s held: %d runs (%d distinct), %.0f s simulated, %d preemptions, %.1f s search, %.1f s build"
                     % (prop, d["runs"], d["distinct"], d["sim_us"] / 1e6, d["preemptions"], d["search_s"], t1 - t0))
    for name in APART.get(prop, []):
        arp = rp.replace(prop + "-", name + "-", 1)
        if os.path.exists(arp):
            os.remove(arp)
        a = explore(exe, name, seed, runs // 20, workers, wall, arp)
        ev["coverage"].setdefault("searched_apart", {})[name] = {"runs_requested": runs // 20, "runs": a["runs"], "ended_by_violation": bool(a.get("violation"))}
        if a.get("violation"):
            rc |= judge(a, arp, name)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("\n".join(lines), flush=True)
    return rc


LEVEL = {"C26": "fault_enumeration"}
ASSUME = ["atomic loads return the latest visible value; stores weaker than sequentially consistent may become visible late (store buffers), other effects of weak orderings are judged by the happens-before race detector only",
          "code is compiled by g++ -O1; reorderings by other compilers are covered only as far as they need a data race to matter",
          "preemption happens at instrumented memory accesses, atomic operations and synchronisation calls, not between arbitrary instructions"]

if __name__ == "__main__":
    sys.exit(main())
