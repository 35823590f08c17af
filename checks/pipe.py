"""Checks decided by the simulated compile pipeline (sim/pipesim)."""
import os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lib

# property: worlds and schedules per world in the quick tier, and in the thorough tier
PLAN = {
    "C01": (2400, 7, 20000, 14), "C02": (2400, 3, 20000, 6), "C03": (4000, 2, 60000, 3), "C04": (900, 8, 12000, 20),
    "C05": (1200, 7, 12000, 16), "C06": (900, 7, 9000, 16), "C07": (1000, 7, 12000, 16), "C08": (1000, 6, 12000, 14),
    "C09": (330, 6, 4000, 16), "G02": (330, 6, 4000, 16),
}
FAULTS = ["open EACCES", "open EMFILE", "open EIO", "read EIO", "short read", "read EINTR", "stat failure", "open EINTR", "stat size 0"]
RULE = {
    "C01": "seeded package trees (1-22 modules in 3 packages, file-backed or in memory) collected under seeded schedules, hash seeds and I/O faults; non-trivial: at least 3 sources and at least one fault or preemption decided by the simulator",
    "C02": "seeded texts with odd spacing, comments, multi-byte characters and every literal and sugar form, parsed and built under seeded schedules; every node's position is compared with an independent reader; non-trivial: more than 50 nodes compared",
    "C03": "seeded import graphs (1-26 modules, 60% with cycles) ordered under seeded hash seeds and schedules; non-trivial: at least 3 modules",
    "C04": "seeded programs built under seeded schedules, thread counts and hash seeds; every hand-over to the backend is observed; non-trivial: at least one preemption decided by the simulator",
    "C05": "seeded programs with seeded build faults built under seeded schedules, thread counts and hash seeds, compared with the promise of the text and with the undisturbed run; non-trivial: at least one module failed",
    "C06": "seeded programs whose modules expand macros concurrently, under seeded schedules (a fifth with the real chibi or llvm execution thread); non-trivial: at least 2 macro requests",
    "C07": "seeded programs with top-level statements built under seeded schedules; the order in which initialisers reach the backend is checked; non-trivial: at least 3 initialisers and one preemption",
    "C08": "seeded programs built under seeded schedules; everything the backend receives is checked for closure, single delivery and full specialisation, and compared up to renaming with the undisturbed run; non-trivial: at least 10 definitions",
    "C09": "seeded programs compiled by the real chibi or llvm back end under seeded schedules, hash seeds and collector timing, then run; the output is compared with what the text says; non-trivial: the program printed at least 3 lines and something was preempted or collected",
    "G02": "seeded programs whose modules expand macros that build large answers, compiled by the real back ends with a collector that collects (and overwrites what it frees) at seeded allocations; answers and output are compared with what the text says; non-trivial: at least one collection freed an object and a macro was expanded",
}
ASSUME = [
    "real code: the llrl library crate (lexer to lowering, rayon and crossbeam included), instrumented so that every synchronisation operation and atomic access is a scheduling point",
    "simulated: thread scheduling, futexes and pthread primitives, clocks, getrandom (hash seeds, rayon victim choice), open/read/stat of package files",
    "stubbed: the code generator (a recording backend) unless the sample says chibi or llvm; allocation is not failed",
    "the garbage collector is a conservative mark-and-sweep stand-in with libgc's reachability rules that collects on a seeded decision at any allocation and poisons what it frees",
    "sequentially consistent memory: weak-memory reorderings are not explored",
]


def non_trivial(prop, s, n, digest_err):
    pre = s[2] if len(s) > 2 else 0
    faults = s[11] if len(s) > 11 else 0
    return {
        "C01": n.get("sources", 0) >= 3 and (pre > 0 or faults > 0),
        "C02": n.get("nodes", 0) > 50,
        "C03": n.get("acyclic", 0) + n.get("cyclic", 0) > 0 and n.get("sources", 3) >= 3,
        "C04": pre > 0,
        "C05": n.get("failed", 0) > 0,
        "C06": n.get("macros", 0) >= 2,
        "C07": n.get("inits", 0) >= 3 and pre > 0,
        "C08": n.get("defs", 0) >= 10,
        "C09": n.get("printed", 0) >= 3 and (pre > 0 or (len(s) > 45 and s[45] > 0)),
        "G02": n.get("macros", 0) > 0 and len(s) > 46 and s[46] > 0,
    }[prop]


def check(prop):
    exe = lib.build_pipesim()
    built = time.time()
    q = PLAN[prop]
    worlds, per = (q[2], q[3]) if lib.THOROUGH else (q[0], q[1])
    limit = 3000 if lib.THOROUGH else 150
    d = lib.scratch(prop + "-")
    chunk = max(5, worlds // (lib.CORES * 6))
    jobs = [(a, min(a + chunk, worlds)) for a in range(0, worlds, chunk)]

    def one(j):
        left = limit - (time.time() - built)
        if left < 1:
            return ""
        try:
            p = subprocess.run([exe, "run", prop, str(lib.SEED), str(j[0]), str(j[1]), str(per), d, str(int(left) + 1)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 120, env=lib.env())
        except subprocess.TimeoutExpired as t:
            return (t.stdout or b"").decode("utf-8", "replace") + "\nH a worker did not end\n"
        o = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            o += "\nH worker ended with %s\n" % p.returncode
        return o

    try:
        with ThreadPoolExecutor(lib.CORES) as ex:
            outs = list(ex.map(one, jobs))
        sim_s = time.time() - built
        tot = dict(points=0, switches=0, preemptions=0, waits=0, wakes=0, spurious=0, jumps=0, ns=0)
        fc = [0] * 32
        gc = [0] * 3
        runs = nontriv = twice = 0
        keys, traces, notes, backends, threads, viol, harness, samples, other = set(), set(), {}, {}, {}, [], [], [], 0
        worlds_seen = set()
        for o in outs:
            for l in o.split("\n"):
                if l.startswith("R "):
                    runs += 1
                    head, st, nt = l[2:].split(" | ")
                    h = head.split()
                    if len(h) < 5:
                        harness.append("a run reported no trace: " + l[:300])
                        h += ["-"] * (5 - len(h))
                    worlds_seen.add(h[0])
                    s = [int(x) for x in st.split()]
                    for i, k in enumerate(tot):
                        if i < len(s):
                            tot[k] += s[i]
                    for i in range(32):
                        if 12 + i < len(s):
                            fc[i] += s[12 + i]
                    for i in range(3):
                        if 44 + i < len(s):
                            gc[i] += s[44 + i]
                    n = {}
                    for kv in nt.split(","):
                        if "=" in kv:
                            k, v = kv.split("=")
                            n[k] = int(v)
                            notes[k] = notes.get(k, 0) + int(v)
                    backends[h[3]] = backends.get(h[3], 0) + 1
                    threads[h[2]] = threads.get(h[2], 0) + 1
                    key = (h[0], h[4])
                    traces.add(h[4])
                    if key not in keys and non_trivial(prop, s, n, None):
                        nontriv += 1
                        if len(samples) < 4 or (len(samples) < 8 and nontriv % 97 == 0):
                            samples.append({"world": int(h[0]), "schedule_seed": int(h[1]), "threads": int(h[2]), "backend": h[3], "trace": h[4],
                                            "scheduling_points": s[0], "preemptions": s[2], "notes": n})
                    keys.add(key)
                elif l.startswith("VIOL "):
                    _, path, m = l.split(" ", 2)
                    viol.append((m, path))
                elif l.startswith("H "):
                    harness.append(l[2:])
                elif l.startswith("OTHER "):
                    other += 1
                elif l.startswith("T "):
                    twice += int(l[2:])
        if not runs:
            raise lib.HarnessError("no run was made: " + outs[0][-2000:])
        report = []
        classes = set()
        for m, path in viol:
            c = "".join(ch for ch in m if not ch.isdigit())[:24]
            if c in classes or len(classes) >= 3:
                continue
            classes.add(c)
            small = path + ".min"
            subprocess.run([exe, "minimise", path, small], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, env=lib.env())
            use = path
            if os.path.exists(small):
                p = subprocess.run([exe, "replay", small], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, env=lib.env())
                if p.returncode == 1:
                    use = small
                    mm = [x for x in p.stdout.decode("utf-8", "replace").splitlines() if x.startswith("V %s " % prop)]
                    if mm:
                        m = mm[0].split(" ", 2)[2]
            report.append((m, lib.keep_replay(prop, use)))
        cov = {
            "evaluations": runs, "distinct_nontrivial": nontriv, "rule": RULE[prop] + "; distinct: by world and by the hash of the whole scheduling trace",
            "samples": samples, "worlds": len(worlds_seen), "distinct_interleavings": len(traces),
            "interleaving_measure": "hash of the sequence of (thread chosen, reason) at every scheduling point",
            "runs_per_hour": int(runs * 3600 / max(sim_s, 0.1)), "simulated_time_s": round(tot["ns"] / 1e9, 3),
            "schedule": {k: v for k, v in tot.items() if k != "ns"},
            "faults_injected": {FAULTS[i]: fc[i] for i in range(len(FAULTS)) if prop == "C01"} or {"spurious wake-ups": tot["spurious"], "preemptions": tot["preemptions"], "clock jumps": tot["jumps"]},
            "threads": threads, "backends": backends, "observed": notes, "runs_repeated_and_compared": twice,
            "collector": {"allocations": gc[0], "collections": gc[1], "objects_freed": gc[2]}, "violations_of_other_properties_met": other, "harness_messages": harness[:5],
        }
        lib.evidence(prop, "exploration", cov, ASSUME, len(viol))
        rc = lib.conclude(prop, report)
        if rc == 0 and harness:
            for h in harness[:5]:
                print("harness: " + h)
            return 2
        print("%s: %d simulated runs of %d worlds, %d distinct interleavings, %d non-trivial, %.0f s" % (prop, runs, len(worlds_seen), len(traces), nontriv, time.time() - lib.T0))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    exe = lib.build_pipesim()
    return subprocess.run([exe, "replay", path], env=lib.env()).returncode


MAGIC = "pipesim case"


def setup():
    lib.build_pipesim()
