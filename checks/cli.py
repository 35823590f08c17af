"""Checks decided by the simulated system around the compiler's executable (sim/clisim): files,
directories, pipes and processes from the moment there is code to write, until the built program ended."""
import hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, time
import lib, simos

MAGIC = "clisim replay"
D = os.path.join(lib.VERIF, "sim", "clisim")
OUT = os.path.join(lib.BUILD, "clisim")
PLAN = ("C10", "C11")
KINDS = ["mkdir", "create", "open", "write", "pipe", "spawn", "poll", "read", "wait", "remove", "readdir"]
SOFT = {("mkdir", 17), ("create", 4), ("create", 17), ("write", 4), ("read", 4), ("poll", 4), ("wait", 4)}  # interrupted or taken: to be repeated
CLEANUP = ("open", "remove", "readdir")
RUNS = {"C10": (4000, 60000), "C11": (4000, 60000)}


def build():
    e = lib.env()
    llrl0 = simos.build_llrl0(e)
    os.makedirs(OUT, exist_ok=True)
    so = os.path.join(OUT, "clisim.so")
    with lib.lock("clisim"):
        lib.run_build(["gcc", "-O2", "-g", "-fPIC", "-shared", "-o", so + ".tmp", os.path.join(D, "clisim.c"), "-ldl"], D, e, "building the simulated system")
        os.replace(so + ".tmp", so)
    return llrl0


class Plan(dict):
    def copy(self):
        return Plan(json.loads(json.dumps(self)))


# ------------------------------------------------------------------ worlds
def sources(rng):
    """A few modules; and whether they compile."""
    n = rng.choice([1, 1, 2, 3])
    files, names = {}, ["m%d" % i for i in range(n)]
    for i, m in enumerate(names):
        later = names[i + 1:]
        t = "(no-implicit-std)\n(import \"builtin\" _)\n"
        for k in later:
            t += "(import \"~/%s\" f-%s)\n" % (k, k)
        t += "(export f-%s)\n" % m
        t += "".join("(function (g%d-%s) {(-> I32)} %d)\n" % (j, m, rng.randrange(1000)) for j in range(rng.choice([0, 1, 3, 40])))
        t += "(function (f-%s) {(-> I32)} %s)\n" % (m, "(f-%s)" % later[0] if later else "7")
        t += "(f-%s)\n" % m
        files[m + ".llrl"] = t
    ok = True
    if rng.random() < 0.06:
        ok = False
        bad = rng.choice(names) + ".llrl"
        how = rng.randrange(4)
        if how == 0:
            files[bad] += "(undefined-thing)\n"
        elif how == 1:
            files[bad] += "(((\n"
        elif how == 2:
            del files[bad]
        else:
            files[bad] += "(import \"~/m0\" _)\n(import \"~/nowhere\" _)\n"
    return files, ok


def linker_script(rng):
    s, quiet = [], rng.random() < 0.5
    size = [1, 39, 200, 4096, 70000, 150000]
    if not quiet:
        for _ in range(rng.randrange(3)):
            s.append("%s %d" % (rng.choice("oe"), rng.choice(size)))
    s += ["s 1"] * rng.randrange(3)
    fate = rng.random()
    if fate < 0.6:
        s.append("w 0")
        good = True
    elif fate < 0.7:
        s.append("w 1")
        good = False
    else:
        good = False
    if not quiet:
        for _ in range(rng.randrange(2)):
            s.append("%s %d" % (rng.choice("oe"), rng.choice(size)))
    if good and rng.random() < 0.15:
        s.append("c 0")
        s += ["s 1"] * rng.randrange(4)
    if good:
        s.append("x 0" if rng.random() < 0.9 else rng.choice(["x 1", "k 9", "k 15"]))
    else:
        s.append(rng.choice(["x 1", "x 1", "x 254", "x 2", "k 9", "k 11", "k 15", "k 6"]))
    return ";".join(s)


def program_script(rng):
    s = []
    for _ in range(rng.randrange(4)):
        s.append(rng.choice(["o %d" % rng.choice([1, 30, 1000, 70000]), "e %d" % rng.choice([1, 30]), "s 1"]))
    if rng.random() < 0.6:
        s.insert(rng.randrange(len(s) + 1), "i 0")
    s.append(rng.choice(["x 0", "x 0", "x 0", "x %d" % rng.choice([1, 2, 3, 7, 42, 100, 101, 127, 128, 134, 139, 200, 255]), "k %d" % rng.choice([1, 2, 6, 8, 9, 11, 13, 15])]))
    return ";".join(s)


ARGS = ["", "a", "b c", "--", "-o", "--run", "x=y", "Ünïcødé", "*", "$HOME", "'q\"", "-", "a\nb", "--help", "-V", "0"]


def generate(prop, seed):
    rng = random.Random(seed * 2 + (prop == "C11"))
    p = Plan(seed=seed, rates={}, faultmax=rng.choice([1, 1, 1, 2, 3, 1000]), dec=None)
    p["files"], p["compiles"] = sources(rng)
    p["pipecap"] = rng.choice([65536, 4096, 512])
    p["linker"] = linker_script(rng)
    p["program"] = program_script(rng)
    p["rates"]["sched"] = rng.choice([0, 100000, 400000])
    p["backend"] = rng.choice(["chibi", "llvm"])
    if prop == "C11":
        if rng.random() < 0.7:
            p["linker"] = rng.choice(["w 0;x 0", "s 1;w 0;x 0", "o 100;w 0;e 39;x 0"])
        rate = rng.choice([0, 0, 20000, 100000])
        kinds = KINDS if rng.random() < 0.4 else ["spawn", "wait", "poll", "read", "remove"]
    else:
        rate = rng.choice([0, 20000, 60000, 150000, 300000])
        kinds = KINDS
    if rate:
        for k in kinds:
            if rng.random() < 0.6:
                p["rates"][k] = rate * (3 if k in ("mkdir", "spawn", "pipe") else 1)
    a = ["-b", p["backend"]]
    if rng.random() < 0.2:
        a.append("-O")
    p["output"] = rng.choice([None, None, "out", "sub/out", "out.exe"])
    if prop == "C10" and p["output"] is None and rng.random() < 0.5:
        p["output"] = "out"
    p["stale"] = bool(p["output"]) and rng.random() < 0.4
    if p["output"]:
        a += ["-o", p["output"]]
    p["clang"] = [rng.choice(["-O1", "-g", "-Wl,--as-needed", "-static"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    for c in p["clang"]:
        a += ["--clang-option=" + c]
    p["args"] = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 5]))] if prop == "C11" or rng.random() < 0.3 else []
    run = p["output"] is None or bool(p["args"])
    if p["output"] and rng.random() < (0.7 if prop == "C11" else 0.3):
        a.append(rng.choice(["-r", "--run"]))
        run = True
    p["run"] = run
    a.append(rng.choice(["m0", "m0.llrl"]))
    if p["args"]:
        a += ["--"] + p["args"]
    p["argv"] = a
    p["stdin"] = "".join(chr(97 + rng.randrange(26)) for _ in range(rng.choice([0, 10, 1000, 9000])))
    return p


# ------------------------------------------------------------------ one run
def unhex(s):
    return bytes.fromhex(s).decode("utf-8", "surrogateescape")


class Report:
    def __init__(self, text):
        self.raw, self.events, self.dec, self.stat, self.end = text, [], [], {}, None
        for l in text.split("\n"):
            w = l.split(" ")
            if w[0] == "DEC":
                self.dec.append([w[1], int(w[2]), int(w[3])])
            elif w[0] == "STAT":
                for kv in w[1:]:
                    a, b = kv.split("=")
                    self.stat[a] = b
            elif w[0] == "END":
                self.end = w[1]
            elif w[0]:
                self.events.append(w)
        self.status, self.out, self.err, self.left, self.timeout = None, b"", b"", {}, False

    def of(self, k):
        return [e for e in self.events if e[0] == k]


class Runner:
    def __init__(self, llrl0, d):
        simos.fixed_addresses()
        self.llrl0, self.d, self.so, self.sizes = llrl0, d, os.path.join(OUT, "clisim.so"), {}

    def run(self, plan):
        base = os.path.join(self.d, "p%d" % os.getpid())
        root = base + ".root"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root + "/tmp")
        os.makedirs(root + "/w/sub")
        for f, t in plan["files"].items():
            with open(os.path.join(root, "w", f), "w") as o:
                o.write(t)
        if plan["stale"]:
            with open(os.path.join(root, "w", plan["output"]), "w") as o:
                o.write("#!built 0 stale\n")
            os.chmod(os.path.join(root, "w", plan["output"]), 0o755)
        l = ["seed %d" % plan["seed"], "report " + base + ".rep", "root " + root, "faultmax %d" % plan["faultmax"], "pipecap %d" % plan["pipecap"], "linker " + plan["linker"], "program " + plan["program"]]
        l += ["rate %s %d" % kv for kv in plan["rates"].items()]
        if plan["dec"] is not None:
            l += ["replay 1"] + ["dec %s %d %d" % tuple(x) for x in plan["dec"]]
        with open(base + ".plan", "w") as f:
            f.write("\n".join(l) + "\n")
        with open(base + ".in", "wb") as f:
            f.write(plan["stdin"].encode())
        if os.path.exists(base + ".rep"):
            os.unlink(base + ".rep")
        env = {"LD_PRELOAD": self.so, "CLISIM_PLAN": base + ".plan", "TMPDIR": root + "/tmp", "PATH": "/nonexistent", "RAYON_NUM_THREADS": "2", "LD_LIBRARY_PATH": os.environ.get("LD_LIBRARY_PATH", "")}
        timeout = False
        with open(base + ".in", "rb") as i, open(base + ".out", "wb") as o, open(base + ".err", "wb") as er:
            p = subprocess.Popen([self.llrl0] + plan["argv"], cwd=root + "/w", env=env, stdin=i, stdout=o, stderr=er, start_new_session=True)
            try:
                p.wait(90)
            except subprocess.TimeoutExpired:
                timeout = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        try:
            text = open(base + ".rep", errors="replace").read()
        except FileNotFoundError:
            raise lib.HarnessError("a simulated run left no report: seed %d" % plan["seed"])
        r = Report(text)
        r.status, r.timeout = p.returncode, timeout
        r.out = open(base + ".out", "rb").read()
        r.err = open(base + ".err", "rb").read()
        for dp, dn, fn in os.walk(root):
            for n in dn + fn:
                q = os.path.join(dp, n)
                r.left[q[len(root):]] = os.path.isdir(q)
        shutil.rmtree(root, ignore_errors=True)
        if r.end == "fork":
            raise lib.HarnessError("the compiler forks by itself: not simulated")
        return r

    def clean_inputs(self, plan):
        """What the linker is given when nothing fails: kinds and sizes, in order."""
        key = json.dumps([plan["files"], plan["backend"], "-O" in plan["argv"]], sort_keys=True)
        if key not in self.sizes:
            q = plan.copy()
            q.update(rates={}, dec=[], linker="w 0;x 0", program="x 0")
            r = self.run(q)
            self.sizes[key] = [(e[1], e[2], e[3] if e[1] == "archive" else "") for e in r.of("INPUTFILE")]
            if len(self.sizes) > 50:
                self.sizes = {key: self.sizes[key]}
        return self.sizes[key]


def hard(rep):
    """Failures nothing can be done about."""
    return [e for e in rep.of("FAULT") if (e[1], int(e[2])) not in SOFT and e[1] not in CLEANUP]


def cleanup_faults(rep):
    return [e for e in rep.of("FAULT") if e[1] in CLEANUP]


def built(plan, rep):
    """Whether a linker that was given everything ended well, and after that nothing but it was needed."""
    return any(e[1] == "linker" and e[2:] == ["0", "0"] for e in rep.of("ENDED")) and any(e[1] == "linker" for e in rep.of("REAPED"))


def argvs(rep):
    out = []
    for e in rep.events:
        if e[0] == "SPAWN":
            out.append((e[1], []))
        elif e[0] == "ARGV":
            out[-1][1].append(unhex(e[1]) if len(e) > 1 else "")
    return out


def hang(rep):
    if rep.timeout:
        return "the compiler never ends"
    if rep.end == "deadlock":
        return "the compiler and the process it started wait for each other forever"
    if rep.end == "no-progress":
        return "the compiler makes no progress"
    return None


def judge_c10(plan, rep, runner):
    v = []
    h = hang(rep)
    if h:
        return [h]
    if rep.of("ESCAPE"):
        raise lib.HarnessError("the compiler changes files outside of its folders: %s" % unhex(rep.of("ESCAPE")[0][2]))
    ok = rep.status == 0
    spawned_program = any(w == "program" for w, _ in argvs(rep))
    if not plan["compiles"]:
        if any(w == "linker" for w, _ in argvs(rep)):
            v.append("a program with errors is linked")
        if ok:
            v.append("success is reported for a program with errors")
    if ok or spawned_program:
        what = "success is reported" if ok else "a program is run"
        if plan["compiles"] and not built(plan, rep):
            v.append("%s although no linker ended well" % what)
        elif plan["compiles"]:
            got = [(e[1], e[2], e[3] if e[1] == "archive" else "") for e in rep.of("INPUTFILE")]
            want = runner.clean_inputs(plan)
            if any(g[0] in ("missing", "cut") for g in got) or got != want:
                v.append("%s although the linker was given %s, not the complete %s" % (what, [g[:2] for g in got], [w[:2] for w in want]))
            lk = [a for w, a in argvs(rep) if w == "linker"][-1]
            if plan["output"] and os.path.normpath(lk[lk.index("-o") + 1] if "-o" in lk[:-1] else "") != os.path.normpath(plan["output"]):
                v.append("%s although the linker was not asked for the executable %s: %s" % (what, plan["output"], lk))
    if not ok and not rep.err.strip() and not spawned_program:
        v.append("the compiler ends with %s and says nothing" % rep.status)
    if not cleanup_faults(rep):
        for p in sorted(rep.left):
            if p.startswith("/tmp/"):
                v.append("left behind: %s" % re.sub(r"\.tmp\w+", ".tmp*", p))
                break
    mine = {"/w/" + f for f in plan["files"]} | {"/tmp", "/w", "/w/sub"} | ({"/w/" + plan["output"]} if plan["output"] else set())
    other = [p for p in sorted(rep.left) if p not in mine and not p.startswith("/tmp/")]
    if other and not cleanup_faults(rep):
        v.append("left behind: %s" % other[0])
    return v


def program_output(script, which, e):
    """The bytes a script writes to its output (e=0) or error stream, and how it ends."""
    b = bytearray()
    for s in script.split(";"):
        w = s.split(" ")
        n = int(w[1]) if len(w) > 1 else 0
        if w[0] == "oe"[e]:
            b += bytes(10 if i % 40 == 39 else b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"[(i * 7 + which * 5 + e * 11) % 36] for i in range(n))
        elif w[0] == "x":
            return bytes(b), n
        elif w[0] == "k":
            return bytes(b), -n
    return bytes(b), 0


def fnv(b):
    h = 14695981039346656037
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return "%x" % h


def judge_c11(plan, rep, runner):
    v = []
    h = hang(rep)
    if h:
        return [h]
    progs = [a for w, a in argvs(rep) if w == "program"]
    ended = [e for e in rep.of("ENDED") if e[1] == "program"]
    reaped = any(e[1] == "program" for e in rep.of("REAPED"))
    images = rep.of("IMAGE")
    _, fate = program_output(plan["program"], 1, 0)
    if not plan["run"]:
        if progs:
            v.append("a program is run that was not to be run")
        return v
    if len(ended) > 1 or len(images) > 1:
        v.append("the program is run more than once")
    started = bool(images) and not any(e[1] == "spawn" and e[3] == "program" for e in rep.of("FAULT"))
    if started and ended and reaped:
        if fate >= 0 and rep.status != fate:
            v.append("the program exited with %d but the compiler with %s" % (fate, rep.status))
        if fate < 0 and rep.status == 0:
            v.append("the program was killed by signal %d but the compiler exits with 0" % -fate)
    elif rep.status == 0:
        v.append("the compiler exits with 0 although %s" % ("the program's end is not known" if started else "the program did not run"))
    if not hard(rep) and plan["compiles"] and built(plan, rep) and "w 0" in plan["linker"] and not progs:
        v.append("the program was built but not run")
    for a in progs[:1]:
        if a[1:] != plan["args"]:
            v.append("the program was given the arguments %r, not %r" % (a[1:], plan["args"]))
    if started:
        if images[0][3] != "complete":
            v.append("a stale or partial executable is run")
        st = rep.of("STREAMS")[-1][1:]
        if st != ["1", "2", "3"]:
            v.append("the program's standard streams are not the compiler's: %s" % " ".join(st))
        if rep.of("STDIN"):
            v.append("the compiler reads the program's standard input")
        inp = rep.of("INPUT")
        if inp and st[0] == "1" and (int(inp[0][2]), inp[0][3]) != (len(plan["stdin"]), fnv(plan["stdin"].encode())):
            v.append("the program read %s bytes of input, not the given %d" % (inp[0][2], len(plan["stdin"])))
        if ended:
            o, _ = program_output(plan["program"], 1, 0)
            e, _ = program_output(plan["program"], 1, 1)
            if rep.out != o:
                v.append("the output is %d bytes, not the program's %d" % (len(rep.out), len(o)))
            if e not in rep.err:
                v.append("the program's error output is missing")
    return v


JUDGE = {"C10": judge_c10, "C11": judge_c11}
RULE = {
    "C10": "a run counts when an outcome differed from the ordinary one (a refused, split or interrupted call, or a linker that failed or was killed) and objects were written or were to be written",
    "C11": "a run counts when a program was to be run and its end, arguments, streams or a refused call made the outcome other than plain success",
}
ASSUME = ["The linker and the built program are scripts of the simulated system; the compiler's executable, its run-time library and libc run for real.",
          "Only the phase from the first temporary file on is simulated: one thread of the compiler acts in it; source files are read from the scratch folder without faults (C01 covers reading).",
          "A compiler that is itself killed leaves its temporary files; that is outside of the property."]


def sig(m):
    return re.sub(r"[0-9]+", "", re.sub(r"\[.*", "", m))[:60]


def nontrivial(prop, plan, rep):
    ev = len(rep.dec) > 0
    if prop == "C10":
        return plan["compiles"] and bool(rep.of("FAULT") or rep.of("SHORT") or not any(e[1:] == ["linker", "0", "0"] for e in rep.of("ENDED")))
    return plan["run"] and plan["compiles"] and (ev or plan["args"] or not plan["program"].endswith("x 0") or "i 0" in plan["program"])


def job(a):
    prop, llrl0, d, seeds = a
    r = Runner(llrl0, d)
    tot, fc, calls, keys, viol, samples, harness = dict(runs=0, nontriv=0, steps=0, twice=0), {}, {}, set(), [], [], []
    for s in seeds:
        plan = generate(prop, s)
        try:
            rep = r.run(plan)
            vs = JUDGE[prop](plan, rep, r)
            if s % 40 == 7:
                rep2 = r.run(plan)
                tot["twice"] += 1
                if (rep2.stat.get("hash"), rep2.status, rep2.out) != (rep.stat.get("hash"), rep.status, rep.out):
                    harness.append("seed %d does not repeat itself" % s)
        except lib.HarnessError as e:
            harness.append(str(e))
            continue
        tot["runs"] += 1
        tot["steps"] += int(rep.stat.get("steps", 0))
        for k in KINDS + ["sched"]:
            if k in rep.stat:
                i, n = rep.stat[k].split("/")
                fc[k] = fc.get(k, 0) + int(i)
                calls[k] = calls.get(k, 0) + int(n)
        key = hashlib.sha1((rep.stat.get("hash", "") + json.dumps([plan["argv"], plan["linker"], plan["program"]])).encode()).hexdigest()[:16]
        if key not in keys and nontrivial(prop, plan, rep):
            tot["nontriv"] += 1
            if len(samples) < 1 and tot["nontriv"] > 3:
                samples.append({"seed": s, "argv": plan["argv"], "linker": plan["linker"], "program": plan["program"], "decisions": rep.dec[:8], "status": rep.status, "trace": rep.stat.get("hash")})
        keys.add(key)
        for m in vs:
            if len(viol) < 12 and sig(m) not in [sig(x[0]) for x in viol]:
                viol.append((m, plan.copy(), rep.dec))
    return tot, fc, calls, list(keys), viol, samples, harness


def minimise(prop, llrl0, d, m, plan, dec, budget=60):
    r = Runner(llrl0, d)
    t0 = time.time()

    def bad(q):
        if time.time() - t0 > budget:
            return None
        try:
            return next((x for x in JUDGE[prop](q, r.run(q), r) if sig(x) == sig(m)), None)
        except (lib.HarnessError, KeyError, IndexError, ValueError):
            return None

    p = plan.copy()
    p["dec"], p["rates"] = list(dec), {}
    best = bad(p)
    if best is None:
        return m, plan
    i = 0
    while i < len(p["dec"]):
        q = p.copy()
        del q["dec"][i]
        x = bad(q)
        if x:
            p, best = q, x
        else:
            i += 1
    for key, small in (("linker", ["w 0;x 0", "x 1"]), ("program", ["x 0", "x 3"]), ("stdin", [""]), ("stale", [False])):
        for s in small:
            if p[key] != s:
                q = p.copy()
                q[key] = s
                x = bad(q)
                if x:
                    p, best = q, x
                    break
    return best, p


def check(prop):
    llrl0 = build()
    start = time.time()
    runs = RUNS[prop][1 if lib.THOROUGH else 0]
    limit = 3000 if lib.THOROUGH else 90
    d = lib.scratch(prop + "-")
    try:
        seeds = [lib.SEED * 1000003 + i for i in range(runs)]
        jobs = [(prop, llrl0, d, seeds[i:i + 50]) for i in range(0, runs, 50)]
        tot, fc, calls, keys, viol, samples, harness = {}, {}, {}, set(), [], [], []
        with multiprocessing.Pool(lib.CORES) as pool:
            for t, f, c, k, v, s, h in pool.imap_unordered(job, jobs):
                for acc, new in ((tot, t), (fc, f), (calls, c)):
                    for x, y in new.items():
                        acc[x] = acc.get(x, 0) + y
                keys.update(k)
                viol += v
                harness += h
                if len(samples) < 4:
                    samples += s
                if time.time() - start > limit:
                    pool.terminate()
                    break
        sim_s = time.time() - start
        if not tot.get("runs"):
            raise lib.HarnessError("no run was made: " + "; ".join(harness[:3]))
        report, classes = [], set()
        viol.sort(key=lambda x: (len(x[2]), x[1]["seed"]))
        for m, plan, dec in viol:
            if sig(m) in classes or len(classes) >= 4:
                continue
            classes.add(sig(m))
            m2, p2 = minimise(prop, llrl0, d, m, plan, dec)
            f = os.path.join(d, "case-%d" % len(classes))
            with open(f, "w") as o:
                o.write(MAGIC + " v1\n" + json.dumps({"property": prop, "violation": m2, "plan": p2}, indent=1) + "\n")
            report.append((m2, lib.keep_replay(prop, f)))
        cov = {
            "evaluations": tot["runs"], "distinct_nontrivial": tot["nontriv"], "rule": RULE[prop] + "; distinct: by the trace of calls, outcomes and decisions, with the command line and the scripts",
            "samples": samples[:4], "distinct_interleavings": len(keys), "interleaving_measure": "hash of everything the simulated system was asked and answered",
            "runs_per_hour": int(tot["runs"] * 3600 / max(sim_s, 0.1)), "simulated_time_s": "no clock is involved: %d simulated calls and process steps" % tot["steps"],
            "faults_injected": fc, "calls_simulated": calls, "runs_repeated_and_compared": tot["twice"], "harness_messages": harness[:5],
        }
        lib.evidence(prop, "exploration", cov, ASSUME, len(viol))
        rc = lib.conclude(prop, report)
        if rc == 0 and harness:
            for h in harness[:5]:
                print("harness: " + h)
            return 2
        print("%s: %d simulated runs, %d distinct traces, %d non-trivial, %.0f s" % (prop, tot["runs"], len(keys), tot["nontriv"], time.time() - lib.T0))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    j = json.loads(open(path).read().split("\n", 1)[1])
    prop, plan = j["property"], Plan(j["plan"])
    llrl0 = build()
    d = lib.scratch(prop + "-")
    try:
        r = Runner(llrl0, d)
        rep = r.run(plan)
        vs = JUDGE[prop](plan, rep, r)
        print(rep.raw[:20000])
        print("exit status %s\n%s" % (rep.status, rep.err.decode("utf-8", "replace")[:2000]))
        for m in vs:
            print("violated: " + m)
        if any(sig(m) == sig(j["violation"]) for m in vs):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup():
    build()
