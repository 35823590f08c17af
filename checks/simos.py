"""Checks decided by the simulated operating system (sim/simos): the standard library's files,
directories, processes and the collector, as seen by programs the compiler under test built."""
import concurrent.futures, ctypes, hashlib, json, multiprocessing, os, random, re, shutil, subprocess, time
import lib, gcprog

MAGIC = "simos replay"
D = os.path.join(lib.VERIF, "sim", "simos")
OUT = os.path.join(lib.BUILD, "simos")
BACKENDS = ["llvm", "chibi"]
KINDS = ["open", "read", "write", "close", "pipe", "fork", "dup", "exec", "wait", "fdopen", "opendir", "readdir", "closedir", "remove", "mkdir",
         "getcwd", "random", "stat", "sched", "gc", "time", "fsync"]
ERR = {1: "Permission denied", 2: "Not found", 4: "Interrupted", 13: "Permission denied", 17: "Already exists", 22: "Invalid input", 32: "Broken pipe"}


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


# ------------------------------------------------------------------ building
def build_llrl0(e):
    tgt = os.path.join(lib.BUILD, "llrl0")
    e = dict(e, CARGO_TARGET_DIR=tgt)
    with lib.lock("llrl0"):
        lib.build_rt(e)
        lib.run_build(["cargo", "build", "--release", "--offline", "--locked", "-p", "llrl0"], lib.REPO, e, "building the compiler")
    return os.path.join(tgt, "release", "llrl0")


def build_lib():
    os.makedirs(OUT, exist_ok=True)
    so = os.path.join(OUT, "simos.so")
    with lib.lock("simos"):
        lib.run_build(["gcc", "-O2", "-g", "-fPIC", "-shared", "-o", so + ".tmp", os.path.join(D, "simos.c"), "-ldl"], D, lib.env(), "building the simulated system")
        os.replace(so + ".tmp", so)
    return so


def compile_llrl(llrl0, backend, src_dir, entry, out, e):
    """The compiler under test compiles a program; None and the output if it does not."""
    p = subprocess.run([llrl0, "-b", backend, "-o", out, entry], cwd=src_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, errors="replace")
    return p.returncode == 0 and os.path.exists(os.path.join(src_dir, out)), p.stdout


def build_driver(name):
    """Both back ends' executables of a driver program, by the compiler under test."""
    e = lib.env()
    llrl0 = build_llrl0(e)
    build_lib()
    w = os.path.join(OUT, "drv-" + name)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copy(os.path.join(D, "drivers", name + ".llrl"), w)
    exes = {}
    for b in BACKENDS:
        ok, o = compile_llrl(llrl0, b, w, name, "%s-%s" % (name, b), e)
        exes[b] = os.path.join(w, "%s-%s" % (name, b))
        if not ok:
            return llrl0, None, "%s back end: %s" % (b, o[-2000:])
    return llrl0, exes, ""


# ------------------------------------------------------------------ one run
class Plan:
    """Everything that determines one execution."""

    def __init__(self, seed):
        self.seed, self.set, self.rates, self.fs, self.ops, self.dec, self.exe, self.args = seed, {}, {}, [], [], None, "llvm", []
        self.meta = {}

    def text(self, rep):
        l = ["seed %d" % self.seed, "salt %d" % self.set.get("salt", self.seed % 1000003), "report " + hx(rep)]
        for k, v in self.set.items():
            if k in ("path", "cwd", "stdin"):
                l.append("%s %s" % (k, hx(bytes.fromhex(v)) if k == "stdin" else hx(v)))
            elif k != "salt":
                l.append("%s %s" % (k, v))
        for k, v in self.rates.items():
            l.append("rate %s %d" % (k, v))
        for f in self.fs:
            if f[0] == "dir":
                l.append("dir %s %d" % (hx(f[1]), f[2]))
            elif f[0] == "file":
                l.append("file %s %d %s" % (hx(f[1]), f[2], f[3]))
            else:
                l.append("lnk %s 7 %s" % (hx(f[1]), hx(f[2])))
        for o in self.ops:
            l.append("op " + hx(o))
        if self.dec is not None:
            l.append("replay 1")
            for d in self.dec:
                l.append("dec %d %s %d %d" % tuple(d))
        return "\n".join(l) + "\n"

    def to_json(self):
        return {k: getattr(self, k) for k in ("seed", "set", "rates", "fs", "ops", "dec", "exe", "args", "meta")}

    @staticmethod
    def from_json(j):
        p = Plan(j["seed"])
        for k, v in j.items():
            setattr(p, k, v)
        return p

    def copy(self):
        return Plan.from_json(json.loads(json.dumps(self.to_json())))


class Report:
    """What the simulator recorded, in order."""

    def __init__(self, path):
        self.events, self.fs, self.dec, self.stat, self.fc, self.end, self.out, self.err = [], {}, [], {}, {}, None, b"", b""
        last = None
        try:
            data = open(path, "r", errors="replace").read()
        except FileNotFoundError:
            data = ""
        self.raw = data
        for l in data.split("\n"):
            w = l.split(" ")
            k = w[0]
            if k == "SAY" or k == "ARG" or k == "REMOVED":
                self.events.append((k, int(w[1]), bytes.fromhex(w[2]).decode("utf-8", "surrogateescape")))
            elif k == "FS":
                last = bytes.fromhex(w[2]).decode("utf-8", "surrogateescape")
                self.fs[last] = (w[1], b"")
            elif k == "=":
                self.fs[last] = (self.fs[last][0], bytes.fromhex(w[1]))
            elif k == "OUT":
                self.out = bytes.fromhex(w[1])
            elif k == "ERR":
                self.err = bytes.fromhex(w[1])
            elif k == "DEC":
                self.dec.append([int(w[1]), w[2], int(w[3]), int(w[4])])
            elif k == "STAT":
                for kv in w[1:]:
                    a, b = kv.split("=")
                    self.stat[a] = b if a == "hash" else int(b)
            elif k == "FC":
                self.fc[w[1]] = int(w[2])
            elif k == "END":
                self.end = " ".join(w[1:-1])
                self.status = int(w[-1])
            elif k:
                self.events.append(tuple(w))

    def ops(self):
        """Per operation: its events, and the state of the parent right before it."""
        out = []
        for e in self.events:
            if e[0] == "OP":
                d = dict(x.split("=") for x in e[2:])
                out.append({"i": int(e[1]), "ev": [], "fds": int(d["fds"]), "children": int(d["children"]), "says": []})
            elif out:
                out[-1]["ev"].append(e)
                if e[0] == "SAY" and e[1] == 0:
                    out[-1]["says"].append(e[2])
        return out

    def crash(self):
        for e in self.events:
            if e[0] == "CRASH" and e[1] == "0":
                return "the program crashed with signal " + e[2] if e[2] != "27" else "the program spins without end"
            if e[0] == "ABORT" and e[1] == "0":
                return "the program aborted"
        if self.end == "deadlock":
            return "the program waits forever"
        if self.end == "no progress":
            return "the program makes no progress"
        return None


def fixed_addresses():
    """Where a program's memory lies must not differ between runs (the collector looks at addresses)."""
    ctypes.CDLL(None).personality(0x0040000)


class Runner:
    def __init__(self, exes, d):
        fixed_addresses()
        self.exes, self.d, self.n = exes, d, 0
        self.so = os.path.join(OUT, "simos.so")

    def run(self, plan):
        base = os.path.join(self.d, "p%d" % os.getpid())
        rep, pf = base + ".rep", base + ".plan"
        if os.path.exists(rep):
            os.unlink(rep)
        with open(pf, "w") as f:
            f.write(plan.text(rep))
        exe = self.exes[plan.exe]
        try:
            p = subprocess.run([exe] + plan.args, env={"LD_PRELOAD": self.so, "SIMOS_PLAN": pf, "LD_LIBRARY_PATH": os.environ.get("LD_LIBRARY_PATH", "")},
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            raise lib.HarnessError("a simulated run did not end (seed %d)" % plan.seed)
        self.n += 1
        r = Report(rep)
        if r.end is None:
            raise lib.HarnessError("a simulated run left no report: seed %d, exit %s, %s" % (plan.seed, p.returncode, p.stderr.decode("utf-8", "replace")[-300:]))
        return r


# ------------------------------------------------------------------ shared by the models
def pattern(n, seed):
    return bytes((seed + i * 7 + i // 253) & 255 for i in range(n))


def letters(n, seed):
    return bytes(97 + (seed + i * 7) % 26 for i in range(n))


def digest(b):
    h = 14695981039346656037
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return "%d/%x" % (len(b), h)


def faults(ev):
    return [e for e in ev if e[0] == "FAULT"]


def base_plan(seed, rng, rate, kinds, faultmax=None):
    p = Plan(seed)
    p.exe = rng.choice(BACKENDS)
    p.set["pipecap"] = rng.choice([4096, 4096, 16384, 65536])
    p.set["bufsz"] = rng.choice([4096, 4096, 4096, 1024, 512])
    p.set["unkdt"] = rng.choice([0, 1])
    p.set["tty"] = rng.choice([0, 0, 1])
    p.rates["sched"] = rng.choice([0, 50000, 200000, 500000])
    p.rates["time"] = rng.choice([0, 200000])
    if rng.random() < 0.3:
        p.set["gcinv"] = rng.choice([20, 100, 400])
        p.set["gcreuse"] = rng.choice([0, 1])
    if rate:
        for k in kinds:
            if rng.random() < 0.75:
                p.rates[k] = rate
        p.set["faultmax"] = faultmax if faultmax is not None else rng.choice([1, 1, 2, 3, 1000])
    return p


WORDS = ["a", "b", "long-argument-with-many-characters", "Ünïcødé", "--opt=1", "x'y\"z", "*", "$HOME", "", "1", "-", "\\n"]


# ------------------------------------------------------------------ R01, R02: processes
def gen_proc(prop, seed):
    rng = random.Random(seed * 2 + (prop == "R02"))
    kinds = ["pipe", "fork", "dup", "exec", "wait", "fdopen", "read", "write", "close"] if prop == "R01" else ["pipe", "fork", "dup", "exec", "wait", "fdopen", "close"]
    p = base_plan(seed, rng, rng.choice([0, 20000, 60000, 150000, 400000]), kinds)
    progs = {}
    for i in range(rng.randint(2, 4)):
        st = []
        if rng.random() < 0.3:
            st.append("S%d" % rng.randint(1, 4))
        if prop == "R02":
            st += ["U%d" % rng.choice([0, 3, 40, 700]), "R%d" % rng.choice([0, 5, 30])]
        else:
            for _ in range(rng.randint(0, 3)):
                st.append(rng.choice(["O%d" % rng.choice([1, 10, 300, 3000]), "R%d" % rng.choice([1, 10, 300]), "A", "I", "C", "S1"]))
            if rng.random() < 0.15:
                st.append("O%d" % rng.choice([9000, 30000, 80000]))
        st.append(rng.choice(["E0", "E0", "E1", "E3", "E127", "E255", "K9", "K15", "K11", "K6"]))
        progs["prog%d" % i] = st
        p.fs.append(["file", "/bin/prog%d" % i, 7, hx("#!sim " + " ".join(st))])
    p.fs.append(["file", "/bin/plain", 6, hx("no program")])
    p.fs.append(["dir", "/bin/folder", 7])
    if rng.random() < 0.3:
        p.set["path"] = rng.choice(["/usr/bin:/bin", "/bin:/usr/bin", "/nowhere:/bin", ".:/bin"])
    p.meta["progs"] = progs
    live = {}

    def name():
        x = rng.random()
        if x < 0.62:
            n = rng.choice(sorted(progs))
            return n if rng.random() < 0.6 else "/bin/" + n
        return rng.choice(["nosuch", "/bin/nosuch", "plain", "/bin/plain", "folder", "/nowhere/x", "./nosuch", "/bin/plain/x"])

    def args():
        return [rng.choice(WORDS) for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))]

    k = 0
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        if prop == "R02" or rng.random() < 0.2:
            for _ in range(rng.randint(0, 2)):
                p.ops.append("%s %d %d" % (rng.choice(["print", "print", "println", "eprint"]), rng.choice([1, 10, 100, 900, 5000]), rng.randint(0, 25)))
        if x < 0.35:
            p.ops.append(" ".join(["exec", name()] + args()))
        elif x < 0.45:
            n = rng.choice([q for q in sorted(progs) if "I" not in progs[q] and "C" not in progs[q]] * 2 + ["nosuch", "plain"])
            p.ops.append(" ".join(["withproc", n] + args()))
        else:
            s = k % 8
            k += 1
            n = name()
            p.ops.append(" ".join(["spawn", str(s), n] + args()))
            live[s] = (n.split("/")[-1])
            if rng.random() < 0.25 and k < 8:
                continue
            drain(rng, p, s, progs.get(live[s], []))
            live.pop(s)
    for s in list(live):
        drain(rng, p, s, progs.get(live[s], []))
    if prop == "R02" and rng.random() < 0.3:
        p.ops.append("print %d 3" % rng.choice([1, 50]))
    p.ops.append("nop")
    if rng.random() < 0.2:
        p.ops.append("exit %d" % rng.choice([0, 3]))
    return p


def drain(rng, p, s, st):
    size = sum(int(x[1:]) for x in st if x[0] in "OU")
    left = 1200
    for _ in range(rng.choice([0, 0, 1, 2])):
        n = rng.choice([1, 50, 500])
        if n <= left:
            p.ops.append("pin %d %d %d" % (s, n, rng.randint(0, 99)))
            left -= n
            if rng.random() < 0.3:
                p.ops.append("pinflush %d" % s)
    waited = False
    if rng.random() < 0.85 or size > 3000 or "I" in st or "C" in st:
        p.ops.append("pinclose %d" % s)
        if size > 3000 and rng.random() < 0.2:
            p.ops.append("pclose %d" % s)
            p.ops.append("pwait %d" % s)
            return
        if size > 3000 or rng.random() < 0.6:
            if rng.random() < 0.3:
                for _ in range(rng.randint(1, 3)):
                    p.ops.append("poutn %d %d" % (s, rng.choice([1, 10, 1000])))
            p.ops.append("pout %d" % s)
        if rng.random() < 0.4:
            p.ops.append("perr %d" % s)
    if rng.random() < 0.8:
        p.ops.append("pwait %d" % s)
        waited = True
    p.ops.append("pclose %d" % s)
    if not waited:
        p.ops.append("pwait %d" % s)


FAULT_ERR = {"pipe": [24, 23], "fork": [11, 12], "dup": [4, 16, 24], "exec": [12, 7, 13, 5, 26, 24, 23], "fdopen": [12], "read": [4, 4], "wait": [4],
             "write": [4], "close": [4, 5, 28]}


def natural(name, progs, path):
    """The error starting this program must give when nothing is injected (None: it starts)."""
    def one(f):
        if f.startswith("/bin/plain/"):
            return 20
        b = f.split("/")[-1]
        if f == "/bin/" + b and b in progs:
            return None
        if f in ("/bin/plain", "/bin/folder"):
            return 13
        return 2
    if "/" in name:
        return one(name)
    got = 2
    for d in path.split(":"):
        e = one(d + "/" + name)
        if e is None:
            return None
        if e == 13:
            got = 13
    return got


def split_ops(plan, rep):
    return [(plan.ops[o["i"]].split(" "), o) for o in rep.ops() if o["i"] < len(plan.ops)]


def judge_r01(plan, rep):
    v = []
    progs, path = plan.meta["progs"], plan.set.get("path", "/bin")
    exit_of = {int(e[1]): int(e[2]) for e in rep.events if e[0] == "EXIT"}
    procs = {}
    for w, o in split_ops(plan, rep):
        op, ev = w[0], o["ev"]
        say = o["says"][-1] if o["says"] else None
        if say is None:
            continue
        fl = faults(ev)
        if op in ("exec", "spawn", "withproc"):
            name, args = (w[2], w[3:]) if op == "spawn" else (w[1], w[2:])
            kids = [int(e[2]) for e in ev if e[0] == "FORK" and e[1] == "0"]
            execs = [e for e in ev if e[0] == "EXEC" and int(e[1]) in kids]
            reported = say.startswith("ok") or (op == "withproc" and execs and say.startswith("err") and "Not found" not in say)
            if say.startswith("ok"):
                if not execs:
                    v.append("%s reported success but no program was started" % op)
                    continue
                if len(execs) > 1:
                    v.append("%s started the program %d times" % (op, len(execs)))
                x = execs[0]
                kid = int(x[1])
                if natural(name, progs, path) is not None or x[2].split("/")[-1] != name.split("/")[-1]:
                    v.append("%s %s started %s" % (op, name, x[2]))
                argv = [e[2] for e in ev if e[0] == "ARG" and e[1] == kid]
                if argv != [name] + args:
                    v.append("%s passed the arguments %r instead of %r" % (op, argv, [name] + args))
                fds = dict((int(y.split("=")[0]), y.split("=")[1]) for y in x[3].split(",") if y)
                if op == "exec":
                    if [fds.get(i) for i in range(3)] != ["4r", "2w", "3w"]:
                        v.append("exec: the program's standard streams are %s" % x[3])
                else:
                    got = [fds.get(i, "") for i in range(3)]
                    if [g[-1:] for g in got] != ["r", "w", "w"] or len(set(g[:-1] for g in got)) != 3 or any(g[:-1] in ("2", "3", "4") for g in got):
                        v.append("%s: the program's standard streams are not three pipes: %s" % (op, x[3]))
                if any(k > 2 for k in fds):
                    v.append("%s: the program inherited further descriptors: %s" % (op, x[3]))
                if x[4] != "sigpipe=0":
                    v.append("%s: the program starts with SIGPIPE not at its default" % op)
                if op == "spawn":
                    procs[w[1]] = {"kid": kid, "prog": name.split("/")[-1], "args": [name] + args, "in": b"", "inok": True, "pos": 0, "outok": True, "shut": False, "epos": 0}
                else:
                    st = exit_of.get(kid)
                    want = "some %d" % (st >> 8) if st is not None and st & 127 == 0 else "none"
                    if st is None:
                        v.append("%s returned before the program had ended" % op)
                    elif not say.endswith(want):
                        v.append("%s answered '%s' for a program that ended with wait status %d" % (op, say, st))
                    if op == "withproc" and not say.startswith("ok %s " % digest(output(progs[name.split("/")[-1]], b"", [name] + args))):
                        v.append("withproc: the output read is '%s', not what the program wrote" % say)
            else:
                if op == "spawn":
                    procs.pop(w[1], None)
                if op != "withproc" and execs:
                    v.append("%s reported '%s' although the program was started" % (op, say))
                n = natural(name, progs, path)
                ok = {ERR.get(n, "Other")} if n is not None else set()
                for f in fl:
                    t = FAULT_ERR.get(f[2])
                    if t:
                        ok.add(ERR.get(t[(int(f[3]) - 1) % len(t)], "Other"))
                        ok.add(ERR.get(t[0], "Other"))
                if say[4:] not in ok and not (op == "withproc" and execs and fl):
                    v.append("%s %s reported '%s'; what happened calls for %s" % (op, name, say, sorted(ok) or "success"))
        elif w[0] in ("pin", "pinflush", "pinclose", "pwait", "pclose", "pout", "poutn", "perr"):
            q = procs.get(w[1])
            if q is None or say == "noproc":
                continue
            if op == "pin":
                if say == "ok":
                    q["in"] += pattern(int(w[2]), int(w[3]))
                else:
                    q["inok"] = False
            if op in ("pinclose", "pwait", "pclose") and not q["shut"]:
                q["shut"] = True
                if op != "pinclose" and fl or say.startswith("err"):
                    q["inok"] = False
            if op == "pinflush" and say != "ok":
                q["inok"] = False
            if op in ("pout", "poutn"):
                want = output(progs[q["prog"]], q["in"], q["args"])
                st = exit_of.get(q["kid"])
                if say.startswith("err"):
                    q["outok"] = False
                    if not fl and not q.get("closed"):
                        v.append("%s failed ('%s') although nothing was refused" % (op, say))
                elif q["outok"] and (q["inok"] or "I" not in progs[q["prog"]]):
                    if op == "pout":
                        got, q["pos"] = want[q["pos"]:], len(want)
                    else:
                        got = want[q["pos"]:q["pos"] + int(w[2])]
                        q["pos"] += len(got)
                    if say != "ok " + digest(got):
                        v.append("%s answered '%s' where the program's output gives 'ok %s'" % (op, say, digest(got)))
            if op == "perr" and not say.startswith("err"):
                want = b"".join(bytes(65 + i % 26 for i in range(int(s[1:]))) for s in progs[q["prog"]] if s[0] == "R")
                if say != "ok " + digest(want) and not q.get("closed"):
                    v.append("perr answered '%s' where the program wrote 'ok %s'" % (say, digest(want)))
            if op == "pclose":
                q["closed"] = True
                q["outok"] = False
            if op == "pwait":
                st = exit_of.get(q["kid"])
                if st is None:
                    v.append("waiting returned although the program had not ended")
                else:
                    want = "some %d" % (st >> 8) if st & 127 == 0 else "none"
                    if say != want:
                        v.append("waiting answered '%s' for a program that ended with wait status %d" % (say, st))
    c = rep.crash()
    # a program that cannot be fed or drained any more because a system call was refused blocks for good
    stuck = any(w[0] in ("pin", "pinflush", "pinclose", "pout", "poutn") and o["says"] and o["says"][-1].startswith("err") for w, o in split_ops(plan, rep))
    if c and not (stuck and rep.end == "deadlock"):
        v.append(c)
    return v


def output(steps, inp, args):
    out = b""
    for s in steps:
        if s[0] == "O":
            out += bytes(97 + i % 26 for i in range(int(s[1:])))
        elif s[0] == "U":
            out += bytes(65 + i % 26 for i in range(int(s[1:])))
        elif s[0] == "A":
            out += b"".join(a.encode() + b"\n" for a in args)
        elif s[0] == "I":
            out += inp
            inp = b""
        elif s[0] == "C":
            inp = b""
    return out


def judge_r02(plan, rep):
    v = []
    progs = plan.meta["progs"]
    fds, kids, procs, extra = 3, 0, {}, 0
    outs, errs, up = b"", b"", 0
    for w, o in split_ops(plan, rep):
        if o["fds"] != fds:
            v.append("the program holds %d descriptors before '%s' where %d are accounted for" % (o["fds"], w[0], fds))
            fds = o["fds"]
        if o["children"] != kids:
            v.append("the program has %d unreaped children before '%s' where %d are accounted for" % (o["children"], w[0], kids))
            kids = o["children"]
        say = o["says"][-1] if o["says"] else None
        if say is None:
            continue
        op, ev = w[0], o["ev"]
        mine = [int(e[2]) for e in ev if e[0] == "FORK" and e[1] == "0"]
        execs = [e for e in ev if e[0] == "EXEC" and int(e[1]) in mine]
        if op == "spawn":
            if say == "ok":
                fds += 3
                kids += 1
                procs[w[1]] = {"in": 1, "out": 2, "wait": 1}
            else:
                procs.pop(w[1], None)
        elif op == "withproc" and say.startswith("err") and execs:
            kids += 1  # started, but reading from it failed before it could be waited for
        q = procs.get(w[1]) if len(w) > 1 and op in ("pinclose", "pwait", "pclose") else None
        if q:
            if op in ("pinclose", "pwait", "pclose"):
                fds -= q["in"]
                q["in"] = 0
            if op == "pclose":
                fds -= q["out"]
                q["out"] = 0
            if op == "pwait":
                kids -= q["wait"]
                q["wait"] = 0
        if op in ("print", "println") and say == "ok":
            outs += letters(int(w[1]), int(w[2])) + (b"\n" if op == "println" else b"")
        if op == "eprint" and say == "ok":
            errs += letters(int(w[1]), int(w[2]))
        if op == "exec" and say.startswith("ok"):
            pass
    low = bytes(c for c in rep.out if not 65 <= c <= 90)
    if rep.end == "end" and low != outs:
        v.append("the standard output holds %d bytes of the program's own output where %d were printed%s" % (len(low), len(outs), " (twice)" if outs and low.count(outs) > 1 else ""))
    lowe = bytes(c for c in rep.err if not 65 <= c <= 90)
    if rep.end == "end" and lowe != errs and not rep.crash():
        v.append("the standard error holds %d bytes of the program's own output where %d were printed" % (len(lowe), len(errs)))
    c = rep.crash()
    if c:
        v.append(c)
    return v


# ------------------------------------------------------------------ L01: reading files
TEXTS = ["", "x", "hello\nworld\n", "äöü€😀" * 50, "line of text with ünïcödé\n" * 200, "€" * 1365 + "a", "ab" * 2048 + "é" * 10, "😀" * 3000]


def text_of(rng):
    """Text whose characters fall on any boundary."""
    if rng.random() < 0.3:
        return rng.choice(TEXTS).encode()
    unit = "".join(rng.choice(["a", "é", "€", "😀", "\n", "日本"]) for _ in range(rng.randint(1, 5)))
    size = rng.choice([3, 50, 1000, 4100, 8300, 9000, 17000, 33000, 66000] if rng.random() < 0.9 else [140000])
    return ("a" * rng.randint(0, 7) + unit * (size // len(unit.encode()) + 1)).encode()


def gen_l01(prop, seed):
    rng = random.Random(seed * 2 + 11)
    p = base_plan(seed, rng, rng.choice([0, 30000, 100000, 300000, 700000]), ["open", "read", "close"])
    files = {}
    for i in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.5:
            n = rng.choice([0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 5000, 20000, 70000])
            c = pattern(n, rng.randint(0, 255))
        elif x < 0.9:
            c = text_of(rng)
        else:
            t = bytearray(rng.choice(TEXTS[3:]).encode() if rng.random() < 0.5 else b"b" + text_of(rng))
            t[rng.randrange(len(t))] ^= 0x80
            c = bytes(t)
        files["f%d" % i] = c
        p.fs.append(["file", "/work/f%d" % i, 6, hx(c)])
    p.fs.append(["dir", "/work/folder", 7])
    p.meta["files"] = {k: hx(c) for k, c in files.items()}
    si = rng.choice([b"", b"some input\n" * 30, pattern(5000, 3)])
    p.set["stdin"] = hx(si)
    open_ = {}
    for _ in range(rng.randint(3, 16)):
        x = rng.random()
        if x < 0.25 or not open_:
            s = rng.randint(0, 7)
            if s in open_:
                p.ops.append("close %d" % s)
                open_.pop(s)
            else:
                f = rng.choice(sorted(files) + (["folder", "nosuch"] if rng.random() < 0.3 else []))
                p.ops.append("open %d %s %s" % (s, f, rng.choice(["r", "rb", "r+"] if f != "folder" else ["r"])))
                open_[s] = f
        elif x < 0.55:
            p.ops.append("read %d %d" % (rng.choice(sorted(open_)), rng.choice([0, 1, 3, 100, 1000, 4096, 4097, 9000, 100000])))
        elif x < 0.62:
            p.ops.append("readu8 %d" % rng.choice(sorted(open_)))
        elif x < 0.70:
            p.ops.append("rbytes %d" % rng.choice(sorted(open_)))
        elif x < 0.76:
            p.ops.append("rstr %d" % rng.choice(sorted(open_)))
        elif x < 0.80:
            p.ops.append("eof %d" % rng.choice(sorted(open_)))
        elif x < 0.85:
            p.ops.append("stdin %d" % rng.choice([1, 10, 100, 4096, 10000]))
        elif x < 0.93:
            p.ops.append("withr %s" % rng.choice(sorted(files)))
        else:
            p.ops.append("withs %s" % rng.choice(sorted(files)))
    for s in sorted(open_):
        p.ops.append("close %d" % s)
    p.ops.append("nop")
    return p


def utf8_ok(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def judge_l01(plan, rep):
    v = []
    files = {k: bytes.fromhex(c) for k, c in plan.meta["files"].items()}
    h = {}
    stdin = {"c": bytes.fromhex(plan.set["stdin"]), "pos": 0, "bad": False, "file": "the standard input"}
    for w, o in split_ops(plan, rep):
        op = w[0]
        say = o["says"][-1] if o["says"] else None
        if say is None:
            continue
        fl = faults(o["ev"])

        def spurious():
            if not fl:
                v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), say))
        if op == "open":
            if say == "ok":
                if w[2] in files:
                    h[w[1]] = {"c": files[w[2]], "pos": 0, "bad": False, "file": w[2]}
                elif w[2] == "folder":
                    h[w[1]] = {"c": None, "pos": 0, "bad": False, "file": w[2]}
                else:
                    v.append("opening a missing file succeeded")
            else:
                h.pop(w[1], None)
                if w[2] in files:
                    spurious()
                elif w[2] == "nosuch" and not fl and say != "err Not found":
                    v.append("opening a missing file gave '%s'" % say)
            continue
        if op == "close":
            if say.startswith("err") and w[1] in h:
                spurious()
            h.pop(w[1], None)
            continue
        if op in ("withr", "withs"):
            c = files[w[1]]
            if op == "withs" and not utf8_ok(c):
                if say.startswith("ok"):
                    v.append("'%s' returned text from bytes that are none" % " ".join(w))
            elif say.startswith("ok"):
                if say != "ok " + digest(c):
                    v.append("'%s' answered '%s', the file holds %s" % (" ".join(w), say, digest(c)))
            else:
                spurious()
            continue
        if op in ("read", "readu8", "rbytes", "rstr", "eof", "stdin"):
            q = stdin if op == "stdin" else h.get(w[1])
            if q is None:
                if op == "eof":
                    continue
                if say != "err Closed":
                    v.append("'%s' on a closed file answered '%s'" % (op, say))
                continue
            if q["c"] is None:
                if op != "eof" and say.startswith("ok") and not (op == "read" and w[2] == "0"):
                    v.append("reading a directory answered '%s'" % say)
                continue
            if q["bad"]:
                continue
            left = q["c"][q["pos"]:]
            if op == "eof":
                if say == "#t" and left or say in ("true", "True") and left:
                    v.append("the end of %s is reported with %d bytes left" % (q["file"], len(left)))
                continue
            if say.startswith("err"):
                if op == "readu8" and not left and say == "err Unexpected EOF":
                    continue
                if op == "rstr" and not utf8_ok(left) and say == "err Invalid data":
                    q["bad"] = True  # how much was consumed is not promised
                    continue
                q["bad"] = True
                spurious()
                continue
            if op in ("read", "stdin"):
                n = int(w[-1])
                got = left[:n]
                if say != "ok " + digest(got):
                    v.append("'%s' of %s at %d answered '%s', its next bytes are %s" % (op, q["file"], q["pos"], say, digest(got)))
                q["pos"] += len(got)
            elif op == "readu8":
                if not left or say != "ok %d" % left[0]:
                    v.append("'%s' of %s at %d answered '%s'" % (op, q["file"], q["pos"], say))
                q["pos"] += 1
            else:
                if op == "rstr" and not utf8_ok(left):
                    v.append("reading text from %s answered '%s' although the bytes are no text" % (q["file"], say))
                elif say != "ok " + digest(left):
                    v.append("'%s' of %s at %d answered '%s', the rest is %s" % (op, q["file"], q["pos"], say, digest(left)))
                q["pos"] = len(q["c"])
    c = rep.crash()
    if c:
        v.append(c)
    return v


# ------------------------------------------------------------------ L02: writing files
def gen_l02(prop, seed):
    rng = random.Random(seed * 2 + 23)
    p = base_plan(seed, rng, rng.choice([0, 30000, 100000, 300000]), ["open", "write", "close"])
    names = ["f%d" % i for i in range(rng.randint(1, 4))]
    init = {}
    for n in names:
        if rng.random() < 0.5:
            c = pattern(rng.choice([0, 3, 200, 6000]), rng.randint(0, 255))
            init[n] = hx(c)
            p.fs.append(["file", "/work/" + n, 6, hx(c)])
    p.meta["init"] = init
    if rng.random() < 0.3:
        p.set["diskcap"] = rng.choice([0, 100, 4096, 5000, 12000, 40000]) + sum(len(c) // 2 for c in init.values())
    p.set["wrfail"] = rng.choice([0, 1])
    open_, busy = {}, {}
    for _ in range(rng.randint(3, 16)):
        x = rng.random()
        ln, sd = rng.choice([0, 1, 5, 100, 1000, 4095, 4096, 4097, 9000, 30000]), rng.randint(0, 99)
        free = [n for n in names if n not in busy]
        if x < 0.25 and free or not open_ and x < 0.6 and free:
            s = rng.randint(0, 7)
            if s in open_:
                p.ops.append("close %d" % s)
                busy.pop(open_.pop(s))
            else:
                f = rng.choice(free)
                p.ops.append("open %d %s %s" % (s, f, rng.choice(["w", "wb", "a", "w", "we", "w+"])))
                open_[s] = f
                busy[f] = s
        elif x < 0.6 and open_:
            s = rng.choice(sorted(open_))
            op = rng.choice(["write", "write", "puts", "putc", "flush"])
            p.ops.append("flush %d" % s if op == "flush" else "%s %d %d %d" % (op, s, ln if op != "putc" else ln % 300, sd))
        elif x < 0.75 and free:
            p.ops.append("%s %s %s %d %d" % (rng.choice(["withw", "withp"]), rng.choice(free), rng.choice(["w", "a", "wb"]), ln, sd))
        elif x < 0.95:
            op = rng.choice(["print", "println", "oflush"])
            p.ops.append("oflush" if op == "oflush" else "%s %d %d" % (op, ln, sd))
        elif open_:
            s = rng.choice(sorted(open_))
            p.ops.append("close %d" % s)
            busy.pop(open_.pop(s))
    for s in sorted(open_):
        p.ops.append("close %d" % s)
    if rng.random() < 0.7:
        p.ops.append("oflush")
    p.ops.append("nop")
    return p


def judge_l02(plan, rep):
    v = []
    # what a file must hold: bytes, or None when nothing is promised
    files = {k: bytes.fromhex(c) for k, c in plan.meta["init"].items()}
    h = {}
    out, outok, pend = b"", True, b""
    for w, o in split_ops(plan, rep):
        op = w[0]
        say = o["says"][-1] if o["says"] else None
        if say is None:
            continue
        ok = say.startswith("ok")
        full = int(plan.set.get("diskcap", -1)) >= 0
        if not ok and say.startswith("err") and not full and not any(e[0] == "FAULT" for e in rep.events) and not (op in ("write", "puts", "putc", "flush") and w[1] not in h):
            v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), say))
        if op == "open":
            if ok:
                h[w[1]] = {"f": w[2], "c": b"" if w[3][0] == "w" else files.get(w[2], b""), "ok": True}
                files[w[2]] = None
            elif w[3][0] == "w" and o["ev"]:
                pass
        elif op in ("write", "puts", "putc", "flush"):
            q = h.get(w[1])
            if q is None:
                if ok and not (op == "putc" and say == "ok 0"):
                    v.append("'%s' on a closed file answered '%s'" % (op, say))
                continue
            if not ok:
                q["ok"] = False
            elif op != "flush" and q["c"] is not None:
                n, s = int(w[2]), int(w[3])
                q["c"] += letters(n, s) if op == "puts" else pattern(n, s)
        elif op == "close":
            q = h.pop(w[1], None)
            if q:
                files[q["f"]] = q["c"] if q["ok"] and ok else None
        elif op in ("withw", "withp"):
            n, s = int(w[3]), int(w[4])
            c = pattern(n, s) if op == "withw" else letters(n, s) + letters(n, s + 1) + b"\n"
            old = b"" if w[2][0] == "w" else files.get(w[1], b"")
            if ok:
                files[w[1]] = old + c if old is not None else None
            else:
                files[w[1]] = None
        elif op in ("print", "println"):
            if ok and plan.set.get("tty") and any(f[2] == "write" for f in faults(o["ev"])):
                outok = False  # the C library does not report a line-buffered stream's failure to write a finished line
            elif ok:
                pend += letters(int(w[1]), int(w[2])) + (b"\n" if op == "println" else b"")
            else:
                outok = False
        elif op == "oflush":
            if ok:
                out += pend
                pend = b""
            else:
                outok = False
    if rep.end == "end":
        for f, c in files.items():
            if c is None:
                continue
            got = rep.fs.get("/work/" + f)
            if got is None or got[1] != c:
                v.append("%s holds %s although %d bytes were acknowledged" % (f, "nothing" if got is None else "%d bytes%s" % (len(got[1]), " (other ones)" if len(got[1]) == len(c) else ""), len(c)))
        if outok and not rep.out.startswith(out):
            v.append("the standard output holds %d bytes although %d were acknowledged" % (len(rep.out), len(out)))
        if outok and not any(e[0] == "FAULT" for e in rep.events) and rep.out != out + pend:
            v.append("the standard output holds %d bytes where %d were printed" % (len(rep.out), len(out + pend)))
    c = rep.crash()
    if c:
        v.append(c)
    return v


# ------------------------------------------------------------------ L03: directories
NAMES = ["a", "b", "c.txt", ".hidden", "...", "..a", "name-with-dashes", "ünï", "x" * 60, "y" * 255, "_", "0", "~", "a.b.c"]


def gen_l03(prop, seed):
    rng = random.Random(seed * 2 + 37)
    p = base_plan(seed, rng, rng.choice([0, 20000, 60000, 200000]), ["opendir", "readdir", "closedir", "remove", "mkdir"])
    entries = {"/work": ["dir"], "/keep": ["dir"], "/keep/deep": ["dir"], "/keep/deep/file": ["file", "precious"], "/keep/file": ["file", "more"]}
    dirs = ["/work"]
    for _ in range(rng.randint(1, 26)):
        d = rng.choice(dirs)
        n = rng.choice(NAMES)
        q = d + "/" + n
        if q in entries or len(q) > 2000:
            continue
        x = rng.random()
        if x < 0.4:
            entries[q] = ["dir"]
            dirs.append(q)
        elif x < 0.72:
            entries[q] = ["file", "content of " + n[:20]]
        else:
            up = "../" * q.count("/")
            t = rng.choice(["/keep", "/keep/deep", "/keep/file", "nowhere", "/", ".", "..", "../..", up + "keep", up + "keep/deep", n, d, "/work"] + dirs)
            entries[q] = ["lnk", t]
    if rng.random() < 0.1:
        d = rng.choice(dirs)
        for i in range(rng.choice([40, 120])):
            entries["%s/n%d" % (d, i)] = ["file", ""]
    for q, e in entries.items():
        if e[0] == "dir":
            p.fs.append(["dir", q, 7])
        elif e[0] == "file":
            p.fs.append(["file", q, 6, hx(e[1])])
        else:
            p.fs.append(["lnk", q, e[1]])
    p.meta["entries"] = entries
    names = sorted(entries)

    def pick():
        x = rng.random()
        if x < 0.1:
            return "/work/" + rng.choice(["nosuch", "a/nosuch", "c.txt/x"])
        q = rng.choice([n for n in names if n.startswith("/work/")] or ["/work/nosuch"])
        x = rng.random()
        if x < 0.1 and entries.get(q, [""])[0] != "lnk":
            return q + "/"
        if x < 0.2 and q.startswith("/work/"):
            return q[6:]
        if x < 0.25:
            return "./" + q[6:]
        return q
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < 0.45:
            p.ops.append("rmall " + pick())
        elif x < 0.55:
            p.ops.append("rm " + pick())
        elif x < 0.6:
            p.ops.append("rmdir " + pick())
        elif x < 0.7:
            p.ops.append("mkdir " + pick() + rng.choice(["", "2"]))
        elif x < 0.85:
            q = rng.choice([n for n in names if entries[n][0] == "dir"])
            p.ops.append("dopen 0 " + q)
            for _ in range(sum(1 for n in names if n.rsplit("/", 1)[0] == q) + rng.choice([1, 2])):
                p.ops.append("dnext 0")
            p.ops.append("dclose 0")
        elif x < 0.93:
            p.ops.append("withd " + rng.choice([n for n in names if entries[n][0] == "dir"]))
        else:
            q = rng.choice([n for n in names if entries[n][0] == "dir"])
            p.ops += ["dopen 1 " + q, "dall 1", "dclose 1"]
    p.ops.append("nop")
    return p


class Tree:
    """The reference file tree: physical path -> [kind, content]."""

    def __init__(self, entries):
        self.e = {k: list(x) for k, x in entries.items()}
        self.e[""] = ["dir"]

    def resolve(self, path, follow, depth=0):
        """(physical path, exists) or (None, errno name)"""
        if depth > 20:
            return None, "ELOOP"
        if not path:
            return None, "ENOENT"
        cur = "" if path[0] == "/" else "/work"
        if path[0] != "/" and "/work" not in self.e:
            return None, "ENOENT"
        comps = [c for c in path.split("/") if c]
        slash = path.endswith("/")
        for i, c in enumerate(comps):
            last = i == len(comps) - 1
            if self.e.get(cur, [None])[0] != "dir":
                return None, "ENOTDIR"
            if c == ".":
                continue
            if c == "..":
                cur = cur.rsplit("/", 1)[0] if cur else ""
                continue
            nx = cur + "/" + c
            if len(c.encode()) > 255:
                return None, "ENAMETOOLONG"
            if nx not in self.e:
                return (nx, False) if last else (None, "ENOENT")
            if self.e[nx][0] == "lnk" and (not last or follow or slash):
                t = self.e[nx][1]
                sub = t if t[0] == "/" else (cur or "") + "/" + t
                r, x = self.resolve(sub if last else sub + "/.", True, depth + 1)
                if r is None or not x:
                    return (r, x) if last or r is None else (None, "ENOENT")
                nx = r
            cur = nx
        if slash and self.e.get(cur, [None])[0] != "dir":
            return None, "ENOTDIR"
        return cur, True

    def kids(self, p):
        return [k for k in self.e if k.startswith(p + "/") and "/" not in k[len(p) + 1:]]

    def under(self, p):
        return {k for k in self.e if k == p or k.startswith(p + "/")}


def judge_l03(plan, rep):
    v = []
    t = Tree(plan.meta["entries"])
    dirs = {}
    for w, o in split_ops(plan, rep):
        op = w[0]
        say = o["says"][-1] if o["says"] else None
        fl = faults(o["ev"])
        removed = [e[2] for e in o["ev"] if e[0] == "REMOVED"]
        if op in ("rmall", "rm", "rmdir"):
            r, ex = t.resolve(w[1], False)
            # through a trailing slash a link to a directory names that directory
            inside = t.under(r) if r is not None and ex else set()
            if w[1].endswith("/"):
                l = t.resolve(w[1].rstrip("/"), False)
                if l[0] is not None and l[1]:
                    inside = t.under(l[0])
                    if t.e[l[0]][0] == "lnk":
                        r, ex = l
            for q in removed:
                if q not in inside:
                    v.append("'%s' removed %s, which is not part of it" % (" ".join(w), q))
                elif op != "rmall" and q != r:
                    v.append("'%s' removed %s" % (" ".join(w), q))
                t.e.pop(q, None)
            for q in removed:
                for k in [k for k in t.e if k.startswith(q + "/")]:
                    t.e.pop(k)
            if say == "ok" and r is not None and r in t.e:
                v.append("'%s' reported success but the path is still there" % " ".join(w))
            if say == "ok" and (r is None or not ex):
                v.append("'%s' reported success for a path that does not exist" % " ".join(w))
            if say is not None and say.startswith("err") and not fl and r is not None and ex and r not in ("",) and (op == "rmall") and not w[1].endswith("/") and w[1].split("/")[-1] not in (".", ".."):
                v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), say))
        elif op == "mkdir":
            r, ex = t.resolve(w[1].rstrip("/") or "/", False)
            if say == "ok":
                if r is None or ex:
                    v.append("'%s' reported success although the path could not be made" % " ".join(w))
                else:
                    t.e[r] = ["dir"]
            elif say is not None and not fl and r is not None and not ex:
                v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), say))
            if removed:
                v.append("making a directory removed %s" % removed[0])
        elif op == "dopen":
            r, ex = t.resolve(w[2], True)
            dirs.pop(w[1], None)
            if say == "ok":
                if r is None or not ex or t.e[r][0] != "dir":
                    v.append("'%s' succeeded on something that is no directory" % " ".join(w))
                else:
                    dirs[w[1]] = {"left": [k.rsplit("/", 1)[1] for k in t.kids(r)], "bad": False}
            elif say is not None and not fl and r is not None and ex and t.e[r][0] == "dir":
                v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), say))
        elif op in ("dnext", "dall", "withd"):
            if op == "withd":
                r, ex = t.resolve(w[1], True)
                if r is None or not ex or t.e[r][0] != "dir":
                    if say and say.startswith("ok"):
                        v.append("'%s' succeeded on something that is no directory" % " ".join(w))
                    continue
                d = {"left": [k.rsplit("/", 1)[1] for k in t.kids(r)], "bad": False}
            else:
                d = dirs.get(w[1])
            if d is None or d["bad"]:
                continue
            for s in o["says"]:
                if s.startswith("some ") or s.startswith("entry "):
                    n = s.split(" ", 1)[1]
                    if n in d["left"]:
                        d["left"].remove(n)
                    else:
                        v.append("'%s' listed '%s', which is not there or was listed before" % (" ".join(w), n))
                elif s.startswith("err"):
                    d["bad"] = True
                    if not fl:
                        v.append("'%s' failed with '%s' although the system refused nothing" % (" ".join(w), s))
                elif s == "none" or s.startswith("ok") or s == "end":
                    # the plain iterator has no way to tell a refusal from the end
                    if d["left"] and not (s == "end" and any(f[2] == "readdir" for f in fl)):
                        v.append("'%s' came to its end without listing %d entries, among them '%s'" % (" ".join(w), len(d["left"]), d["left"][0]))
                        d["left"] = []
                    if s == "end" and any(f[2] == "readdir" for f in fl):
                        d["bad"] = True
        elif op == "dclose":
            dirs.pop(w[1], None)
        if removed and op not in ("rmall", "rm", "rmdir", "mkdir"):
            v.append("'%s' removed %s" % (" ".join(w), removed[0]))
    if rep.end == "end":
        have = {k: (x[0], x[1]) for k, x in rep.fs.items() if not k.startswith("/bin")}
        want = {k: (x[0], x[1].encode() if len(x) > 1 else b"") for k, x in t.e.items() if k and not k.startswith("/bin")}
        if have != want and not v:
            k = sorted(set(have) ^ set(want)) or [k for k in want if want[k] != have.get(k)]
            v.append("after the run %s differs from what the operations answered" % k[0])
    c = rep.crash()
    if c:
        v.append(c)
    return v


# ------------------------------------------------------------------ L04: hash maps and sets
M64 = (1 << 64) - 1
P1, P2, P3, P4, P5 = 11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261


def rotl(x, n):
    return ((x << n) | (x >> (64 - n))) & M64


def unshift(y, n):
    x = y
    for _ in range(64 // n + 1):
        x = y ^ (x >> n)
    return x


def preimage(h, seed):
    """The number whose hash under the seed is h (only used to provoke collisions)."""
    x = unshift(h, 32)
    x = unshift(x * pow(P3, -1, 1 << 64) & M64, 29)
    x = unshift(x * pow(P2, -1, 1 << 64) & M64, 33)
    x = rotl((x - P4) * pow(P1, -1, 1 << 64) & M64, 64 - 27)
    x ^= (seed + P5 + 8) & M64
    x = rotl(x * pow(P1, -1, 1 << 64) & M64, 64 - 31)
    return x * pow(P2, -1, 1 << 64) & M64


def gen_l04(prop, seed):
    rng = random.Random(seed * 2 + 5)
    p = base_plan(seed, rng, rng.choice([0, 0, 300000]), ["random"])
    p.rates.pop("sched", None)
    if rng.random() < 0.5:
        p.set["gcinv"] = rng.choice([15, 60, 200, 500])
        p.set["gcreuse"] = rng.choice([0, 1])
    x = rng.random()
    base = rng.getrandbits(64) if x < 0.8 else 0 if x < 0.87 else M64 - rng.randint(0, 6)
    p.set["rnd"] = base.to_bytes(8, "little").hex()
    known = "random" not in p.rates
    made = [0]

    def fresh():
        # the seed of the next hasher, following the numbering of the run-time system
        if made[0] == 0:
            made[0] = base
        made[0] = (made[0] + 1) & M64
        return made[0]
    seeds = {}
    for i in range(4):
        for k in ("cm", "cs", "cp", "sm", "ss", "sp", "om", "os", "op"):
            seeds[k, i] = fresh()
    # a handful of shapes of hashes: what they share decides where keys meet
    style = rng.choice(["any", "low", "wrap", "top", "deep", "few", "mix"])
    stem = rng.getrandbits(64)
    depth = rng.randint(1, 12)

    def hashval():
        t = style if style != "mix" else rng.choice(["any", "low", "wrap", "top", "deep", "few"])
        if t == "any":
            return rng.getrandbits(64)
        if t == "low":
            return (rng.getrandbits(50) << 14 | (stem & 16383) + rng.randint(0, 3)) & M64
        if t == "wrap":
            return (rng.getrandbits(50) << 14 | (rng.choice([16383, 16382, 16381, 0, 1, 2]))) & M64
        if t == "top":
            return (stem & (M64 >> 1)) | rng.choice([0, 1 << 63]) if rng.random() < 0.7 else stem ^ (1 << rng.randint(60, 63))
        if t == "deep":
            d = rng.choice([depth, depth, max(1, depth - 1), rng.randint(1, 12)])
            return (stem & ((1 << 5 * d) - 1)) | (rng.getrandbits(64) << (5 * d)) & M64
        return stem ^ rng.randint(0, 2)
    kind = rng.choice(["cm", "cm", "cp", "cp", "sm", "sp", "om", "op"])
    many = rng.choice([6, 12, 24, 40, 80])
    ref = seeds[("cm" if kind == "cm" else "cp"), 0]
    pool = []
    if kind[0] == "c":
        hs = [preimage(hashval(), ref) if known else rng.randint(0, 5) for _ in range(many)]
        for i in range(many):
            pool.append("%d.%d" % (rng.randint(0, 3) if style in ("few", "top", "mix") else i, rng.choice(hs)))
        pool = sorted(set(pool))
    elif kind[0] == "o":
        pool = sorted({rng.choice(["none", "%d.%s" % (rng.choice([0, 0, 1, 1, 2, rng.randint(0, many)]), rng.choice(["", "a", "bb", "x" * rng.choice([21, 22, 23, 30])]))]) for _ in range(many)})
    else:
        pool = sorted({"k" * rng.choice([0, 1, 3, 7, 8, 20, 31, 32, 33, 63, 64, 65]) + str(rng.randint(0, many)) for _ in range(many)})
    rng.shuffle(pool)
    live = [0, 0, 0, 1] if rng.random() < 0.5 else [0, 1, 2, 3]
    n = rng.choice([20, 60, 150, 300])
    w = {"put": rng.choice([2, 6, 12]), "del": rng.choice([1, 4, 10]), "get": 5, "has": 2, "len": 1, "all": 1, "cp": 0.4, "eq": 0.6, "new": rng.choice([0.1, 0.1, 0.6]), "clr": 0.15}
    kk = lambda: rng.choice(pool)
    sl = lambda: rng.choice(live)
    c = 0
    for _ in range(n):
        o = rng.choices(list(w), list(w.values()))[0]
        c += 1
        v = "v%d" % c
        if kind[1] == "m":
            s = "s" if rng.random() < 0.25 else ""
            a = sl()
            if o == "put":
                p.ops.append("%s %s %d %s" % (kind, "sadd", a, kk()) if s else "%s %s %d %s %s" % (kind, rng.choice(["put", "put", "pute"]), a, kk(), v))
            elif o in ("get", "has", "del"):
                p.ops.append("%s %s %d %s" % (kind, s + (o if not s else {"get": "has"}.get(o, o)), a, kk()))
            elif o in ("len", "clr", "new"):
                if o == "new" and not s and rng.random() < 0.5:
                    p.ops.append("%s cap %d %d" % (kind, a, rng.choice([0, 0, 1, 2, 3, 8, 100])))
                else:
                    p.ops.append("%s %s%s %d" % (kind, s, o, a))
            elif o == "all":
                p.ops.append("%s %s %d" % (kind, "sall" if s else rng.choice(["all", "all", "keys", "vals"]), a))
            elif o == "eq":
                p.ops.append("%s %seq %d %d" % (kind, s, a, sl()))
            elif o == "cp":
                p.ops.append("%s %s%s %d %d" % (kind, s, rng.choice(["cp", "dcp", "coll", "merge"]), a, sl()) if rng.random() < 0.85 or s else "%s res %d %d" % (kind, a, rng.choice([1, 30, 64, 200])))
        else:
            a, b = sl(), sl()
            if o == "put":
                p.ops.append("%s %s %d %d %s %s" % (kind, rng.choice(["put", "put", "pute"]), a, b, kk(), v))
            elif o == "del":
                p.ops.append("%s del %d %d %s" % (kind, a, b, kk()))
            elif o in ("get", "has"):
                p.ops.append("%s %s %d %s" % (kind, o, a, kk()))
            elif o in ("len", "new"):
                p.ops.append("%s %s %d" % (kind, o, a))
            elif o == "all":
                p.ops.append("%s %s %d" % (kind, rng.choice(["all", "all", "keys", "vals"]), a))
            elif o == "eq":
                p.ops.append("%s eq %d %d" % (kind, a, b))
            elif o == "cp":
                p.ops.append("%s %s %d %d" % (kind, rng.choice(["cp", "dcp", "coll", "merge"]), a, b))
    for i in sorted(set(live)):
        p.ops.append("%s all %d" % (kind, i))
        if kind[1] == "m":
            p.ops.append("%s sall %d" % (kind, i))
    p.meta = {"style": style, "keys": len(pool)}
    return p


def judge_l04(plan, rep):
    v = []
    maps = {k: [{} for _ in range(4)] for k in ("cm", "sm", "om", "cp", "sp", "op")}
    sets = {k: [set() for _ in range(4)] for k in ("cm", "sm", "om")}
    tf = lambda b: "#t" if b else "#f"
    opt = lambda x: "none" if x is None else "some " + x
    for w, o in split_ops(plan, rep):
        k, op = w[0], w[1]
        m, s = maps[k], sets.get(k)
        if k[0] == "o":  # the numbers 0 and 1 stand for 0.0 and -0.0, which are equal
            w = w[:2] + [re.sub(r"^1\.", "0.", x) for x in w[2:]]
        a = int(w[2])
        c = rep.crash() if o["i"] == len(plan.ops) - 1 else None
        want, many = "ok", None
        if k[1] == "p" and op in ("put", "pute", "del"):
            b = int(w[3])
            n = dict(m[a])
            if op == "del":
                n.pop(w[4], None)
            else:
                n[w[4]] = w[5]
            m[b] = n
        elif op in ("new", "cap"):
            m[a] = {}
        elif op in ("put", "pute"):
            want = opt(m[a].get(w[3]))
            m[a][w[3]] = w[4]
        elif op == "get":
            want = opt(m[a].get(w[3]))
        elif op == "has":
            want = tf(w[3] in m[a])
        elif op == "del":
            want = opt(m[a].pop(w[3], None))
        elif op == "len":
            want = "%d %s" % (len(m[a]), tf(not m[a]))
        elif op == "clr":
            m[a] = {} if k[1] == "p" else m[a]
            m[a].clear()
        elif op == "res":
            pass
        elif op == "eq":
            want = tf(m[a] == m[int(w[3])])
        elif op in ("cp", "dcp", "coll"):
            m[int(w[3])] = dict(m[a])
        elif op == "merge":
            m[int(w[3])] = dict(m[int(w[3])], **m[a])
        elif op == "all":
            many = ["%s=%s" % x for x in m[a].items()]
        elif op == "keys":
            many = list(m[a])
        elif op == "vals":
            many = list(m[a].values())
        elif op == "snew":
            s[a] = set()
        elif op == "sadd":
            want = tf(w[3] not in s[a])
            s[a].add(w[3])
        elif op == "shas":
            want = tf(w[3] in s[a])
        elif op == "sdel":
            want = tf(w[3] in s[a])
            s[a].discard(w[3])
        elif op == "slen":
            want = "%d %s" % (len(s[a]), tf(not s[a]))
        elif op == "sclr":
            s[a].clear()
        elif op == "seq":
            want = tf(s[a] == s[int(w[3])])
        elif op in ("scp", "sdcp"):
            s[int(w[3])] = set(s[a])
        elif op == "scoll":
            s[int(w[3])] = set(m[a])
        elif op == "smerge":
            s[int(w[3])] = s[int(w[3])] | s[a]
        elif op == "sall":
            many = list(s[a])
        if many is not None:
            got = o["says"]
            if got and sorted(got[:-1]) != sorted(many) and got[-1] == "end":
                x = [g for g in got[:-1] if g not in many] or [g for g in many if g not in got] or [g for g in many if got.count(g) > 1]
                v.append("'%s' listed %d elements instead of %d; it differs in '%s'" % (" ".join(w[:3]), len(got) - 1, len(many), (x or ["?"])[0][:60]))
                break
        elif o["says"] and o["says"][-1] != want:
            v.append("'%s' answered '%s' instead of '%s'" % (" ".join(w), o["says"][-1], want))
            break
    c = rep.crash()
    if c:
        v.append(c)
    elif rep.end == "end" and len(rep.ops()) < len(plan.ops):
        v.append("the program ended before it had answered everything")
    return v


# ------------------------------------------------------------------ G01: programs under every collector timing
GC = {"exes": {}, "allocs": {}, "dropped": []}
EXAMPLES = ["fibonacci-numbers", "brainfuck", "fizz-buzz"]


def gc_programs(plan=None):
    """Builds the programs G01 runs (only the plan's, if one is given)."""
    e = lib.env()
    llrl0 = build_llrl0(e)
    build_lib()
    w = os.path.join(OUT, "gc")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.join(w, "tests"))
    names = {}
    for root, _, fs in os.walk(os.path.join(lib.REPO, "std", "tests")):
        rel = os.path.relpath(root, os.path.join(lib.REPO, "std", "tests"))
        for f in sorted(fs):
            if f.endswith(".llrl"):
                q = os.path.normpath(os.path.join("tests", rel, f))
                os.makedirs(os.path.dirname(os.path.join(w, q)), exist_ok=True)
                with open(os.path.join(w, q), "w") as o:
                    o.write(open(os.path.join(root, f)).read().replace('"std/tests/', '"~/tests/'))
                names["test:" + q[6:-5]] = q[:-5]
    for n in EXAMPLES:
        f = os.path.join(lib.REPO, "examples", n + ".llrl")
        if os.path.exists(f):
            shutil.copy(f, w)
            names["example:" + n] = n
    for n in ("sys", "maps"):
        shutil.copy(os.path.join(D, "drivers", n + ".llrl"), w)
        names["driver:" + n] = n
    for i in range(240 if lib.THOROUGH else 32):
        k = lib.SEED * 100003 + i
        names["made:%d" % k] = "made-%d" % k
    if plan is not None:
        one = plan.meta["program"]
        names = {one: names.get(one, one.replace("made:", "made-"))}
    for k, q in names.items():
        if k.startswith("made:"):
            with open(os.path.join(w, q + ".llrl"), "w") as o:
                o.write(gcprog.Gen(int(k[5:])).text())
    jobs = [(k, q, b) for k, q in names.items() for b in BACKENDS]

    def one_job(j):
        k, q, b = j
        ok, o = compile_llrl(llrl0, b, w, q, q.replace("/", "_") + "." + b, e)
        return j, ok, o

    exes, why = {}, ""
    with concurrent.futures.ThreadPoolExecutor(lib.CORES) as ex:
        for (k, q, b), ok, o in ex.map(one_job, jobs):
            if ok:
                exes[k + "/" + b] = os.path.join(w, q.replace("/", "_") + "." + b)
            else:
                GC["dropped"].append(k + "/" + b)
                why = o[-1000:]
    if len(exes) * 4 < len(jobs) * 3:
        return llrl0, None, "%d of %d programs were not compiled: %s" % (len(jobs) - len(exes), len(jobs), why)
    # how much each program allocates decides how often it can collect
    d = lib.scratch("g01-")
    try:
        r = Runner(exes, d)
        for x in sorted(exes):
            if x.startswith("driver:"):
                continue
            p = Plan(1)
            p.exe = x
            p.set["stepmax"] = 2000000
            rep = r.run(p)
            if rep.stat.get("gcallocs", 0) < 1000000 and rep.end == "end":
                GC["allocs"][x] = rep.stat.get("gcallocs", 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    GC["exes"] = exes
    return llrl0, exes, ""


def gen_g01(prop, seed):
    rng = random.Random(seed * 2 + 9)
    x = rng.random()
    kinds = {}
    for k in sorted(GC["allocs"]):
        kinds.setdefault(k.split(":")[0], []).append(k)
    if x < 0.3 or not kinds:
        g, drv = rng.choice([(gen_l01, "sys"), (gen_l02, "sys"), (gen_l03, "sys"), (gen_proc, "sys"), (gen_l04, "maps")])
        p = g({gen_l01: "L01", gen_l02: "L02", gen_l03: "L03", gen_l04: "L04"}.get(g, rng.choice(["R01", "R02"])), seed)
        p.exe = "driver:%s/%s" % (drv, rng.choice(BACKENDS))
        p.ops = p.ops[:60]
        p.set["gcinv"] = rng.choice([1, 2, 8, 40]) if drv == "sys" else rng.choice([20, 100])
    else:
        kind = rng.choices([k for k in ("test", "example", "made") if k in kinds], [{"test": 3, "example": 0.3, "made": 6}[k] for k in ("test", "example", "made") if k in kinds])[0]
        p = Plan(seed)
        p.exe = rng.choice(kinds[kind])
        n = GC["allocs"][p.exe]
        p.set["gcinv"] = rng.choice([1, 1, 2, 5, 20]) if n < 1500 else max(1, n // rng.choice([30, 100, 400]))
        p.set["stepmax"] = 2000000
        p.set["bufsz"] = rng.choice([4096, 512])
        if kind == "made":
            p.args = [[], ["one", "two", ""], ["x" * 300, "äö", "a b", "last"]][rng.randrange(3)]
    p.set["gcreuse"] = rng.choice([0, 1])
    p.set["salt"] = rng.randint(1, 3)
    p.meta["program"] = p.exe.rsplit("/", 1)[0]
    return p


BASE = {}


def outcome(rep):
    return {"answers": [e for e in rep.events if e[0] in ("SAY", "ARG", "REMOVED", "FORK", "EXEC", "EXIT", "ORPHAN", "CRASH", "ABORT", "BADCLOSE")],
            "output": rep.out, "error output": rep.err, "files": rep.fs, "exit status": (rep.end, rep.status)}


def judge_g01(plan, rep, runner):
    q = plan.copy()
    q.set["gcinv"] = 0
    q.set["gcreuse"] = 0
    if q.dec is not None:
        q.dec = [d for d in q.dec if d[1] != "gc"]
    key = (plan.exe, q.set.get("salt"), q.set.get("bufsz"), tuple(q.args)) if not plan.ops and not q.dec else None
    base = BASE.get(key)
    if base is None:
        base = outcome(runner.run(q))
        if key:
            BASE[key] = base
    if base["exit status"][0] not in ("end", "exit"):
        return []  # what happens without any collection is another property's business
    got = outcome(rep)
    v = []
    c = rep.crash()
    for k in ("exit status", "output", "answers", "error output", "files"):
        if got[k] != base[k]:
            a, b = base[k], got[k]
            if isinstance(a, bytes):
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                a, b = a[max(0, i - 20):i + 60], b[max(0, i - 20):i + 60]
            elif isinstance(a, list):
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                a, b = a[i:i + 1], b[i:i + 1]
            elif isinstance(a, dict):
                a, b = [{x: d.get(x) for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)} for d in (base[k], got[k])]
            v.append("%s of %s changes with the collector's timing: %s instead of %s%s" % (k, plan.exe, str(b)[:200], str(a)[:200], " (%s)" % c if c else ""))
            break
    return v


# ------------------------------------------------------------------ the checks
SPEC = {
    "R01": dict(driver="sys", gen=gen_proc, judge=judge_r01, runs=(9000, 200000)),
    "R02": dict(driver="sys", gen=gen_proc, judge=judge_r02, runs=(9000, 200000)),
    "L01": dict(driver="sys", gen=gen_l01, judge=judge_l01, runs=(9000, 200000)),
    "L02": dict(driver="sys", gen=gen_l02, judge=judge_l02, runs=(9000, 200000)),
    "L03": dict(driver="sys", gen=gen_l03, judge=judge_l03, runs=(9000, 200000)),
    "L04": dict(driver="maps", gen=gen_l04, judge=judge_l04, runs=(9000, 200000)),
    "G01": dict(driver=gc_programs, gen=gen_g01, judge=judge_g01, compare=True, runs=(9000, 200000)),
}
PLAN = SPEC
RULE = {
    "R01": "seeded sequences of spawning, executing, feeding, reading and waiting for scripted programs under seeded process schedules and refused or interrupted system calls; non-trivial: at least one program was started or refused and a fault or preemption was decided",
    "R02": "the same, with buffered output pending around every start; descriptors and unreaped children are compared with the account after every operation; non-trivial: at least one program was started or refused and a fault or preemption was decided",
    "L01": "seeded files and reading sequences (several handles, scoped helper, text and bytes, standard input) with seeded chunking and refused or interrupted reads; non-trivial: at least one successful read and one fault or split decided",
    "L02": "seeded writing sequences (several handles, append, scoped helper, standard output) with seeded chunking, refused writes and closes and full disks; the final file contents are compared; non-trivial: at least one write and one fault, split or full disk",
    "L04": "seeded sequences of map and set operations on keys whose hashes the seeded random source makes collide in chosen bits, with degenerate and refused random seeds and collections at seeded allocations; answers are compared with a plain map; non-trivial: more than ten answers",
    "G01": "generated programs full of values that hold references, the standard library's tests, examples and the operation drivers, each run with collections at seeded allocations and freed memory overwritten or handed out again, compared with the same run without any collection; non-trivial: at least one collection freed something",
    "L03": "seeded trees with files, odd names and symbolic links (to files, directories, outside, up, dangling, cyclic) and sequences of removals, creations and listings with refused calls; non-trivial: something was removed or listed",
}
ASSUME = [
    "real code: programs compiled by the compiler under test (both back ends), the standard library, rt.c, and the C library's stdio",
    "simulated: descriptors, pipes, files, directories, processes and their scheduling, waiting, signals' effect on pipes, clock, random source, collector; executed programs are scripted stubs",
    "Linux semantics: a descriptor is released by close even if it reports an error; pipe writes up to 4096 bytes are atomic",
]


def sig(m):
    """The kind of a violation: its text without the particulars."""
    return re.sub(r"[0-9]+", "", re.sub(r"'([^' ]*)[^']*'", r"\1", m))[:60]


def verdict(sp, plan, rep, runner):
    return sp["judge"](plan, rep, runner) if sp.get("compare") else sp["judge"](plan, rep)


def job(a):
    prop, exes, d, seeds = a
    sp = SPEC[prop]
    r = Runner(exes, d)
    acc = dict(runs=0, nontriv=0, steps=0, switches=0, blocks=0, procs=0, ns=0, ops=0, gcruns=0, gcfreed=0, gcallocs=0, twice=0)
    fc, keys, viol, samples, backends, harness = {}, set(), [], [], {}, []
    for s in seeds:
        plan = sp["gen"](prop, s)
        try:
            if sp.get("prepare"):
                sp["prepare"](plan, r)
            rep = r.run(plan)
            vs = verdict(sp, plan, rep, r)
            if s % 50 == 7:
                rep2 = r.run(plan)
                acc["twice"] += 1
                if rep2.raw != rep.raw:
                    harness.append("seed %d does not repeat itself" % s)
        except lib.HarnessError as e:
            harness.append(str(e))
            continue
        acc["runs"] += 1
        for k in ("steps", "switches", "blocks", "procs", "ops", "gcruns", "gcfreed", "gcallocs"):
            acc[k] += rep.stat.get(k, 0)
        acc["ns"] += rep.stat.get("ns", 0) - 1700000000000000000
        for k, x in rep.fc.items():
            fc[k] = fc.get(k, 0) + x
        backends[plan.exe] = backends.get(plan.exe, 0) + 1
        key = rep.stat["hash"] + ":" + hashlib.sha1(("\n".join(plan.ops) + json.dumps(rep.dec)).encode()).hexdigest()[:12]
        if key not in keys and sp.get("nontriv", nontrivial)(prop, plan, rep):
            acc["nontriv"] += 1
            if len(samples) < 1 and acc["nontriv"] > 3:
                samples.append({"seed": s, "backend": plan.exe, "operations": plan.ops[:12], "decisions": rep.dec[:10], "answers": [e[2] for e in rep.events if e[0] == "SAY"][:8], "trace": rep.stat["hash"]})
        keys.add(key)
        for m in vs:
            if len(viol) < 12 and sig(m) not in [sig(x[0]) for x in viol]:
                p2 = plan.copy()
                viol.append((m, p2.to_json(), rep.dec))
    return acc, fc, list(keys), viol, samples, backends, harness


def nontrivial(prop, plan, rep):
    decided = sum(rep.fc.values()) > 0
    says = [e[2] for e in rep.events if e[0] == "SAY"]
    if prop in ("R01", "R02"):
        return decided and any(o.split(" ")[0] in ("spawn", "exec", "withproc") for o in plan.ops)
    if prop == "G01":
        return rep.stat.get("gcfreed", 0) > 0
    if prop == "L04":
        return len(says) > 10
    if prop == "L03":
        return any(e[0] == "REMOVED" for e in rep.events) or any(x.startswith(("some", "entry")) for x in says)
    return (decided or "diskcap" in plan.set) and any(x.startswith("ok") for x in says)


def minimise(prop, exes, d, m, plan, dec, budget=60):
    """Shrinks the decisions, then the operations, keeping the same kind of violation."""
    sp = SPEC[prop]
    r = Runner(exes, d)
    t0 = time.time()
    want = sig(m)

    def bad(pl):
        if time.time() - t0 > budget:
            return None
        try:
            for x in verdict(sp, pl, r.run(pl), r):
                if sig(x) == want:
                    return x
        except (lib.HarnessError, KeyError, IndexError, ValueError):
            pass
        return None

    p = Plan.from_json(plan)
    p.dec = [x for x in dec]
    p.rates = {}
    best = bad(p)
    if best is None:
        p = Plan.from_json(plan)
        return m, p
    for what in ("dec", "ops", "dec"):
        n = 2
        cur = getattr(p, what)
        while len(cur) > 1 or (len(cur) == 1 and n == 2):
            size = max(1, len(cur) // n)
            hit = False
            for i in range(0, len(cur), size):
                q = p.copy()
                setattr(q, what, cur[:i] + cur[i + size:])
                x = bad(q)
                if x:
                    p, best, cur, hit = q, x, getattr(q, what), True
                    n = max(2, n - 1)
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(cur), n * 2)
    return best, p


def build_for(sp, plan=None):
    return build_driver(sp["driver"]) if isinstance(sp["driver"], str) else sp["driver"](plan)


def check(prop):
    sp = SPEC[prop]
    llrl0, exes, why = build_for(sp)
    if exes is None:
        return not_built(prop, why)
    built = time.time()
    runs = sp["runs"][1 if lib.THOROUGH else 0]
    limit = sp.get("limit", (100, 3000))[1 if lib.THOROUGH else 0]
    d = lib.scratch(prop + "-")
    try:
        seeds = [lib.SEED * 1000003 + i for i in range(runs)]
        chunk = sp.get("chunk", 125)
        jobs = [(prop, exes, d, seeds[i:i + chunk]) for i in range(0, runs, chunk)]
        tot, fc, keys, viol, samples, backends, harness = {}, {}, set(), [], [], {}, []
        with multiprocessing.Pool(lib.CORES) as pool:
            for acc, f, k, v, s, b, h in pool.imap_unordered(job, jobs):
                for x, y in acc.items():
                    tot[x] = tot.get(x, 0) + y
                for x, y in f.items():
                    fc[x] = fc.get(x, 0) + y
                for x, y in b.items():
                    backends[x] = backends.get(x, 0) + y
                keys.update(k)
                viol += v
                harness += h
                if len(samples) < 4:
                    samples += s
                if time.time() - built > limit:
                    pool.terminate()
                    break
        sim_s = time.time() - built
        if not tot.get("runs"):
            raise lib.HarnessError("no run was made: " + "; ".join(harness[:3]))
        report, classes = [], set()
        viol.sort(key=lambda x: (len(x[2]), len(x[1]["ops"]), x[1]["seed"]))
        for m, plan, dec in viol:
            if sig(m) in classes or len(classes) >= 4:
                continue
            classes.add(sig(m))
            m2, p2 = minimise(prop, exes, d, m, plan, dec)
            f = os.path.join(d, "case-%d" % len(classes))
            with open(f, "w") as o:
                o.write(MAGIC + " v1\n" + json.dumps({"property": prop, "violation": m2, "plan": p2.to_json()}, indent=1) + "\n")
            report.append((m2, lib.keep_replay(prop, f)))
        cov = {
            "evaluations": tot["runs"], "distinct_nontrivial": tot["nontriv"], "rule": RULE[prop] + "; distinct: by the trace of scheduling points, operations and decisions",
            "samples": samples[:4], "distinct_interleavings": len(keys), "interleaving_measure": "hash of the sequence of (process, kind of system call) and of all decisions",
            "runs_per_hour": int(tot["runs"] * 3600 / max(sim_s, 0.1)), "simulated_time_s": round(tot["ns"] / 1e9, 3),
            "schedule": {k: tot[k] for k in ("steps", "switches", "blocks", "procs", "ops")},
            "faults_injected": fc, "backends": backends, "collector": {k: tot[k] for k in ("gcallocs", "gcruns", "gcfreed")},
            "runs_repeated_and_compared": tot["twice"], "harness_messages": harness[:5],
        }
        lib.evidence(prop, "exploration", cov, ASSUME, len(viol))
        rc = lib.conclude(prop, report)
        if rc == 0 and harness:
            for h in harness[:5]:
                print("harness: " + h)
            return 2
        print("%s: %d simulated runs, %d distinct interleavings, %d non-trivial, %.0f s" % (prop, tot["runs"], len(keys), tot["nontriv"], time.time() - lib.T0))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def not_built(prop, why):
    """The compiler under test rejects a correct driver program: nothing can be decided."""
    raise lib.HarnessError("the driver program was not compiled: " + why)


def replay(path):
    j = json.loads(open(path).read().split("\n", 1)[1])
    prop = j["property"]
    sp = SPEC[prop]
    plan = Plan.from_json(j["plan"])
    _, exes, why = build_for(sp, plan)
    if exes is None:
        raise lib.HarnessError(why)
    d = lib.scratch(prop + "-")
    try:
        r = Runner(exes, d)
        rep = r.run(plan)
        vs = verdict(sp, plan, rep, r)
        print(rep.raw if len(rep.raw) < 20000 else rep.raw[:20000])
        for m in vs:
            print("violated: " + m)
        if any(sig(m) == sig(j["violation"]) for m in vs):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup():
    for n in sorted({s["driver"] for s in SPEC.values() if isinstance(s["driver"], str)}):
        build_driver(n)
