"""S01, S02: the self-hosted compiler's own executable (built by the compiler under test) on the
simulated operating system: files, the linker and the produced program, descriptors, processes,
clock, random source and collector."""
import hashlib, json, os, random, re, shutil, subprocess
import lib, simos, selfprog
from simos import Plan, hx

EXE = "llrl1"
LINKER = "/usr/bin/clang"


def build(plan=None):
    """The self-hosted compiler with both back ends, from the sources under test."""
    e = lib.env()
    llrl0 = simos.build_llrl0(e)
    simos.build_lib()
    w = os.path.join(simos.OUT, "self")
    os.makedirs(w, exist_ok=True)
    out = os.path.join(w, EXE)
    with lib.lock("llrl1"):
        if os.path.exists(out):
            os.unlink(out)
        conf = subprocess.run(["llvm-config", "--cppflags", "--ldflags", "--libs", "--system-libs"], env=e, stdout=subprocess.PIPE, text=True).stdout.split()
        cmd = [llrl0, "-b", "chibi", "-o", out, "-fllvm-backend", "-pllvm:../llvm1", "-c../llvm1/compat.c"] + ["-c" + x for x in conf] + ["-c-lstdc++", "-fchibi-backend", "-pxten:../xten1", "-O", "main"]
        p = subprocess.run(cmd, cwd=os.path.join(lib.REPO, "llrl1"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    if p.returncode or not os.path.exists(out):
        return llrl0, None, p.stdout[-2000:]
    return llrl0, {EXE: out}, ""


def base(prog, seed):
    what, files, entries = prog
    p = Plan(seed)
    p.exe = EXE
    p.set["path"] = "/usr/bin:/bin"
    p.set["stepmax"] = 400000
    for n, t in sorted(files.items()):
        p.fs.append(["file", "/work/" + n, 6, hx(t)])
    p.fs.append(["dir", "/tmp", 7])
    return p


# ------------------------------------------------------------------ S01
ALLOCS = {}


def gen_s01(prop, seed):
    k = seed // 4
    rng = random.Random(k * 2 + 1)
    prog = selfprog.make(k, lib.THOROUGH)
    p = base(prog, seed)
    b = rng.choice(["chibi", "chibi", "llvm"])
    p.args = ["-b", b] + (["-O"] if rng.random() < 0.2 else []) + ["-o", "out"] + prog[2]
    p.fs.append(["file", LINKER, 7, hx("#!sim L0 E0")])
    p.meta = {"program": k, "kind": prog[0], "backend": b}
    rng = random.Random(seed * 2)
    p.meta["collect"] = rng.choice([0, 5, 20, 60]) if prog[0] in ("library", "full") else rng.choice([0, 10, 40, 150])
    p.set["gcreuse"] = rng.choice([0, 1])
    p.set["heapoff"] = rng.choice([0, 0, 16, 4096, 100000, 1 << 20])
    p.set["salt"] = rng.randint(1, 10 ** 6)
    p.set["softio"] = 1
    p.set["bufsz"] = rng.choice([4096, 4096, 512, 64])
    p.set["unkdt"] = rng.choice([0, 1])
    p.set["tty"] = rng.choice([0, 0, 1])
    p.rates = {"read": rng.choice([0, 50000, 300000]), "write": rng.choice([0, 0, 100000]), "sched": rng.choice([0, 200000]), "time": rng.choice([0, 300000]), "random": rng.choice([0, 0, 200000])}
    p.set["faultmax"] = 100000
    if rng.random() < 0.15:
        p.set["rnd"] = rng.choice(["00" * 64, "ff" * 64, "01" + "00" * 63, "80" * 64])
    return p


def calm(plan):
    q = Plan(1)
    q.exe, q.args, q.fs, q.meta = plan.exe, plan.args, [f for f in plan.fs], dict(plan.meta)
    q.set = {"path": plan.set["path"], "stepmax": plan.set["stepmax"], "salt": 1}
    return q


TEMP = re.compile(r"/tmp/llrl-tmp-[0-9a-f]+")


def same_temp(s):
    return TEMP.sub("/tmp/T", s)


def observed(rep):
    r = {"how it ends": (rep.end, rep.status), "diagnostics": same_temp(rep.err.decode("utf-8", "replace")), "output": same_temp(rep.out.decode("utf-8", "replace")),
         "linker command": [same_temp(e[2]) for e in rep.events if e[0] == "ARG"], "linked objects": [(e[2], e[3], e[4], e[5]) for e in rep.events if e[0] == "LINKED"],
         "files": {k: v for k, v in rep.fs.items() if not k.startswith("/tmp/")}}
    return r


REF = {}


def reference(plan, runner):
    """The same compilation with nothing left to chance: no collection, whole reads, fixed seed."""
    key = hashlib.sha1(json.dumps([plan.args, plan.fs]).encode()).hexdigest()
    if key not in REF:
        rep = runner.run(calm(plan))
        if len(REF) > 200:
            REF.clear()
        REF[key] = (observed(rep), rep.stat.get("gcallocs", 0), rep.crash())
    return REF[key]


def prepare_s01(plan, runner):
    """Where the collector may run depends on how much this compilation allocates."""
    if plan.meta.get("collect") and "gcinv" not in plan.set:
        plan.set["gcinv"] = max(1, reference(plan, runner)[1] // plan.meta["collect"])


def judge_s01(plan, rep, runner):
    want, _, crash = reference(plan, runner)
    if want["how it ends"][0] not in ("end", "exit"):
        return []
    got = observed(rep)
    for k in ("how it ends", "diagnostics", "output", "linker command", "linked objects", "files"):
        if got[k] != want[k]:
            a, b = want[k], got[k]
            if isinstance(a, str):
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                a, b = a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120]
            elif isinstance(a, dict):
                a, b = [{x: str(d.get(x))[:120] for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)} for d in (want[k], got[k])]
            c = rep.crash()
            return ["%s depends on chance: %s instead of %s%s (program %d, %s, %s back end)" % (k, str(b)[:400], str(a)[:400], " (%s)" % c if c else "", plan.meta["program"], plan.meta["kind"], plan.meta["backend"])]
    return []


# ------------------------------------------------------------------ S02
OKCASES = []


def valid(rng):
    """A project that compiles (as far as the test cases say)."""
    cs = [c for c in selfprog.cases() if c[1] and c[0] == "backend"]
    if not cs or rng.random() < 0.4:
        while True:
            k = rng.randrange(40)
            r = random.Random(k)
            f = selfprog.macro_project(r)
            if not any("(bad" in t for t in f.values()):
                return "macros", f, ["main"]
    k, ok, m = rng.choice(cs)
    return "case", selfprog.project(k, m), ["main"]


def gen_s02(prop, seed):
    rng = random.Random(seed * 2 + 1)
    prog = valid(rng)
    if rng.random() < 0.15:
        prog = selfprog.make(rng.randrange(400))
        if prog[0] in ("library", "full"):
            prog = valid(rng)
    p = base(prog, seed)
    p.set["salt"] = rng.randint(1, 10 ** 6)
    b = rng.choice(["chibi", "chibi", "chibi", "llvm"])
    mode = rng.choice(["out", "out", "out", "run", "both"])
    out = "out"
    if mode != "run" and rng.random() < 0.08:
        out = rng.choice(["nowhere/out", "folder", "/work/folder/out", "main.llrl/out"])
        p.fs.append(["dir", "/work/folder", 7])
    p.args = ["-b", b] + (["-o", out] if mode != "run" else []) + (["-r"] if mode == "both" else []) + prog[2]
    runargs = []
    if mode != "out" and rng.random() < 0.4:
        runargs = [rng.choice(simos.WORDS) for _ in range(rng.randint(1, 3))]
        p.args += ["--"] + runargs
    x = rng.random()
    link = "L0 E0"
    if x < 0.25:
        link = rng.choice(["L1", "R40 L1", "E1", "K9", "L109", "R20 K11", "S3 L1", "O40 L1", "R30 E127", "R5000 L1", "R70000 L1", "R200000 E1", "R30000 L109"])
    elif x < 0.4:
        link = rng.choice(["R50 L0 E0", "U30 R50 L0 E0", "S4 L0 E0", "L0 E1", "L0 K9", "R70000 L0 E0", "X0 L0 E0", "X1 X2 L0 E0", "C L0 E0"])
    if rng.random() < 0.04:
        if rng.random() < 0.5:
            p.fs.append(["file", LINKER, 6, hx("#!sim L0 E0")])
    else:
        p.fs.append(["file", LINKER, 7, hx("#!sim " + link)])
    if mode != "run" and rng.random() < 0.4 and out == "out":
        p.fs.append(["file", "/work/out", 7, hx("#!sim Pstale E0")])
    prog_steps = rng.choice(["E0", "E0", "E3", "O50 R20 E0", "K11", "S3 E7", "O9000 E1", "C E0", "A E0"]) if mode != "out" else "E0"
    p.set["linkout"] = hx(prog_steps)
    p.meta = {"kind": prog[0], "backend": b, "mode": mode, "out": out, "link": link, "steps": prog_steps, "args": runargs}
    p.set["pipecap"] = 65536
    p.set["bufsz"] = rng.choice([4096, 4096, 512])
    p.set["unkdt"] = rng.choice([0, 1])
    p.rates["sched"] = rng.choice([0, 200000, 500000])
    if rng.random() < 0.75:
        rate = rng.choice([3000, 10000, 30000, 100000, 300000])
        kinds = ["open", "read", "write", "close", "pipe", "fork", "dup", "exec", "wait", "fdopen", "opendir", "readdir", "closedir", "remove", "mkdir", "random", "stat"]
        if rng.random() < 0.5:
            kinds = rng.sample(kinds, rng.randint(1, 4))
        for k in kinds:
            p.rates[k] = rate
        p.set["faultmax"] = rng.choice([1, 1, 1, 2, 3, 1000])
    if rng.random() < 0.12:
        p.set["diskcap"] = rng.choice([0, 500, 3000, 8000, 20000, 60000, 100000])
    if rng.random() < 0.1:
        p.set["gcinv"] = 20000
    return p


def ref_s02(plan, runner):
    q = calm(plan)
    q.args = ["-b", plan.meta["backend"], "-o", "out"] + [a for a in plan.args[2:] if a in ("main", "c0")][:2]
    q.fs = [f for f in plan.fs if f[1] not in (LINKER, "/work/out", "/work/folder")] + [["file", LINKER, 7, hx("#!sim L0 E0")]]
    key = hashlib.sha1(json.dumps([q.args, q.fs]).encode()).hexdigest()
    if key not in REF:
        rep = runner.run(q)
        l = [e for e in rep.events if e[0] == "LINKED"]
        if len(REF) > 200:
            REF.clear()
        REF[key] = (rep.end, rep.status, l[0][5] if l else None, l[0][3] if l else None)
    return REF[key]


def judge_s02(plan, rep, runner):
    m = plan.meta
    end, st, digest, objs = ref_s02(plan, runner)
    if end not in ("end", "exit"):
        return []
    valid_ = st == 0
    v = []
    fk = [e[2] for e in rep.events if e[0] == "FAULT"]
    c = rep.crash()
    aborted = c == "the program aborted"
    if c and "waits forever" in c and "read" in fk:
        return v  # a refused read leaves the pipe to the linker full (see R01)
    if c and not aborted:
        return ["%s while compiling (linker script %s)" % (c, m["link"])]
    status = rep.status
    ok = status == 0
    linked = [e for e in rep.events if e[0] == "LINKED"]
    kids, cur = {}, None
    execs = [(int(e[1]), e[2]) for e in rep.events if e[0] == "EXEC"]
    linker_ok = False
    exits = {int(e[1]): int(e[2]) for e in rep.events if e[0] == "EXIT"}
    for pid, path in execs:
        if path == LINKER:
            if exits.get(pid) == 0 and any(int(l[1]) == pid for l in linked):
                linker_ok = True
    good = [l for l in linked if l[5] == digest]
    runs = [(pid, path) for pid, path in execs if path != LINKER]
    # nothing stale, partial or unlinked is run
    for pid, path in runs:
        if not linker_ok:
            v.append("a program is run although the linker did not succeed")
        elif not good:
            v.append("a program linked from incomplete objects is run")
    if ok:
        if not valid_:
            v.append("success is reported for a project that does not compile")
        elif not linker_ok:
            v.append("success is reported although the linker did not succeed")
        elif not good:
            v.append("success is reported for an executable linked from wrong or incomplete objects (%s instead of %s objects)" % (linked[-1][3], objs))
        elif m["mode"] != "run":
            f = rep.fs.get("/work/out")
            if m["out"] != "out":
                f = rep.fs.get("/work/" + m["out"].replace("/work/", ""))
            if not f or not f[1].startswith(b"#!sim P" + digest.encode()):
                v.append("success is reported but the executable is not there")
        if m["mode"] != "out" and not runs:
            v.append("success is reported but the program was not run")
        for pid, path in runs:
            if exits.get(pid, 0) != 0:
                v.append("success is reported although the program ended with status %d" % exits[pid])
    elif m["mode"] != "out" and linker_ok and runs and not fk:
        x = exits.get(runs[-1][0])
        if x is not None and not x & 127 and x != status:
            v.append("the program ended with exit status %d, the compiler with %d" % (x >> 8, status >> 8))
    natural = valid_ and not fk and linker_ok and good and "diskcap" not in plan.set and not rep.fc.get("fsync")
    if not ok and natural and (m["mode"] == "out" or (runs and exits.get(runs[-1][0]) == 0)):
        v.append("the compilation fails although nothing went wrong (%s)" % rep.err.decode("utf-8", "replace")[:200])
    if not ok and not (rep.err + rep.out) and not any(k == "write" for k in fk) and not runs:
        v.append("the compilation fails without a word")
    if m["mode"] != "out":
        want = m["args"]
        for pid, path in runs:
            a = [e[2] for e in rep.events if e[0] == "ARG" and e[1] == pid][1:]
            if a != want:
                v.append("the program is run with the arguments %r instead of %r" % (a, want))
    if not any(k in ("remove", "opendir", "readdir", "closedir", "stat", "close") for k in fk):
        left = sorted(k for k in rep.fs if TEMP.match(k))
        if left:
            v.append("a temporary directory is left behind (%s%s)" % (left[0], ", aborted" if aborted else ""))
    return v


def nontrivial_s01(prop, plan, rep):
    return rep.stat.get("gcfreed", 0) > 0 or sum(rep.fc.values()) > 0 or "rnd" in plan.set


def nontrivial_s02(prop, plan, rep):
    return any(e[0] == "FAULT" for e in rep.events) or plan.meta["link"] != "L0 E0" or "diskcap" in plan.set or plan.meta["mode"] != "out"


simos.SPEC.update({
    "S01": dict(driver=build, gen=gen_s01, judge=judge_s01, prepare=prepare_s01, compare=True, runs=(2400, 60000), chunk=8, nontriv=nontrivial_s01, limit=(150, 3000)),
    "S02": dict(driver=build, gen=gen_s02, judge=judge_s02, compare=True, runs=(3200, 80000), chunk=16, nontriv=nontrivial_s02, limit=(130, 3000)),
})
simos.RULE.update({
    "S01": "projects (the repository's test cases, several joined, damaged variants, generated macro projects, library modules, generated full programs) compiled by the self-hosted compiler under seeded random sources, collections, heap layouts, chunked reads and writes, clocks and schedules; verdict, diagnostics, linker command and objects are compared with the run without any chance; non-trivial: something was collected, split, preempted or the random source was degenerate",
    "S02": "valid and invalid projects compiled (and run) by the self-hosted compiler while seeded system calls are refused, interrupted or split, the disk fills, and the linker fails, is killed, floods its output or is missing; non-trivial: a fault was decided, the linker script is not the plain one, the disk is bounded or the program is run",
})
