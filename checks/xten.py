"""Checks decided by the simulated memory system and destinations (sim/xtensim): J01, J02."""
import os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lib

# property: worlds in the quick tier, in the thorough tier
PLAN = {"J01": (24000, 1500000), "J02": (60000, 2000000)}
MAGIC = "xtensim case"
KINDS = ["mmap ENOMEM", "mmap EINVAL", "mmap EAGAIN", "mprotect ENOMEM", "mprotect EACCES", "placed far away", "open EACCES", "open ENOSPC",
         "write refused (ENOSPC and others)", "write EIO", "short write", "write interrupted", "open interrupted"]
RULE = {
    "J01": "seeded histories (6-35 steps) of loading objects of code and data, retrying refused ones, registering symbols near, far and at the edge of what a 32-bit distance reaches, and running what was loaded, with seeded placement of every mapping and seeded failures of mmap and mprotect; non-trivial: at least 2 objects accepted and one refused, and functions were run",
    "J02": "seeded objects written to files, to destinations of the simulation and through buffers of seeded sizes, with seeded short, interrupted and refused writes; non-trivial: at least one write was split, interrupted or refused",
}
ASSUME = {
    "J01": ["real code: the whole xten0 crate (assembler's writer, JIT engine, segments, address and symbol tables); the loaded machine code really runs",
            "simulated: where mmap places memory (within the low 2 GiB when MAP_32BIT is asked for, as the system promises), failures of mmap and mprotect, hash seeds",
            "munmap does not fail; a protection that cannot be put back may be reported by a panic, after which the engine is not used",
            "the symbols the simulation registers are code of its own or addresses that are only compared, never followed"],
    "J02": ["real code: the ELF writer and the standard library's files and buffers",
            "simulated: open and write of the object file, and every write of a destination of the simulation", "closing a file does not fail"],
}


def build():
    d = os.path.join(lib.VERIF, "sim", "xtensim")
    tgt = os.path.join(lib.BUILD, "xtensim")
    e = lib.env()
    e["CARGO_TARGET_DIR"] = tgt
    with lib.lock("xtensim"):
        lib.run_build(["cargo", "build", "--release", "--offline"], d, e, "building the memory simulator")
    return os.path.join(tgt, "release", "xtensim")


def sig(m):
    """Violations of one kind: the message without names and numbers."""
    return re.sub(r"\b[a-z]\d+(_\d+)?\b|0x[0-9a-f]+|\d+", "#", m)[:60]


def batch(exe, prop, a, b, d, left):
    """Worlds a..b, continuing behind a world that kills the process."""
    out, killed = [], 0
    while a < b and left > 1 and killed < 3:
        t = time.time()
        try:
            p = subprocess.run([exe, "run", prop, str(lib.SEED), str(a), str(b), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left + 60)
            o = p.stdout.decode("utf-8", "replace").split("\n")
            rc = p.returncode
        except subprocess.TimeoutExpired as x:
            o, rc = (x.stdout or b"").decode("utf-8", "replace").split("\n"), "time"
        left -= time.time() - t
        out += o
        if "DONE" in o or rc == "time":
            break
        done = sum(1 for l in o if l.startswith("W "))
        if rc not in (40, 41) or not done:
            out.append("H the simulator ended with %s: %s" % (rc, p.stderr[-500:].decode("utf-8", "replace")))
            break
        last = [l for l in o if l.startswith("W ")][-1].split()[1]
        out += ["V " + ("running what was loaded did not end" if rc == 41 else "the process was killed while objects were loaded and run") if prop == "J01" else "V the process was killed, or did not end, while an object was written",
                "C # xtensim case", "C prop " + prop, "C seed " + last]
        a += done
        killed += 1
    return out


def run_case(exe, text, d):
    f = os.path.join(d, "case-%d" % os.getpid())
    open(f, "w").write(text)
    p = subprocess.run([exe, "replay", f, d, "quiet"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    o = p.stdout.decode("utf-8", "replace").split("\n")
    prop = re.search(r"^prop (\S+)", text, re.M).group(1)
    v = [l[2:] for l in o if l.startswith("V ")]
    if p.returncode in (40, 41):
        v = ["running what was loaded did not end" if p.returncode == 41 else "the process was killed while objects were loaded and run"] if prop == "J01" else ["the process was killed, or did not end, while an object was written"]
    return (v[0] if v else None), "\n".join(l[2:] for l in o if l.startswith("C ")) + "\n", o


def minimise(exe, m, text, d, budget=60):
    """Fewer operations, then fewer faults, as long as the same kind of violation remains."""
    t0 = time.time()
    head = "\n".join(l for l in text.split("\n") if l.split(" ")[0] in ("#", "prop", "seed")) + "\n"
    want = sig(m)

    def bad(t):
        if time.time() - t0 > budget:
            return None
        v, c, _ = run_case(exe, t, d)
        return (v, c) if v and sig(v) == want else None

    skips, best = [], bad(head)
    if not best:
        return m, text
    for op in range(40, -1, -1):
        x = bad(head + "".join("skip %d\n" % k for k in skips + [op]))
        if x:
            skips.append(op)
            best = x
    sk = "".join("skip %d\n" % k for k in skips)
    cur = head + sk
    faults = [l for l in best[1].split("\n") if l.startswith("fault ")]
    if "fixed\n" in best[1]:
        x = bad(head + sk + "fixed\n" + "".join(l + "\n" for l in faults))
        if x:
            best, cur = x, head + sk + "fixed\n" + "".join(l + "\n" for l in faults)
            n = max(1, len(faults) // 2)
            while faults:
                i = 0
                while i < len(faults):
                    f = faults[:i] + faults[i + n:]
                    t = head + sk + "fixed\n" + "".join(l + "\n" for l in f)
                    x = bad(t)
                    if x:
                        faults, best, cur = f, x, t
                    else:
                        i += n
                if n == 1 or time.time() - t0 > budget:
                    break
                n = max(1, n // 2)
    return best[0], cur


def check(prop):
    exe = build()
    start = time.time()
    worlds = PLAN[prop][1 if lib.THOROUGH else 0]
    limit = 3000 if lib.THOROUGH else 90
    d = lib.scratch(prop + "-")
    chunk = max(20, worlds // (lib.CORES * 12))
    jobs = [(a, min(a + chunk, worlds)) for a in range(0, worlds, chunk)]
    try:
        def one(j):
            left = limit - (time.time() - start)
            if left < 1:
                return []
            x = os.path.join(d, "w%d" % j[0])
            os.mkdir(x)
            return batch(exe, prop, j[0], j[1], x, left)

        with ThreadPoolExecutor(lib.CORES) as ex:
            outs = list(ex.map(one, jobs))
        sim_s = time.time() - start
        runs = nontriv = ops = calls = 0
        n, c = [0] * 8, [0] * 13
        digests, samples, viol, harness, digest_of = set(), [], [], [], {}
        for o in outs:
            world, case, msg = None, None, None
            for l in o + ["W -"]:
                if l.startswith(("W ", "V ", "H ")) and msg is not None:
                    viol.append((msg, "\n".join(case) + "\n"))
                    msg = None
                if l.startswith("W "):
                    world = l[2:]
                elif l.startswith("S "):
                    f = l[2:].split()
                    v = [int(x) for x in f[1:]]
                    runs += 1
                    ops += v[0]
                    calls += v[1]
                    for i in range(8):
                        n[i] += v[3 + i]
                    for i in range(13):
                        c[i] += v[11 + i]
                    ok = (v[3] >= 2 and v[4] >= 1 and v[6] > 0) if prop == "J01" else v[2] > 0
                    digest_of[world] = f[0]
                    if f[0] not in digests and ok:
                        nontriv += 1
                        if len(samples) < 3 or (len(samples) < 6 and nontriv % 997 == 0):
                            samples.append({"seed": int(world), "steps": v[0], "simulated_calls": v[1], "faults": v[2], "accepted": v[3], "refused": v[4], "digest": f[0]})
                    digests.add(f[0])
                elif l.startswith("V HARNESS"):
                    harness.append("%s (seed %s)" % (l[2:], world))
                elif l.startswith("V "):
                    msg, case = l[2:], []
                elif l.startswith("H "):
                    harness.append(l[2:])
                elif l.startswith("C ") and msg is not None:
                    case.append(l[2:])
        if not runs:
            raise lib.HarnessError("no run was made: %s" % harness[:3])
        # the same seed is the same execution
        again = 0
        for w in list(digest_of)[:: max(1, len(digest_of) // 40)]:
            if "H" in w:
                continue
            v, _, o = run_case(exe, "# xtensim case\nprop %s\nseed %s\n" % (prop, w), d)
            g = [l.split()[1] for l in o if l.startswith("S ")]
            again += 1
            if v is None and g != [digest_of[w]]:
                harness.append("seed %s did not repeat: %s then %s" % (w, digest_of[w], g))
        report, kinds = [], set()
        for m, case in sorted(viol, key=lambda x: len(x[1])):
            if sig(m) in kinds or len(kinds) >= 4:
                continue
            kinds.add(sig(m))
            m2, text = minimise(exe, m, case, d)
            f = os.path.join(d, "report-%d" % len(kinds))
            open(f, "w").write(text + "# violation: %s\n" % m2)
            report.append((m2, lib.keep_replay(prop, f)))
        names = {"J01": ["objects_accepted", "objects_refused", "symbols_registered", "functions_run", "relocations_checked", None, None, "engines_given_up"],
                 "J02": ["writes_reported_complete", "writes_reported_failed", None, "bytes_accepted", "write_calls", None, None, None]}[prop]
        cov = {
            "evaluations": runs, "distinct_nontrivial": nontriv, "rule": RULE[prop] + "; distinct: by the hash of the history, its outcomes and the memory map or bytes at the end",
            "samples": samples, "steps": ops, "calls_simulated": calls, "distinct_interleavings": len(digests),
            "interleaving_measure": "hash of every step with its outcome, and the final memory map or accepted bytes", "runs_per_hour": int(runs * 3600 / max(sim_s, 0.1)),
            "simulated_time_s": "no clock is involved: %d simulated calls" % calls, "faults_injected": {k: x for k, x in zip(KINDS, c) if x},
            "observed": {k: x for k, x in zip(names, n) if k}, "runs_repeated_and_compared": again, "harness_messages": harness[:5],
        }
        lib.evidence(prop, "exploration", cov, ASSUME[prop], len(viol))
        rc = lib.conclude(prop, report)
        if rc == 0 and harness:
            for h in harness[:5]:
                print("harness: " + h)
            return 2
        print("%s: %d simulated runs, %d distinct histories, %d non-trivial, %.0f s" % (prop, runs, len(digests), nontriv, time.time() - lib.T0))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path):
    exe = build()
    text = open(path).read()
    d = lib.scratch("J-")
    try:
        f = os.path.join(d, "case")
        open(f, "w").write(text)
        p = subprocess.run([exe, "replay", f, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        print(p.stdout.decode("utf-8", "replace")[-20000:])
        v, _, _ = run_case(exe, text, d)
        m = re.search(r"^# violation: (.*)$", text, re.M)
        prop = re.search(r"^prop (\S+)", text, re.M).group(1)
        if v:
            print("violated: " + v)
        if v and (m is None or sig(v) == sig(m.group(1))):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup():
    build()
