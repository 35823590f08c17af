"""Shared by every check: building from /repo's tree, evidence, known findings, reporting."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CORES = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()


class HarnessError(Exception):
    pass


def env():
    """The environment of /opt/vp/env.sh (pinned toolchain), without our own switches."""
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode()
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("PIPESIM_DIGEST", "PIPESIM_FIXED"):
        e.pop(k, None)
    return e


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run_build(cmd, cwd, e, what, timeout=840):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise HarnessError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def build_rt(e):
    # rt's own build script ignores a failing make and knows nothing of rt.h; what it makes is git-ignored
    with lock("rt"):
        run_build(["make", "-s", "-B", "-C", os.path.join(REPO, "rt")], REPO, e, "building the runtime")


def build_pipesim():
    d = os.path.join(VERIF, "sim", "pipesim")
    tgt = os.path.join(BUILD, "pipesim")
    e = env()
    e["RUSTC_WRAPPER"] = os.path.join(d, "rustc-wrap.sh")
    e["CARGO_TARGET_DIR"] = tgt
    with lock("pipesim"):
        build_rt(e)
        run_build(["cargo", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"], d, e, "building the pipeline simulator")
    return os.path.join(tgt, "x86_64-unknown-linux-gnu", "release", "pipesim")


def scratch(prefix):
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=d)


def known_findings(prop):
    """Listed genuine defects: lines 'finding: property=ID match=SUBSTRING :: text'."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop) and " match=" in l and " :: " in l:
                head, text = l.split(" :: ", 1)
                out.append((head.split(" match=", 1)[1], text))
    except FileNotFoundError:
        pass
    return out


def evidence(prop, level, coverage, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage.setdefault("exhaustive", False)
    doc = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": coverage,
           "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    s = json.dumps(doc, indent=1)
    if len(s) > 60000:
        coverage["samples"] = coverage.get("samples", [])[:2]
        s = json.dumps(doc, indent=1)
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        f.write(s + "\n")
    os.replace(p + ".tmp", p)


def keep_replay(prop, src, ext=".case"):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    dst = os.path.join(REPLAYS, "%s-%s%s" % (prop, h, ext))
    shutil.copyfile(src, dst)
    return dst


def conclude(prop, violations):
    """violations: [(message, replay path)]. Known ones are named, the rest fail the check."""
    known = known_findings(prop)
    fresh = []
    seen = set()
    for m, r in violations:
        k = next((t for s, t in known if s in m), None)
        if k is None:
            fresh.append((m, r))
        elif k not in seen:
            seen.add(k)
    for s, t in known:
        if t in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        else:
            print("note: listed finding not met in this run: %s" % t)
    for m, r in fresh:
        print("violated: %s" % m)
        print("VIOLATION property=%s replay=%s" % (prop, r))
    sys.stdout.flush()
    return 1 if fresh else 0
