"""Projects for the self-hosted compiler: the repository's own test cases as small programs,
several of them joined into one project, variants with damaged tokens, and programs that pull in
parts of the standard library."""
import glob, os, random, re
import lib, gcprog

TOKEN = re.compile(r''';[^\n]*|"(?:\\.|[^"\\])*"|#\\(?:space|newline|tab|[A-Za-z]+|.)|[()\[\]{}]|[`',~^@]+|[^\s()\[\]{}"';`,]+|\s+''')
OPEN, CLOSE = "([{", ")]}"


def forms(text):
    """The top-level forms of a text, each as its list of tokens."""
    out, cur, depth = [], [], 0
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t[0] == ";" or (depth == 0 and t.isspace()):
            continue
        cur.append(t)
        if t in OPEN:
            depth += 1
        elif t in CLOSE:
            depth -= 1
            if depth == 0:
                out.append(cur)
                cur = []
        elif depth == 0:
            out.append(cur)
            cur = []
    return out


def parts(form):
    """The direct elements of a parenthesised form, as texts."""
    out, cur, depth = [], [], 0
    for t in form[1:-1]:
        if depth == 0 and t.isspace():
            if cur and not re.fullmatch(r"[`',~^@]+", cur[-1]):
                out.append("".join(cur))
                cur = []
            continue
        cur.append(t)
        if t in OPEN:
            depth += 1
        elif t in CLOSE:
            depth -= 1
    if cur:
        out.append("".join(cur))
    return out


CASES = []


def cases():
    """(kind, expected to pass, {module: text}) of every test case found in the repository."""
    if CASES:
        return CASES
    for f in sorted(glob.glob(os.path.join(lib.REPO, "testcases", "*.llrl"))):
        try:
            for fm in forms(open(f).read()):
                p = parts(fm)
                if len(p) < 2 or not p[0].startswith("test-"):
                    continue
                kind, cond, body = p[0][5:], p[1], p[2:]
                if kind.startswith("std"):
                    body, cond = p[1:], "pass"
                if kind.endswith("s"):
                    mods = {}
                    for b in body:
                        q = parts(forms(b)[0])
                        mods[q[0].strip('"')] = "\n".join(q[1:])
                    kind = kind[:-1]
                else:
                    mods = {"~": "\n".join(body)}
                if all(re.fullmatch(r"~(/[a-z0-9/-]+)?", m) for m in mods) and "~" in mods:
                    CASES.append((kind, cond == "pass", mods))
        except (IndexError, ValueError):
            continue
    return CASES


PRE = '(no-implicit-std)\n(import "builtin" _)\n%s(export _)\n'
OPS = "".join('(builtin-op %s {%s} "%s")\n' % x for x in [("not", "(-> Bool Bool)", "not"), ("and", "(-> Bool Bool Bool)", "and"), ("or", "(-> Bool Bool Bool)", "or"),
              ("=", "(-> I32 I32 Bool)", "integer.eq"), ("+", "(-> I32 I32 I32)", "signed.add"), ("*", "(-> I32 I32 I32)", "signed.mul")])


def project(kind, mods):
    """Files of a test case, its main module as `main`."""
    files = {}
    head = "" if kind == "std" else '(no-implicit-std)\n(import "~/zz-pre" _)\n'
    for m, t in mods.items():
        n = "main" if m == "~" else m[2:]
        files[n + ".llrl"] = head + t + "\n"
    if kind != "std":
        files["zz-pre.llrl"] = PRE % (OPS if kind == "backend" else "")
    return files


def damage(rng, files):
    """One to three small edits: a token dropped, doubled, swapped, renamed or taken from elsewhere."""
    names = sorted(n for n in files if n != "zz-pre.llrl")
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice(names)
        toks = [m.group(0) for m in TOKEN.finditer(files[n])]
        at = [i for i, t in enumerate(toks) if not t.isspace() and t[0] != ";"]
        at = at[6:] or at
        if not at:
            continue
        i, k = rng.choice(at), rng.random()
        words = [j for j in at if re.fullmatch(r"[A-Za-z0-9_:?!*+=-]+", toks[j])]
        if k < 0.45 and words:
            i = rng.choice(words)
            toks[i] = rng.choice(["undefined-name", "x", "A", "unit", "f", "1", "g", toks[rng.choice(words)], toks[rng.choice(words)]])
        elif k < 0.6 and len(words) > 1:
            i, j = rng.choice(words), rng.choice(words)
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.75:
            toks.insert(i, " (function (f x) y) " if rng.random() < 0.5 else ' (import "~/%s" _) ' % rng.choice(["missing", "zz-pre", "main", "absent/one"]))
            if toks[i - 1:i] and not toks[i - 1].isspace():
                toks.insert(i, " ")
        elif k < 0.9 and words:
            del toks[rng.choice(words)]
        else:
            del toks[i]
        files[n] = "".join(toks)


MACROS = r'''(no-implicit-std)
(import "builtin" _)
(import "std/prelude/stage-0" _)
(export _)
(builtin-op same {(-> I32 I32 Bool)} "integer.eq")
(builtin-op plus {(-> I32 I32 I32)} "signed.add")
(macro (swapped s)
  (s/match s
    [(_ ,f ,a ,b) (ok `(,f ,b ,a))]
    [_ (err "Expected (swapped f a b)")]))
(macro (sum s)
  (s/match s
    [(_) (ok '0)]
    [(_ ,a ,@rest) (ok `(,\plus ,a (sum ,@rest)))]
    [_ (err "Expected (sum n ...)")]))
(macro (bind-all s)
  (s/match s
    [(_ () ,body) (ok body)]
    [(_ (,n ,@ns) ,body)
      (let ([t (gensym)])
        (ok `(let ([,t 1]) (let ([,n (,\plus ,t 1)]) (bind-all ,ns ,body)))))]
    [_ (err "Expected (bind-all (name ...) body)")]))
'''


def macro_project(rng):
    """Modules over the first stage of the standard library, full of macro uses."""
    files = {"mac.llrl": MACROS}
    k = rng.randint(1, 5)
    for i in range(k):
        names = ["n%d" % j for j in range(rng.randint(1, 5))]
        t = '(no-implicit-std)\n(import "std/prelude/stage-0" _)\n(import "builtin" _)\n(import "~/mac" _)\n(export _)\n'
        t += "".join('(import "~/m%d" [f%d g%d])\n' % (j, j, j) if rng.random() < 0.2 else '(import "~/m%d" f%d)\n' % (j, j) for j in range(i) if rng.random() < 0.5)
        uses = [j for j in range(i) if '"~/m%d" f%d)' % (j, j) in t]
        body = "(sum %s)" % " ".join(names + ["(f%d %d)" % (j, rng.randint(0, 9)) for j in uses])
        t += "(function (f%d x) (bind-all (%s) (plus x %s)))\n" % (i, " ".join(names), body)
        if rng.random() < 0.4:
            t += "(value-data (T%d A) (t%d: A I32) none%d)\n(function (u%d v) (match v [(t%d: (let a) (let b)) (swapped plus b 1)] [none%d 0]))\n" % ((i,) * 6)
        if rng.random() < 0.15:
            t += rng.choice(["(function (bad) (swapped plus 1))\n", "(function (bad) (sum . 3))\n", "(function (bad x) (plus x #t))\n", "(function (bad) (undefined-thing))\n"])
        files["m%d.llrl" % i] = t
    files["main.llrl"] = '(no-implicit-std)\n(import "builtin" _)\n(import "~/mac" _)\n' + "".join('(import "~/m%d" _)\n' % i for i in range(k)) + \
        "(match (same (f%d 1) 3) [#t unit] [#f unit])\n" % (k - 1)
    return files


def make(seed, thorough=False):
    """(description, files, entries) for a seed."""
    rng = random.Random(seed)
    cs = cases()
    x = rng.random()
    if not cs and x < 0.9:
        x = 0.91
    if x < 0.3:
        k, ok, m = rng.choice(cs)
        return "case", project(k, m), ["main"]
    if x < 0.5:
        one = [c for c in cs if len(c[2]) == 1 and c[0] == "backend"]
        some = [rng.choice([c for c in one if c[1]] or one) for _ in range(rng.randint(2, 7))]
        if rng.random() < 0.25:
            some[-1] = rng.choice([c for c in cs if len(c[2]) == 1 and c[0] != "std"])
        files = {"zz-pre.llrl": PRE % OPS}
        for i, (k, ok, m) in enumerate(some):
            files["c%d.llrl" % i] = '(no-implicit-std)\n(import "~/zz-pre" _)\n' + m["~"] + "\n"
        order = list(range(len(some)))
        rng.shuffle(order)
        files["main.llrl"] = "(no-implicit-std)\n" + "".join('(import "~/c%d")\n' % i for i in order)
        for i in order:
            if rng.random() < 0.3:
                j = rng.randrange(len(some))
                if j == i or (j > i and rng.random() < 0.85):
                    continue
                files["c%d.llrl" % i] = '(import "~/c%d")\n' % j + files["c%d.llrl" % i]
        return "joined", files, ["main"] + (["c0"] if rng.random() < 0.2 else [])
    if x < 0.78:
        k, ok, m = rng.choice(cs)
        files = project(k, m)
        damage(rng, files)
        return "damaged", files, ["main"]
    if x < 0.97:
        files = macro_project(rng)
        if rng.random() < 0.25:
            damage(rng, files)
        return "macros", files, ["main"]
    if x < 0.985:
        return "library", {"main.llrl": '(no-implicit-std)\n(import "std/%s" _)\n' % rng.choice(["prelude/stage-1", "option", "vector", "string", "array", "box"])}, ["main"]
    return "full", {"main.llrl": gcprog.Gen(rng.randrange(10 ** 6)).text()}, ["main"]
