"""Programs for G01: generated ones full of every kind of value that holds a reference, the
standard library's own tests, the examples and the simulator's drivers."""
import glob, os, random, re

NAMES = ["U64", "I32", "I8", "Bool", "Char", "F64", "String", "Text"]


class Gen:
    """A random program: data types, a maker and a digest for each, and a loop that keeps some
    values, drops others and makes garbage in between."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.types, self.funs, self.done = [], [], {}

    def ty(self, depth, atop=True):
        r = self.rng
        if depth <= 0 or r.random() < 0.15:
            return (r.choice(NAMES + ["String", "String"]),)
        k = r.choice(["ref", "ref", "arr", "arr", "vec", "opt", "tup2", "tup3", "fun", "fun2", "box", "data", "data", "data", "hmap", "phmap", "omap", "either", "list", "iter", "ptr", "slice"])
        if k == "data":
            return ("data", r.randrange(len(self.types))) if self.types else ("String",)
        if k in ("tup2", "either", "hmap"):
            return (k, self.ty(depth - 1), self.ty(depth - 1)) if k != "hmap" else (k, self.ty(depth - 1))
        if k == "tup3":
            return (k, self.ty(depth - 1), self.ty(depth - 2), self.ty(depth - 1))
        return (k, self.ty(depth - 1))

    def name(self, t):
        k = t[0]
        if k in NAMES:
            return k
        if k == "data":
            return "T%d" % t[1]
        a = [self.name(x) for x in t[1:]]
        return {"ref": "(Ref %s)", "arr": "(Array %s)", "slice": "(Array %s)", "vec": "(Vector %s)", "opt": "(Option %s)", "tup2": "(: %s %s)", "tup3": "(: %s %s %s)", "fun": "(-> U64 %s)",
                "fun2": "(-> %s)", "box": "(Box %s)", "hmap": "(m/HashMap U64 %s)", "phmap": "(p/HashMap String %s)", "omap": "(OrdMap U64 %s)", "either": "(Either %s %s)", "list": "(List %s)",
                "iter": "(-> (Iterator %s))", "ptr": "(Ptr %s)"}[k] % tuple(a)

    def fun(self, t):
        """The number of the type's maker and digest."""
        if t in self.done:
            return self.done[t]
        i = self.done[t] = len(self.done)
        n = self.name(t)
        k = t[0]
        r = self.rng
        mk = lambda x, a: "(mk%d %s)" % (self.fun(x), a)
        dg = lambda x, a: "(dg%d %s)" % (self.fun(x), a)
        c = r.randint(1, 9)
        if k == "U64":
            m, d = "(* n %d)" % c, "x"
        elif k in ("I32", "I8"):
            m, d = "(conv-to %s (%% n 100))" % k, "(conv-to U64 x)"
        elif k == "Bool":
            m, d = "(eq? 0 (%% n %d))" % (c + 1), "(if x 3 5)"
        elif k == "Char":
            m, d = '(option/unwrap #\\\\x (get? (array #\\\\a #\\\\b #\\\\c)[(%% n 3)]))', None
            m, d = "(if (eq? 0 (% n 2)) #\\a #\\b)", "(if (eq? x #\\a) 7 9)"
        elif k == "F64":
            m, d = "(* 0.5 (conv-to F64 (% n 1000)))", "(if (lt? x 100.0) 11 13)"
        elif k == "String":
            m, d = r.choice(['(string "s" n "-" (* n 7))', '(string (debug (: n "q")) n)', '(string/concat (string n) "tail")']), "(str-dg x)"
            if "concat" in m:
                m = '(string n "tail")'
        elif k == "Text":
            m, d = '(text "t" n "é")', "(str-dg (string x))"
        elif k == "ref":
            m, d = "(ref %s)" % mk(t[1], "(+ n 1)"), dg(t[1], "~x")
        elif k == "box":
            m, d = "(box %s)" % mk(t[1], "(+ n 2)"), dg(t[1], "~x")
        elif k == "arr":
            m = "(array %s)" % " ".join(mk(t[1], "(+ n %d)" % j) for j in range(r.randint(1, 4)))
            d = "(let ([s {(Ref U64)} (ref 17)]) (for (let e) x (set! s (mix ~s %s))) ~s)" % dg(t[1], "e")
        elif k == "slice":
            m = "(array/skip %d (array %s))" % (r.randint(1, 2), " ".join(mk(t[1], "(+ n %d)" % j) for j in range(4)))
            d = "(let ([s {(Ref U64)} (ref 19)]) (for (let e) x (set! s (mix ~s %s))) ~s)" % dg(t[1], "e")
        elif k == "vec":
            m = "(let ([v {%s} vector/empty] [i {(Ref U64)} (ref 0)]) (while (< ~i %d) (vector/push! %s v) (set! i (+ ~i 1))) v)" % (n, r.choice([2, 5, 9]), mk(t[1], "(+ n ~i)"))
            d = "(let ([s {(Ref U64)} (ref 23)]) (for (let e) x (set! s (mix ~s %s))) ~s)" % dg(t[1], "e")
        elif k == "opt":
            m, d = "(if (eq? 0 (%% n %d)) none (some %s))" % (c + 1, mk(t[1], "(+ n 3)")), "(match x [none 29] [(some (let y)) %s])" % dg(t[1], "y")
        elif k == "tup2":
            m, d = "(: %s %s)" % (mk(t[1], "n"), mk(t[2], "(+ n 1)")), "(match x [(: (let a) (let b)) (mix %s %s)])" % (dg(t[1], "a"), dg(t[2], "b"))
        elif k == "tup3":
            m, d = "(: %s %s %s)" % (mk(t[1], "n"), mk(t[2], "(+ n 1)"), mk(t[3], "(+ n 2)")), "(match x [(: (let a) (let b) (let c)) (mix %s (mix %s %s))])" % (dg(t[1], "a"), dg(t[2], "b"), dg(t[3], "c"))
        elif k == "either":
            m, d = "(if (eq? 0 (%% n 2)) (left %s) (right %s))" % (mk(t[1], "n"), mk(t[2], "n")), "(match x [(left (let a)) %s] [(right (let b)) (+ 1 %s)])" % (dg(t[1], "a"), dg(t[2], "b"))
        elif k == "fun":
            a, b = mk(t[1], "n"), mk(t[1], "(+ n q)")
            m, d = "(let ([a %s] [w (ref n)]) (lambda (q) (if (eq? 0 (%% q 2)) (begin (set! w (+ ~w 1)) a) %s)))" % (a, b), "(mix %s %s)" % (dg(t[1], "(x 4)"), dg(t[1], "(x 3)"))
        elif k == "fun2":
            m, d = "(let ([a %s] [f (ref (lambda () 1 {U64}))]) (lambda () (begin (let1 old ~f (set! f (lambda () (+ 1 (old))))) a)))" % mk(t[1], "n"), dg(t[1], "(x)")
        elif k == "hmap":
            m = "(let ([h {%s} m/hash-map/empty] [i {(Ref U64)} (ref 0)]) (while (< ~i %d) (m/hash-map/insert! (* ~i 3) %s h) (set! i (+ ~i 1))) h)" % (n, r.choice([1, 3]), mk(t[1], "(+ n ~i)"))
            d = "(match (m/hash-map/get? 0 x) [(some (let y)) %s] [none 31])" % dg(t[1], "y")
        elif k == "phmap":
            m = "(let ([h {(Ref %s)} (ref p/hash-map/empty)] [i {(Ref U64)} (ref 0)]) (while (< ~i %d) (set! h (p/hash-map/insert (string \"k\" ~i) %s ~h)) (set! i (+ ~i 1))) ~h)" % (n, r.choice([1, 4]), mk(t[1], "(+ n ~i)"))
            d = "(match (p/hash-map/get? \"k0\" x) [(some (let y)) %s] [none 37])" % dg(t[1], "y")
        elif k == "omap":
            m = "(let ([h {%s} ord-map/empty] [i {(Ref U64)} (ref 0)]) (while (< ~i %d) (ord-map/insert! (%% (* ~i 5) 7) %s h) (set! i (+ ~i 1))) h)" % (n, r.choice([1, 4]), mk(t[1], "(+ n ~i)"))
            d = "(let ([s {(Ref U64)} (ref 41)]) (for (: (let k) (let e)) (ord-map/elems x) (set! s (mix ~s (mix k %s)))) ~s)" % dg(t[1], "e")
        elif k == "list":
            m = "(cons %s (cons %s nil))" % (mk(t[1], "n"), mk(t[1], "(+ n 1)"))
            d = "(match x [(cons (let a) (cons (let b) _)) (mix %s %s)] [_ 43])" % (dg(t[1], "a"), dg(t[1], "b"))
        elif k == "iter":
            m = "(let ([a (array %s %s)]) (lambda () (it/filter (lambda (e) #t) (iterate a))))" % (mk(t[1], "n"), mk(t[1], "(+ n 4)"))
            d = "(let ([s {(Ref U64)} (ref 47)]) (for (let e) (x) (set! s (mix ~s %s))) ~s)" % dg(t[1], "e")
        elif k == "ptr":
            m = "(ptr/add 1 (array/ptr (array %s %s %s)))" % (mk(t[1], "n"), mk(t[1], "(+ n 1)"), mk(t[1], "(+ n 2)"))
            d = dg(t[1], "(ptr/load x)")
        elif k == "data":
            cons = self.types[t[1]]
            alts, pats = [], []
            for ci, fs in enumerate(cons[1]):
                cn = "t%d-%d:" % (t[1], ci)
                alts.append("(%s %s)" % (cn, " ".join(mk(f, "(+ n %d)" % j) for j, f in enumerate(fs))) if fs else cn)
                e = "%d" % (50 + ci)
                for j, f in enumerate(fs):
                    e = "(mix %s %s)" % (e, dg(f, "f%d" % j))
                pats.append("[%s %s]" % ("(%s %s)" % (cn, " ".join("(let f%d)" % j for j in range(len(fs)))) if fs else cn, e))
            m = alts[-1]
            for ci in range(len(alts) - 1):
                m = "(if (eq? %d (%% n %d)) %s %s)" % (ci, len(alts), alts[ci], m)
            d = "(match x %s)" % " ".join(pats)
        self.funs.append("(function (mk%d n) {(-> U64 %s)}\n  %s)\n(function (dg%d x) {(-> %s U64)}\n  %s)\n" % (i, n, m, i, n, d))
        return i

    def text(self):
        r = self.rng
        for i in range(r.randint(3, 7)):
            self.types.append((r.choice(["data", "value-data"]), [[self.ty(2) for _ in range(r.randint(0 if c else 1, 4))] for c in range(r.choice([1, 1, 2, 3]))]))
        roots = [("data", i) for i in range(len(self.types))] + [self.ty(3) for _ in range(3)]
        fs = [self.fun(t) for t in roots]
        o = ['(import "std/hash-map" [m/_ _])', '(import "std/persistent/hash-map" [p/_ _])', '(import "std/ord-map" _)', '(import "std/memory" Ptr ptr/_)', '(import "std/array" array/ptr)', '(import "std/box" _)', '(import "std/either" _)', '']
        o = [x for x in o if "box" not in x and "either" not in x and "std/array" not in x]
        o += ["(data (List A) (cons A (List A)) nil)",
              "(function (mix a b) {(-> U64 U64 U64)} (+ (* a 31) b))",
              "(function (str-dg s) {(-> String U64)}\n  (let ([h {(Ref U64)} (ref 7)])\n    (for (let b) (string/bytes s) (set! h (+ (* ~h 33) (conv-to U64 b))))\n    ~h))", ""]
        for i, (kw, cons) in enumerate(self.types):
            cs = []
            for ci, f in enumerate(cons):
                cn = "t%d-%d:" % (i, ci)
                cs.append("(%s %s)" % (cn, " ".join(self.name(x) for x in f)) if f else cn)
            o.append("(%s T%d %s)" % (kw, i, " ".join(cs)))
        o.append("")
        o += self.funs
        o.append("(let ([n {(Ref U64)} (ref 0)]")
        for j, t in enumerate(roots):
            o.append("      [keep%d {(Vector %s)} vector/empty]" % (j, self.name(t)))
        o.append("      )")
        rounds = r.choice([4, 8, 14])
        o.append("  (while (< ~n %d)" % rounds)
        for j, f in enumerate(fs):
            o.append("    (vector/push! (mk%d ~n) keep%d)" % (f, j))
            if r.random() < 0.5:
                o.append("    (ignore (mk%d (* ~n 3)))" % r.choice(fs))
            if r.random() < 0.5:
                o.append("    (when (< 1 ~n) (set! (vector/ref (%% (* ~n 7) (- ~n 1)) keep%d) (mk%d (+ ~n 50))))" % (j, f))
            if r.random() < 0.4:
                o.append("    (println! \"%d \" (dg%d (get keep%d[(/ ~n 2)])))" % (j, f, j))
        o.append("    (set! n (+ ~n 1)))")
        for j, f in enumerate(fs):
            o.append("  (for (let x) keep%d (println! \"end %d \" (dg%d x))))" % (j, j, f) if j == len(fs) - 1 else "  (for (let x) keep%d (println! \"end %d \" (dg%d x)))" % (j, j, f))
        o.insert(0, '(import "std/system" args)')
        o.append('(for (let a) (args) (println! "arg " a))')
        return "\n".join(o) + "\n"


if __name__ == "__main__":
    import sys
    print(Gen(int(sys.argv[1])).text())
