//! Seeded generation of a set of llrl packages, together with everything the
//! properties promise about them (closure, faults, init order, macro results).
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SrcFault { None, Parse, Utf8, SelfImport, BadPath, Meta, MissingMod, MissingPkg }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BuildFault {
    None, UnresolvedValue, UnresolvedType, ImportTarget, TypeMismatch, Duplicate, WildcardConflict, ConflictingExport,
    MacroErr, MacroNonSexp, Syntax, NonExhaustive, Useless, NoInstance, Overlap, TwoUnresolved, TwoTypeErrors, TwoNonExhaustive,
    ExportTarget, KindMismatch, SameModuleMacro, CyclicClass, TwoExportConflicts, Ambiguous, StdWildcard, NoInstanceWhere, OverlapTwo,
    Knot, Open, TwoAmbiguous, TwoUseless,
}
pub const BUILD_FAULTS: &[BuildFault] = &[
    BuildFault::UnresolvedValue, BuildFault::UnresolvedType, BuildFault::ImportTarget, BuildFault::TypeMismatch, BuildFault::Duplicate,
    BuildFault::WildcardConflict, BuildFault::ConflictingExport, BuildFault::MacroErr, BuildFault::MacroNonSexp, BuildFault::Syntax,
    BuildFault::NonExhaustive, BuildFault::Useless, BuildFault::NoInstance, BuildFault::Overlap, BuildFault::TwoUnresolved,
    BuildFault::TwoTypeErrors, BuildFault::TwoNonExhaustive, BuildFault::ExportTarget, BuildFault::KindMismatch,
    BuildFault::SameModuleMacro, BuildFault::CyclicClass, BuildFault::TwoExportConflicts, BuildFault::Ambiguous, BuildFault::StdWildcard,
    BuildFault::NoInstanceWhere, BuildFault::OverlapTwo,
    BuildFault::Knot, BuildFault::Open, BuildFault::TwoAmbiguous, BuildFault::TwoUseless,
];

#[derive(Clone, Debug)]
pub enum Stmt {
    Lit,                       // (emit M)
    Mac(usize),                // (emit (macK M))
    NestMac(usize, usize),     // (emit (macK (macL M)))
    Fun(usize),                // (emit (fJ M))
    Data(usize),               // (emit (sumJ (mkJ M)))
    Swap(usize),               // match on generic value-data
    Class(usize, usize),       // (emit (kJ (idL M)))
    Clos(usize),               // (emit ((addJ M) 1))
    Gen(usize),                // (use-s (gsK))
    Deep(usize, usize),        // (emit (totJ (lstJ n M)))          a list in fresh memory
    Fold(usize),               // (emit (foldK M))                  a macro building a large answer
    Str(usize),                // (emit (lenJ (repJ 5 "..") M))     strings in fresh memory
    Cat(usize),                // (emit (slen (catK "..") M))       a macro building a string
    Caps(usize),               // (emit ((capJ M lst) 3))           a closure holding a list
    Calc(usize, i32),          // (emit (qJ* M n))                  a random typed function
}

#[derive(Clone, Debug)]
pub struct Mod {
    pub idx: usize,
    pub pkg: usize, // 0 = current
    pub parts: Vec<String>,
    pub imports: Vec<usize>,
    pub cond: Vec<(usize, bool)>, // import guarded by a feature; enabled?
    pub bare: Vec<usize>,         // imports of no name: only for what the module does when it is initialised
    pub import_style: Vec<u32>,
    pub implicit_std: bool,
    pub src_fault: SrcFault,
    pub build_fault: BuildFault,
    pub stmts: Vec<Stmt>,
    pub has_data: bool,
    pub has_generic: bool,
    pub has_class: bool,
    pub has_macro: bool,
    pub has_gensym: bool,
    pub facade: bool,
    pub calc: bool,
    pub calc_deps: Vec<usize>,
    pub noise: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Profile {
    pub min_mods: usize,
    pub max_mods: usize,
    pub src_faults: u32,   // percent of modules
    pub build_faults: u32, // percent of modules
    pub cycles: u32,       // percent of worlds
    pub fs: u32,           // percent of worlds with file system packages
    pub entries: u32,      // percent of worlds with several entry points
    pub partial_entries: u32,
    pub macros: u32,
    pub stmts: usize,
    pub noise: u32,
    pub density: u32,
    pub rich: bool,
}

#[derive(Clone, Debug)]
pub struct World {
    pub seed: u64,
    pub mods: Vec<Mod>,
    pub dropped: BTreeSet<usize>,
    pub entries: Vec<usize>,   // roots handed to the source collection
    pub mains: Vec<usize>,     // subset used as entry points of the build
    pub feature: bool,
    pub fs: bool,
    pub std_fs: bool,
    pub rich: bool,
}

pub fn marker(i: usize, n: usize) -> u64 { 1_000_000 + (i as u64) * 1000 + n as u64 }
pub fn mac_k(k: usize) -> u64 { 2_000_000 * (k as u64 + 1) }

pub const PKGS: &[&str] = &["~", "p1", "p2"];

/// blank space: never empty
fn noise_ws(r: &mut Rng, nl: &str, o: &mut String) {
    match r.n(12) { 0 => o.push_str(nl), 1 => o.push_str(" \t "), 2 => o.push_str(&format!(" ; ( \" é{}", nl)), _ => o.push(' ') }
}

/// An arbitrary s-expression using every form of the notation.
fn noise_sexp(r: &mut Rng, depth: usize, nl: &str, o: &mut String) {
    let k = if depth == 0 { r.n(9) } else { r.n(22) };
    match k {
        0 => o.push_str(&format!("s{}-x", r.n(30))),
        1 => o.push_str(*r.pick(&["a.b", "->", "...", "<=?", "x!", "y?", "+", "-", "|", "_", "!=", "::c:", "a*/%&^", "?x", "!!", "-x1", "+.e"])),
        2 => o.push_str(&format!("{}", r.next() >> r.n(64))),
        3 => o.push_str(&format!("{}{}", if r.p(50) { "-" } else { "+" }, (r.next() >> 1) >> r.n(63))),
        4 => o.push_str(&format!("{}.{}", r.n(100), r.n(1000))),
        5 => o.push_str(if r.p(50) { "#t" } else { "#f" }),
        6 => o.push_str(*r.pick(&["#\\a", "#\\é", "#\\語", "#\\\\n", "#\\\\0", "#\\\\\\", "#\\(", "#\\]", "#\\@", "#\\😀"])),
        7 => o.push_str(&format!("\"{}\"", *r.pick(&["", "a b", "日本語", "\\\"q\\\"", "\\n\\t\\0\\r\\\\", "; no ( comment", "multi\nline é", "😀\r\nx"]))),
        8 => o.push_str("()"),
        9 | 10 => { o.push_str(*r.pick(&["'", "`", ",", ",@", "\\", "~"])); if r.p(20) { noise_ws(r, nl, o); } noise_sexp(r, depth - 1, nl, o); }
        _ => {
            let (l, c) = if r.p(70) { ('(', ')') } else { ('[', ']') };
            o.push(l);
            if r.p(20) { noise_ws(r, nl, o); }
            let n = r.n(5);
            for _ in 0..n { noise_sexp(r, depth - 1, nl, o); noise_ws(r, nl, o); }
            match r.n(8) {
                0 if n > 0 => { o.push_str(". "); noise_sexp(r, depth - 1, nl, o); }
                1 => {
                    o.push('@');
                    let t = r.n(4);
                    for _ in 0..t { noise_ws(r, nl, o); noise_sexp(r, depth - 1, nl, o); }
                    if t > 0 && r.p(15) { o.push_str(" . "); noise_sexp(r, depth - 1, nl, o); }
                }
                _ => {}
            }
            if r.p(20) { noise_ws(r, nl, o); }
            o.push(c);
        }
    }
    // postfix forms
    if depth > 0 && r.p(25) {
        for _ in 0..1 + r.n(3) {
            match r.n(3) {
                0 => { o.push_str(" ?"); }
                1 => { o.push_str(" !"); }
                _ => {
                    if r.p(40) { noise_ws(r, nl, o); }
                    o.push('{');
                    for i in 0..r.n(4) { if i > 0 { noise_ws(r, nl, o); } noise_sexp(r, depth - 1, nl, o); }
                    o.push('}');
                }
            }
        }
    }
}

impl Mod {
    pub fn path(&self) -> String {
        if self.parts.is_empty() { PKGS[self.pkg].to_string() } else { format!("{}/{}", PKGS[self.pkg], self.parts.join("/")) }
    }
    pub fn file(&self) -> String {
        let p = if self.pkg == 0 { "cur" } else { PKGS[self.pkg] };
        if self.parts.is_empty() { format!("/sim/{}/prelude.llrl", p) } else { format!("/sim/{}/{}.llrl", p, self.parts.join("/")) }
    }
}

pub fn missing(i: usize) -> String {
    match i % 6 { 4 => format!("m{}.missing", i), 5 => "m0.1".into(), k => format!("missing-{}", k) }
}

pub fn generate(seed: u64, pr: &Profile) -> World {
    let mut r = Rng::new(seed, 0x11);
    let n = pr.min_mods + r.n(pr.max_mods - pr.min_mods + 1);
    let cyc = r.p(pr.cycles);
    let density = if pr.density > 0 { pr.density } else { *r.pick(&[10, 25, 40, 70]) };
    let mut mods: Vec<Mod> = vec![];
    let mut prelude_used = [false; 3];
    let shape = r.n(4); // random, chain, star, layered
    for i in 0..n {
        let mut m = Rng::new(seed, 0x100 + i as u64);
        let ext = if i == 0 { 100 } else { 100 - (100 * i / n) as u32 };
        let pkg = if i + 1 < n && m.p(ext / 2) { 1 + m.n(2) } else { 0 };
        let mut parts = vec![];
        if m.p(15) && !prelude_used[pkg] { prelude_used[pkg] = true; } else {
            if m.p(25) { parts.push(format!("d{}", m.n(3))); if m.p(30) { parts.push("sub".into()); } }
            // a dot is a character like any other, and what is before it may name another module
            parts.push(match m.n(16) { 0 => format!("m{}.m{}", m.n(i + 1), i), 1 => format!("m{}.llrl", i), 2 => format!("m{}.", i), _ => format!("m{}", i) });
        }
        // the same name in another package is another module
        if i > 0 && m.p(12) {
            let j = m.n(i);
            let p = &mods[j].parts;
            if mods[j].pkg != pkg && !p.is_empty() && !parts.is_empty() && !mods.iter().any(|x| x.pkg == pkg && x.parts == *p) { parts = p.clone(); }
        }
        let mut imports = vec![];
        for j in 0..i {
            let ok = mods[j].pkg != 0 || pkg == 0;
            let want = match shape {
                1 => j + 1 == i || m.p(density / 4),
                2 => j == 0 || m.p(density / 6),
                3 => j / 4 + 1 == i / 4 && m.p(70),
                _ => m.p(density),
            };
            if ok && want && imports.len() < 7 { imports.push(j); }
        }
        m.shuffle(&mut imports);
        let cond = if i > 0 && m.p(15) {
            let j = m.n(i);
            if (mods[j].pkg != 0 || pkg == 0) && !imports.contains(&j) { vec![(j, m.p(50))] } else { vec![] }
        } else { vec![] };
        let bare = if i > 0 && m.p(15) {
            let j = m.n(i);
            if (mods[j].pkg != 0 || pkg == 0) && !imports.contains(&j) { vec![j] } else { vec![] }
        } else { vec![] };
        let src_fault = if m.p(pr.src_faults) {
            *m.pick(&[SrcFault::Parse, SrcFault::Utf8, SrcFault::SelfImport, SrcFault::BadPath, SrcFault::Meta, SrcFault::MissingMod, SrcFault::MissingMod, SrcFault::MissingPkg])
        } else { SrcFault::None };
        let build_fault = if m.p(pr.build_faults) { *m.pick(BUILD_FAULTS) } else { BuildFault::None };
        let import_style = (0..16).map(|_| m.n(100) as u32).collect();
        mods.push(Mod {
            idx: i, pkg, parts, imports, cond, bare, import_style,
            implicit_std: m.p(50), src_fault, build_fault, stmts: vec![],
            has_data: m.p(50), has_generic: m.p(50), has_class: m.p(40), has_macro: m.p(pr.macros), has_gensym: m.p(pr.macros / 2),
            calc: pr.rich && m.p(60), calc_deps: vec![],
            facade: m.p(10), noise: if m.p(pr.noise) { m.next() | 1 } else { 0 },
        });
    }
    if cyc && n >= 2 {
        // turn a few edges around (or close a path)
        let k = 1 + r.n(3);
        for _ in 0..k {
            let a = r.n(n); let b = r.n(n);
            let (lo, hi) = (a.min(b), a.max(b));
            if lo != hi && !mods[lo].imports.contains(&hi) && (mods[lo].pkg == 0 || mods[hi].pkg != 0) { mods[lo].imports.push(hi); }
        }
    }
    // entry points: every sink, or a random non-empty subset of the current package
    let cur: Vec<usize> = (0..n).filter(|&i| mods[i].pkg == 0).collect();
    let mut entries = vec![n - 1];
    if r.p(pr.entries) { for &c in &cur { if r.p(40) && !entries.contains(&c) { entries.push(c); } } }
    else if r.p(60) {
        let imported: BTreeSet<usize> = mods.iter().flat_map(|m| m.imports.iter().copied()).collect();
        for &c in &cur { if !imported.contains(&c) && !entries.contains(&c) { entries.push(c); } }
    }
    r.shuffle(&mut entries);
    let mut mains = entries.clone();
    if r.p(pr.partial_entries) && mains.len() > 1 { let k = 1 + r.n(mains.len() - 1); mains.truncate(k); }
    let feature = r.p(50);
    for m in mods.iter_mut() { for c in m.cond.iter_mut() { c.1 = feature == c.1; } }
    let fs = r.p(pr.fs);
    let mut w = World { seed, mods, dropped: BTreeSet::new(), entries, mains, feature, fs, std_fs: fs && r.p(60), rich: pr.rich };
    for i in 0..n { let v: Vec<usize> = w.mods[i].imports.iter().copied().filter(|&j| j < i && w.mods[j].calc).collect(); w.mods[i].calc_deps = v; }
    // statements
    for i in 0..n {
        let mut m = Rng::new(seed, 0x5000 + i as u64);
        let k = m.n(pr.stmts + 1);
        let imps: Vec<usize> = w.mods[i].imports.clone();
        let mut st = vec![];
        for _ in 0..k {
            let j = if imps.is_empty() || m.p(30) { i } else { *m.pick(&imps) };
            let l = if imps.is_empty() || m.p(30) { i } else { *m.pick(&imps) };
            let mj = &w.mods[j]; let ml = &w.mods[l];
            let rich = pr.rich && m.p(60);
            let s = match m.n(if rich { 24 } else { 10 }) {
                16..=23 if mj.calc => Stmt::Calc(j, m.n(50) as i32 - 10),
                10 => Stmt::Deep(j, 3 + m.n(30)),
                11 | 15 if mj.has_macro && j != i => Stmt::Fold(j),
                12 => Stmt::Str(j),
                13 if mj.has_macro && j != i => Stmt::Cat(j),
                14 => Stmt::Caps(j),
                0 => Stmt::Fun(j),
                1 if mj.has_data => Stmt::Data(j),
                2 if mj.has_generic => Stmt::Swap(j),
                3 if mj.has_class && ml.has_generic => Stmt::Class(j, l),
                4 | 5 | 6 if mj.has_macro && j != i => if ml.has_macro && l != i && m.p(40) { Stmt::NestMac(j, l) } else { Stmt::Mac(j) },
                7 => Stmt::Clos(j),
                8 if mj.has_gensym && j != i => Stmt::Gen(j),
                _ => Stmt::Lit,
            };
            st.push(s);
        }
        w.mods[i].stmts = st;
    }
    w
}

impl World {
    pub fn alive(&self, i: usize) -> bool { !self.dropped.contains(&i) }
    /// Remove modules (used when minimising): nothing refers to them any more.
    pub fn drop_mods(&mut self, d: &BTreeSet<usize>) {
        self.dropped = d.clone();
        for m in self.mods.iter_mut() {
            m.imports.retain(|j| !d.contains(j));
            m.cond.retain(|c| !d.contains(&c.0));
            m.bare.retain(|j| !d.contains(j));
            m.stmts.retain(|s| match s {
                Stmt::Lit => true,
                Stmt::Mac(a) | Stmt::Fun(a) | Stmt::Data(a) | Stmt::Swap(a) | Stmt::Clos(a) | Stmt::Gen(a) | Stmt::Deep(a, _) | Stmt::Fold(a) | Stmt::Str(a) | Stmt::Cat(a) | Stmt::Caps(a) | Stmt::Calc(a, _) => !d.contains(a),
                Stmt::NestMac(a, b) | Stmt::Class(a, b) => !d.contains(a) && !d.contains(b),
            });
        }
        self.entries.retain(|e| !d.contains(e));
        self.mains.retain(|e| !d.contains(e));
    }
    /// modules written as imported by module i (whatever the guards say: only enabled ones)
    pub fn deps(&self, i: usize) -> Vec<usize> {
        let m = &self.mods[i];
        let mut v = m.imports.clone();
        for (j, on) in &m.cond { if *on && !v.contains(j) { v.push(*j); } }
        for j in &m.bare { if !v.contains(j) { v.push(*j); } }
        v
    }
    pub fn import_text(&self, from: usize, to: usize, style: u32) -> String {
        let (a, b) = (&self.mods[from], &self.mods[to]);
        let pk = if a.pkg == b.pkg && (b.pkg == 0 || style % 3 != 0) { "~".to_string() } else { PKGS[b.pkg].to_string() };
        if b.parts.is_empty() { if style % 2 == 0 { pk } else { format!("{}/prelude", pk) } } else { format!("{}/{}", pk, b.parts.join("/")) }
    }
    /// f_i(x): value of the chain function, for the expected output of compiled programs
    pub fn f_callee(&self, i: usize) -> Option<usize> {
        let m = &self.mods[i];
        if m.idx % 3 == 0 { None } else { m.imports.iter().copied().find(|&j| j < i) }
    }
    pub fn f_val(&self, i: usize, x: i32) -> i32 {
        let a = (i as i32 % 5) + 1;
        let mut v = x.wrapping_mul(a).wrapping_add(i as i32);
        if let Some(j) = self.f_callee(i) { v = v.wrapping_add(self.f_val(j, x.wrapping_add(1))); }
        v
    }
    pub fn calc(&self, i: usize) -> crate::calc::Calc { crate::calc::generate(self.seed, i, &self.mods[i].calc_deps) }
    pub fn calc_val(&self, i: usize, x: i32, y: i32) -> i32 { self.calc(i).eval(x, y, &|j| self.alive(j), &|j, v| self.calc_val(j, v, 3)) }
    pub fn clos_val(&self, j: usize, x: i32) -> i32 { x.wrapping_add(j as i32).wrapping_add(1) }
    /// numbers a module prints, in order
    pub fn prints(&self, i: usize) -> Vec<i64> {
        let mut v = vec![];
        for (n, s) in self.mods[i].stmts.iter().enumerate() {
            let mk = marker(i, n) as i64;
            match s {
                Stmt::Lit | Stmt::Data(_) | Stmt::Swap(_) => v.push(mk),
                Stmt::Mac(k) => v.push(mk + mac_k(*k) as i64),
                Stmt::NestMac(k, l) => v.push(mk + (mac_k(*k) + mac_k(*l)) as i64),
                Stmt::Fun(j) => v.push(self.f_val(*j, mk as i32) as i64),
                Stmt::Class(j, _) => v.push((mk as i32).wrapping_add(*j as i32) as i64),
                Stmt::Clos(j) => v.push(self.clos_val(*j, mk as i32) as i64),
                Stmt::Gen(_) => v.push(mk),
                Stmt::Deep(_, k) => v.push(mk + (*k * (*k + 1) / 2) as i64),
                Stmt::Fold(_) => v.push(mk + 20),
                Stmt::Str(j) => v.push(mk + 6 * (2 + 4 + *j as i64 % 3)),
                Stmt::Cat(_) => v.push(mk + 10),
                Stmt::Caps(_) => v.push(mk + 2 * 55 + 3),
                Stmt::Calc(j, k) => v.push(self.calc_val(*j, mk as i32, *k) as i64),
            }
        }
        v
    }
    /// marker and macro constants a module's initialisers contain, per statement
    pub fn consts(&self, i: usize) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (n, s) in self.mods[i].stmts.iter().enumerate() {
            let mk = marker(i, n);
            let mut c = match s {
                Stmt::Mac(k) => vec![mk, mac_k(*k)],
                Stmt::NestMac(k, l) => vec![mk, mac_k(*k), mac_k(*l)],
                _ => vec![mk],
            };
            c.sort();
            v.push(c);
        }
        v
    }
    pub fn closure(&self, roots: &[usize]) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut q: Vec<usize> = roots.to_vec();
        while let Some(i) = q.pop() {
            if seen.insert(i) { q.extend(self.deps(i)); }
        }
        seen
    }

    fn import_decl(&self, i: usize, j: usize, k: usize) -> String {
        let m = &self.mods[i];
        let style = m.import_style[k % 16];
        let t = &self.mods[j];
        let path = self.import_text(i, j, style);
        let names = self.exported_names(j);
        if style < 30 { return format!("(import \"{}\" _)", path); }
        if style < 45 {
            // in two declarations, the second by a different spelling
            let (a, b) = names.split_at(names.len() / 2);
            return format!("(import \"{}\" {})\n(import \"{}\" {})", path, a.join(" "), self.import_text(i, j, style + 1), b.join(" "));
        }
        if style < 60 && !t.facade { return format!("(import \"{}\" f{}* {})", path, j, names.iter().filter(|n| **n != format!("f{}*", j)).cloned().collect::<Vec<_>>().join(" ")); }
        if style < 70 { return format!("(import \"{}\" [x_ f_] _)", path); }
        format!("(import \"{}\" {})", path, names.join(" "))
    }
    fn exported_names(&self, j: usize) -> Vec<String> {
        let m = &self.mods[j];
        let mut v = vec![format!("f{}*", j), format!("add{}", j), format!("hlp{}", j)];
        if m.has_data { v.extend([format!("D{}", j), format!("a{}:", j), format!("b{}:", j), format!("c{}:", j), format!("mk{}", j), format!("sum{}", j)]); }
        if m.has_generic { v.extend([format!("id{}", j), format!("P{}", j), format!("p{}:", j), format!("sw{}", j)]); }
        if m.has_class { v.extend([format!("K{}", j), format!("k{}", j), format!("K{}.I32", j)]); if m.has_data { v.push(format!("K{}.D", j)); } }
        if m.has_macro { v.push(format!("mac{}", j)); }
        if m.has_gensym { v.push(format!("gs{}", j)); }
        if self.rich { v.extend([format!("L{}", j), format!("lst{}", j), format!("tot{}", j), format!("rep{}", j), format!("cap{}", j)]); if m.has_macro { v.extend([format!("fold{}", j), format!("cat{}", j)]); } }
        if m.calc { v.push(format!("q{}*", j)); }
        v.push(format!("bad{}", j));
        v
    }

    /// The text of module i, and what is promised about its diagnostics:
    /// (needle whose position the diagnostic must carry, text the diagnostic must contain)
    pub fn text(&self, i: usize) -> (String, Option<(String, String)>) {
        let m = &self.mods[i];
        let mut r = Rng::new(self.seed, 0x9000 + i as u64);
        let mut imps: Vec<String> = vec![];
        let mut d: Vec<String> = vec![];
        let mut expect = None;
        if !m.implicit_std {
            imps.push("(no-implicit-std)".into());
            imps.push("(import \"builtin\" _)".into());
            imps.push("(import \"std/ops\" _)".into());
        }
        imps.push("(import \"std/out\" emit use-s)".into());
        if self.rich { imps.push("(import \"std/rich\" _)".into()); }
        for (k, &j) in m.imports.iter().enumerate() { imps.push(self.import_decl(i, j, k)); }
        for &j in &m.bare { imps.push(format!("(import \"{}\")", self.import_text(i, j, m.import_style[10]))); }
        for (j, on) in &m.cond {
            let text = self.import_text(i, *j, m.import_style[9]);
            let f = match (*on, self.feature) { (true, true) => "fx", (true, false) => "other", (false, true) => "fy", (false, false) => "fx" };
            imps.push(format!("($when ($feature \"{}\") (import \"{}\" [cnd{}_ f_]))", f, text, i));
        }
        let a = i as i32 % 5 + 1;
        let call = match self.f_callee(i) { Some(j) => format!("(+ (+ (* x {}) {}) (f{}* (+ x 1)))", a, i, j), None => format!("(+ (* x {}) {})", a, i) };
        d.push(format!("(function (f{}* x) {{(-> I32 I32)}}\n  {})", i, call));
        d.push(format!("(function (add{i} x) {{(-> I32 (-> I32 I32))}}\n  (let ([(g y) {{(-> I32 I32)}} (+ (+ x y) {i})]) g))", i = i));
        d.push(format!("(function (hlp{} s) {{(-> (Syntax Sexp) (Syntax Sexp))}} {})", i, match m.imports.iter().find(|&&j| j < i) { Some(j) if i % 2 == 0 => format!("(hlp{} s)", j), _ => "s".into() }));
        d.push(format!("(macro (bad{i} s) \"T{i}:err\" (err \"macro bad{i} says no\"))", i = i));
        if self.rich {
            d.push(format!("(data L{i}\n  nil{i}:\n  (cons{i}: I32 L{i}))", i = i));
            d.push(format!("(function (lst{i} n) {{(-> I32 L{i})}}\n  (if (<i n 1) nil{i}: (cons{i}: n (lst{i} (+ n -1)))))", i = i));
            d.push(format!("(function (tot{i} l x) {{(-> L{i} I32 I32)}}\n  (match l [nil{i}: x] [(cons{i}: (let a) (let r)) (+ a (tot{i} r x))]))", i = i));
            d.push(format!("(function (rep{i} n s) {{(-> I32 String String)}}\n  (if (<i n 1) s (s-cat (rep{i} (+ n -1) s) s)))", i = i));
            d.push(format!("(function (cap{i} x l) {{(-> I32 L{i} (-> I32 I32))}}\n  (let ([(g y) {{(-> I32 I32)}} (+ (tot{i} l x) (+ y (tot{i} (lst{i} 10) 0)))]) g))", i = i));
            if m.has_macro {
                d.push(format!("(function (wrap{i} n x) {{(-> I32 (Syntax Sexp) (Syntax Sexp))}}\n  (if (<i n 1) x (wrap{i} (+ n -1) (syntax (sexp:cons '+ (syntax (sexp:cons x (syntax (sexp:cons '1 (syntax sexp:nil))))))))))", i = i));
                d.push(format!("(macro (fold{i} s)\n  (match s\n    [(syntax (sexp:cons _ (syntax (sexp:cons (let x) (syntax sexp:nil)))))\n      (ok (wrap{i} 20 x))]\n    [_ (err \"Expected (fold{i} x)\")]))", i = i));
                d.push(format!("(macro (cat{i} s)\n  (match s\n    [(syntax (sexp:cons _ (syntax (sexp:cons (syntax (sexp:string (let x))) (syntax sexp:nil)))))\n      (ok (syntax (sexp:string (rep{i} 4 (s-cat x \"\")))))]\n    [_ (err (rep{i} 2 \"Expected (cat{i} x)\"))]))", i = i));
            }
        }
        if m.calc { imps.push("(import \"std/calc\" _)".into()); d.extend(self.calc(i).decls(&|j| self.alive(j))); }
        if m.has_data {
            let inner = m.imports.iter().copied().find(|&j| j < i && self.mods[j].has_data);
            let f = match inner { Some(j) => format!("D{}", j), None => "I32".into() };
            let s = match inner { Some(j) => format!("(sum{} e)", j), None => "e".into() };
            d.push(format!("({} D{i}\n  (a{i}: I32)\n  (b{i}: {} D{i})\n  c{i}:)", "data", f, i = i));
            d.push(format!("(function (mk{i} n) {{(-> I32 D{i})}}\n  (b{i}: {} (a{i}: n)))", match inner { Some(j) => format!("c{}:", j), None => "0".into() }, i = i));
            d.push(format!("(function (sum{i} d) {{(-> D{i} I32)}}\n  (match d\n    [(a{i}: (let x)) x]\n    [(b{i}: (let e) (let r)) (+ {} (sum{i} r))]\n    [c{i}: 0]))", s, i = i));
        }
        if m.has_generic {
            d.push(format!("(function (id{i} x) {{(forall A) (-> A A)}} x)", i = i));
            d.push(format!("(value-data (P{i} A B) (p{i}: A B))", i = i));
            d.push(format!("(function (sw{i} p) {{(forall A B) (-> (P{i} A B) (P{i} B A))}}\n  (match p [(p{i}: (let a) (let b)) (p{i}: b a)]))", i = i));
        }
        if m.has_class {
            d.push(format!("(class (K{i} A) (function (k{i} a) {{(-> A I32)}}))", i = i));
            d.push(format!("(instance K{i}.I32 (K{i} I32) (function (k{i} a) (+ a {i})))", i = i));
            if m.has_data { d.push(format!("(instance K{i}.D (K{i} D{i}) (function (k{i} a) (sum{i} a)))", i = i)); }
        }
        if m.has_macro {
            let h = match m.imports.iter().find(|&&j| j < i) { Some(j) => *j, None => i };
            d.push(format!("(macro (mac{i} s)\n  \"T{i}:add\"\n  (match s\n    [(syntax (sexp:cons _ (syntax (sexp:cons (let x) (syntax sexp:nil)))))\n      (ok (syntax (sexp:cons '+ (syntax (sexp:cons (hlp{h} x) (syntax (sexp:cons '{k} (syntax sexp:nil))))))))]\n    [_ (err \"Expected (mac{i} x)\")]))", i = i, h = h, k = mac_k(i)));
        }
        if m.has_gensym {
            d.push(format!("(builtin-op genid{i} {{(-> String)}} \"string.genid\")", i = i));
            d.push(format!("(macro (gs{i} s) \"T{i}:gen\" (ok (syntax (sexp:string (genid{i})))))", i = i));
        }
        // own faults
        match m.build_fault {
            BuildFault::None => {}
            BuildFault::UnresolvedValue => {
                d.push(format!("(function (e{i}) {{(-> I32)}}\n   (+ 1 no-such-value-{i}))", i = i));
                expect = Some((format!("no-such-value-{}", i), format!("Unresolved value no-such-value-{}", i)));
            }
            BuildFault::UnresolvedType => {
                d.push(format!("(function (e{i} x) {{(-> No-such-type-{i} I32)}} 1)", i = i));
                expect = Some((format!("No-such-type-{}", i), format!("Unresolved type No-such-type-{}", i)));
            }
            BuildFault::ImportTarget => {
                imps.push(format!("(import \"builtin\" no-such-export-{})", i));
                expect = Some((format!("no-such-export-{}", i), format!("Unresolved import-target no-such-export-{}", i)));
            }
            BuildFault::ExportTarget => {
                d.push(format!("(export no-such-local-{})", i));
                expect = Some((format!("no-such-local-{}", i), format!("Unresolved export-target no-such-local-{}", i)));
            }
            BuildFault::TypeMismatch => d.push(format!("(function (e{i}) {{(-> I32)}} \"not a number {i}\")", i = i)),
            BuildFault::Duplicate => d.push(format!("(function (e{i}) {{(-> I32)}} 1)\n(function (e{i}) {{(-> I32)}} 2)", i = i)),
            BuildFault::WildcardConflict => {
                imps.push("(import \"std/dup-a\" _)".into());
                imps.push("(import \"std/dup-b\" _)".into());
            }
            BuildFault::ConflictingExport => d.push("(import \"std/dup-a\" [l_ dup_])\n(import \"std/dup-b\" [r_ dup_])\n(export [same_ l_] [same_ r_])".to_string()),
            BuildFault::TwoExportConflicts => d.push(format!("(function (ea{i}) {{(-> I32)}} 1)\n(function (eb{i}) {{(-> I32)}} 1)\n(function (oa{i}) {{(-> I32)}} 1)\n(function (ob{i}) {{(-> I32)}} 1)\n(export [z_ e_] [z_ o_])", i = i)),
            BuildFault::MacroErr => {
                // the macro comes from another module: std/dup-a exports one that always fails
                imps.push("(import \"std/dup-a\" [fails-here fails])".into());
                d.push(format!("(function (e{i}) {{(-> I32)}}\n  (+ 0 (fails-here site-{i})))", i = i));
                expect = Some((format!("(fails-here site-{})", i), "Macro expansion failed: always fails".to_string()));
            }
            BuildFault::MacroNonSexp => {
                imps.push("(import \"std/dup-a\" [empty-here empty])".into());
                d.push(format!("(function (e{i}) {{(-> I32)}}\n  (+ 0 (empty-here site-{i})))", i = i));
            }
            BuildFault::Syntax => d.push(format!("(function ({i}))", i = i)),
            BuildFault::NonExhaustive => d.push(format!("(function (e{i} x) {{(-> Bool I32)}} (match x [#t 1]))", i = i)),
            BuildFault::Useless => d.push(format!("(function (e{i} x) {{(-> Bool I32)}} (match x [#t 1] [_ 2] [#f 3]))", i = i)),
            BuildFault::NoInstance => d.push(format!("(class (E{i} A) (function (ek{i} a) {{(-> A I32)}}))\n(function (e{i}) {{(-> I32)}} (ek{i} \"s\"))", i = i)),
            BuildFault::NoInstanceWhere => d.push(format!("(class (E{i} A) (function (ek{i} a) {{(-> A I32)}}))\n(class (F{i} A) (function (fk{i} a) {{(-> A I32)}}))\n(class (G{i} A) (function (gk{i} a) {{(-> A I32)}}))\n(function (e{i} x) {{(forall A) (-> A I32) (where (F{i} A) (G{i} A))}} (ek{i} x))", i = i)),
            BuildFault::Overlap => d.push(format!("(class (E{i} A) (function (ek{i} a) {{(-> A I32)}}))\n(instance E{i}.A (E{i} I32) (function (ek{i} a) a))\n(instance E{i}.B (E{i} I32) (function (ek{i} a) a))\n(instance E{i}.C (E{i} I32) (function (ek{i} a) a))\n(function (e{i}) {{(-> I32)}} (ek{i} 1{{I32}}))", i = i)),
            BuildFault::TwoUnresolved => d.push(format!("(function (e{i}) {{(-> I32)}} no-such-a-{i})\n(function (ee{i}) {{(-> I32)}} no-such-b-{i})\n(function (eee{i}) {{(-> I32)}} no-such-c-{i})", i = i)),
            BuildFault::TwoTypeErrors => d.push(format!("(function (e{i}) {{(-> I32)}} \"x\")\n(function (ee{i}) {{(-> Bool)}} \"x\")\n(function (eee{i}) {{(-> String)}} #t)\n(instance EK{i} (EKK{i} I32) (function (ek{i} a) #t))\n(class (EKK{i} A) (function (ek{i} a) {{(-> A I32)}}))", i = i)),
            BuildFault::TwoNonExhaustive => d.push(format!("(function (e{i} x) {{(-> Bool I32)}} (match x [#t 1]))\n(function (ee{i} x) {{(-> Bool I32)}} (match x [#f 1]))\n(function (eee{i} x) {{(-> (: Bool Bool) I32)}} (match x [(: #f _) 1]))", i = i)),
            BuildFault::KindMismatch => d.push(format!("(data (EH{i} A) (eh{i}: A))\n(function (e{i} x) {{(-> EH{i} I32)}} 1)", i = i)),
            BuildFault::SameModuleMacro => d.push(format!("(function (e{i}) {{(-> I32)}} (bad{i} 1))", i = i)),
            BuildFault::CyclicClass => d.push(format!("(class (E{i} A) (where (EE{i} A)))\n(class (EE{i} A) (where (EEE{i} A)))\n(class (EEE{i} A) (where (E{i} A)))", i = i)),
            BuildFault::Ambiguous => d.push(format!("(class (E{i} A) (function (ek{i}) {{(-> A)}}) (function (el{i} a) {{(-> A I32)}}))\n(instance E{i}.S (E{i} String) (function (ek{i}) \"\") (function (el{i} a) 1))\n(function (e{i}) {{(-> I32)}} (el{i} (ek{i})))", i = i)),
            // functions without signatures that need each other, at odds in more than one place
            BuildFault::Knot => d.push(format!("(function (ea{i} x n) (if x (eb{i} #t n) (ec{i} 1{{I32}})))\n(function (eb{i} y n) (if y (ec{i} \"a\") (ea{i} y n)))\n(function (ec{i} z) (if (ea{i} #t 1{{I32}}) (ed{i} z) 4))\n(function (ed{i} z) (eb{i} #f z))", i = i)),
            // functions without signatures, of types not known when the conflict is met
            BuildFault::Open => d.push(format!("(function (ea{i} x y z) (begin (x y z) (y x z) (x z z)))\n(function (eb{i} x y) (begin (x y) (p-of-e{i} x y)))\n(function (p-of-e{i} x y) (begin (x y y) (y x)))\n(function (ec{i} f) (f f))\n(function (ed{i} f g) (begin (f g) (g f) unit))", i = i)),
            BuildFault::TwoAmbiguous => d.push(format!("(class (E{i} A) (function (ek{i}) {{(-> A)}}) (function (el{i} a) {{(-> A I32)}}))\n(class (EE{i} A) (function (em{i}) {{(-> A)}}) (function (en{i} a) {{(-> A I32)}}))\n(function (ea{i}) {{(-> I32)}} (+ (el{i} (ek{i})) (en{i} (em{i}))))\n(function (eb{i}) {{(-> I32)}} (+ (en{i} (em{i})) (el{i} (ek{i}))))", i = i)),
            BuildFault::TwoUseless => d.push(format!("(function (e{i} x) {{(-> Bool I32)}} (match x [#t 1] [_ 2] [#f 3]))\n(function (ee{i} x) {{(-> Bool I32)}} (match x [#f 1] [_ 2] [#t 3]))\n(function (eee{i} x) {{(-> (: Bool Bool) I32)}} (match x [(: #f _) 1] [_ 2] [(: #f #t) 3]))", i = i)),
            BuildFault::OverlapTwo => {
                imps.push("(import \"std/ov-c\" _)\n(import \"std/ov-a\" Ov.A)\n(import \"std/ov-b\" Ov.B)".into());
                d.push(format!("(function (e{i}) {{(-> I32)}} (ov-of 1{{I32}}))\n(emit (e{i}))", i = i));
            }
            BuildFault::StdWildcard => imps.push("(import \"std/dup-b\" [pre_ _])\n(import \"std/dup-a\" [pre_ _])".into()),
        }
        r.shuffle(&mut d);
        // statements keep their order; they may sit between the declarations
        let mut st: Vec<String> = vec![];
        for (n, s) in m.stmts.iter().enumerate() {
            let mk = marker(i, n);
            st.push(match s {
                Stmt::Lit => format!("(emit {})", mk),
                Stmt::Mac(k) => format!("(emit (mac{} {}))", k, mk),
                Stmt::NestMac(k, l) => format!("(emit (mac{} (mac{} {})))", k, l, mk),
                Stmt::Fun(j) => format!("(emit (f{}* {}))", j, mk),
                Stmt::Data(j) => format!("(emit (sum{} (mk{} {})))", j, j, mk),
                Stmt::Swap(j) => format!("(match (sw{j} (p{j}: {mk} #t))\n  [(p{j}: _ (let n)) (emit n)])", j = j, mk = mk),
                Stmt::Class(j, l) => format!("(emit (k{} (id{} {}{{I32}})))", j, l, mk),
                Stmt::Clos(j) => format!("(emit ((add{} {}) 1))", j, mk),
                Stmt::Gen(k) => format!("(emit (use-s (gs{}) {}))", k, mk),
                Stmt::Deep(j, n) => format!("(emit (tot{j} (lst{j} {n}) {mk}))", j = j, n = n, mk = mk),
                Stmt::Fold(k) => format!("(emit (fold{} {}))", k, mk),
                Stmt::Str(j) => format!("(emit (slen (rep{j} 5 \"ab{}\") {mk}))", ["éxy", "éxyz", "éxyzw"][*j % 3], j = j, mk = mk),
                Stmt::Cat(k) => format!("(emit (slen (cat{} \"ab\") {}))", k, mk),
                Stmt::Calc(j, k) => format!("(emit (q{}* {} {}))", j, mk, k),
                Stmt::Caps(j) => format!("(emit ((cap{j} {mk} (lst{j} 10)) 3))", j = j, mk = mk),
            });
        }
        let mut exports: Vec<String> = self.exported_names(i);
        if !m.has_macro { exports.retain(|e| !e.starts_with("mac")); }
        let mut body: Vec<String> = vec![];
        // merge d and st
        let (mut x, mut y) = (d.into_iter().peekable(), st.into_iter().peekable());
        while x.peek().is_some() || y.peek().is_some() {
            if y.peek().is_none() || (x.peek().is_some() && r.p(60)) { body.push(x.next().unwrap()); } else { body.push(y.next().unwrap()); }
        }
        let exp = if m.facade { "(export _)".to_string() } else { format!("(export {})", exports.join(" ")) };
        let at = if r.p(50) { 0 } else { body.len() };
        body.insert(at, exp);
        match m.src_fault {
            SrcFault::None | SrcFault::Utf8 => {}
            SrcFault::Parse => body.push("(function (oops".into()),
            SrcFault::SelfImport => imps.push(format!("(import \"{}\" _)", self.import_text(i, i, 1))),
            SrcFault::BadPath => imps.push("(import \"~/a//b\" _)".into()),
            SrcFault::Meta => body.push("$undefined-meta".into()),
            SrcFault::MissingMod => imps.push(format!("(import \"~/{}\" _)", missing(i))),
            SrcFault::MissingPkg => imps.push(format!("(import \"nopkg{}/x\" _)", i % 2)),
        }
        let mut all = imps;
        let first = all.len();
        all.extend(body);
        // imports may stand anywhere among the other forms
        if m.build_fault == BuildFault::None && r.p(25) {
            for _ in 0..3 { let a = r.n(first.max(1)); if !all[a].starts_with("(import") { continue } let x = all.remove(a); let b = r.n(all.len() + 1); all.insert(b, x); }
        }
        let text = self.render(m, &all, &mut r);
        (text, expect)
    }

    /// Every way the fault of module i may be reported: the text the position lies in, and the message.
    pub fn accepts(&self, i: usize) -> Vec<(String, String)> {
        let v = |a: &[(&str, &str)]| a.iter().map(|(x, y)| (x.replace("{i}", &i.to_string()), y.replace("{i}", &i.to_string()))).collect::<Vec<_>>();
        match self.mods[i].build_fault {
            BuildFault::None => vec![],
            BuildFault::UnresolvedValue => v(&[("no-such-value-{i}", "Unresolved value no-such-value-{i}")]),
            BuildFault::UnresolvedType => v(&[("No-such-type-{i}", "Unresolved type No-such-type-{i}")]),
            BuildFault::ImportTarget => v(&[("no-such-export-{i}", "Unresolved import-target no-such-export-{i}")]),
            BuildFault::ExportTarget => v(&[("no-such-local-{i}", "Unresolved export-target no-such-local-{i}")]),
            BuildFault::TypeMismatch => v(&[("(function (e{i}) {(-> I32)} \"not a number {i}\")", "Cannot unify type")]),
            BuildFault::Duplicate => v(&[("(function (e{i}) {(-> I32)} 1)\n(function (e{i}) {(-> I32)} 2)", "Multiple declarations: e{i} ")]),
            BuildFault::WildcardConflict => v(&[("(import \"std/dup-a\" _)\n(import \"std/dup-b\" _)", "Multiple declarations: dup")]),
            BuildFault::StdWildcard => v(&[("(import \"std/dup-b\" [pre_ _])\n(import \"std/dup-a\" [pre_ _])", "Multiple declarations: predup")]),
            BuildFault::ConflictingExport => v(&[("[same_ l_] [same_ r_]", "Conflicting exports: same"), ("(import \"std/dup-a\" [l_ dup_])\n(import \"std/dup-b\" [r_ dup_])\n(export [same_ l_] [same_ r_])", "Conflicting exports:")]),
            BuildFault::TwoExportConflicts => v(&[("", "Conflicting exports: ")]),
            BuildFault::MacroErr => v(&[("(fails-here site-{i})", "Macro expansion failed: always fails")]),
            BuildFault::MacroNonSexp => v(&[("(empty-here site-{i})", "Syntax error: expected <expr>"), ("", "Syntax error: expected <expr>")]),
            BuildFault::Syntax => v(&[("(function ({i}))", "Syntax error: expected (<function")]),
            BuildFault::NonExhaustive => v(&[("(function (e{i} x) {(-> Bool I32)} (match x [#t 1]))", "Non-exhaustive pattern: the following patterns are not covered: #f")]),
            BuildFault::Useless => v(&[("(function (e{i} x) {(-> Bool I32)} (match x [#t 1] [_ 2] [#f 3]))", "Useless pattern: #f")]),
            BuildFault::NoInstance => v(&[("(function (e{i}) {(-> I32)} (ek{i} \"s\"))", "No matching instances: Cannot satisfy (E{i} String)")]),
            BuildFault::NoInstanceWhere => v(&[("(function (e{i} x) {(forall A) (-> A I32) (where (F{i} A) (G{i} A))} (ek{i} x))", "No matching instances: Cannot satisfy (E{i} A)")]),
            BuildFault::Overlap => v(&[("", "instances detected: E{i}.")]),
            BuildFault::OverlapTwo => v(&[("", "instances detected: Ov.")]),
            BuildFault::CyclicClass => v(&[("", "classes detected: E")]),
            BuildFault::TwoUnresolved => v(&[("no-such-a-{i}", "Unresolved value no-such-a-{i}"), ("no-such-b-{i}", "Unresolved value no-such-b-{i}"), ("no-such-c-{i}", "Unresolved value no-such-c-{i}")]),
            BuildFault::TwoTypeErrors => v(&[("(function (e{i}) {(-> I32)} \"x\")", "Cannot unify type"), ("(function (ee{i}) {(-> Bool)} \"x\")", "Cannot unify type"), ("(function (eee{i}) {(-> String)} #t)", "Cannot unify type"), ("(instance EK{i} (EKK{i} I32) (function (ek{i} a) #t))", "Cannot unify type")]),
            BuildFault::TwoNonExhaustive => v(&[("(function (e{i} x) {(-> Bool I32)} (match x [#t 1]))", "Non-exhaustive pattern: the following patterns are not covered: #f"), ("(function (ee{i} x) {(-> Bool I32)} (match x [#f 1]))", "Non-exhaustive pattern: the following patterns are not covered: #t"), ("(function (eee{i} x) {(-> (: Bool Bool) I32)} (match x [(: #f _) 1]))", "Non-exhaustive pattern: the following patterns are not covered: (: #t _)")]),
            BuildFault::Knot | BuildFault::Open => v(&[("", "Cannot unify type"), ("", "Infinite"), ("", "nfinite")]),
            BuildFault::TwoAmbiguous => v(&[("", "No matching instances: Cannot satisfy (E{i} "), ("", "No matching instances: Cannot satisfy (EE{i} ")]),
            BuildFault::TwoUseless => v(&[("", "Useless pattern: ")]),
            BuildFault::KindMismatch => v(&[("(function (e{i} x) {(-> EH{i} I32)} 1)", "Cannot unify kind")]),
            BuildFault::SameModuleMacro => v(&[("(bad{i} 1)", "Cannot use macro defined in the same module"), ("(bad{i} 1)", "Unresolved value bad{i}")]),
            BuildFault::Ambiguous => v(&[("(function (e{i}) {(-> I32)} (el{i} (ek{i})))", "No matching instances: Cannot satisfy (E{i} ")]),
        }
    }

    fn render(&self, m: &Mod, decls: &[String], r: &mut Rng) -> String {
        if m.noise == 0 { return decls.join("\n") + "\n"; }
        let mut o = String::new();
        let nl = if r.p(30) { "\r\n" } else { "\n" };
        for d in decls {
            match r.n(10) {
                0 => o.push_str(&format!("; コメント é ← \"({}", nl)),
                1 => o.push_str(nl),
                2 => o.push_str("  \t "),
                3 => o.push_str(&format!(";{}{}", nl, nl)),
                4 => { o.push_str(&format!("(function (n{}-{}) {{(-> String)}} \"日本{}語 \\\" \\n é\")", m.idx, o.len(), nl)); }
                5 => { o.push_str(&format!("(function (c{}-{}) {{(-> Char)}} #\\é) ", m.idx, o.len())); }
                6 | 7 => {
                    let mut q = String::new();
                    noise_sexp(r, 4, nl, &mut q);
                    o.push_str(&format!("(function (q{}-{}) {{(-> (Syntax Sexp))}} '{}) ", m.idx, o.len(), q));
                }
                _ => {}
            }
            if r.p(40) {
                // spread the declaration over lines with odd spacing
                let mut ins = false;
                let mut esc = false;
                for c in d.chars() {
                    if ins { if esc { esc = false; } else if c == '\\' { esc = true; } else if c == '"' { ins = false; } o.push(c); continue; }
                    if c == '"' { ins = true; }
                    if c == ' ' { match r.n(6) { 0 => o.push_str(nl), 1 => o.push_str(" \t"), 2 => o.push_str(&format!(" ; é) ( \"{}", nl)), _ => o.push(' ') } } else { o.push(c); }
                }
            } else { o.push_str(d); }
            o.push_str(if r.p(80) { nl } else { " " });
        }
        if r.p(30) { while o.ends_with(['\n', '\r', ' ']) { o.pop(); } }
        o
    }

    pub fn bytes(&self, i: usize) -> Vec<u8> {
        let mut b = self.text(i).0.into_bytes();
        if self.mods[i].src_fault == SrcFault::Utf8 { let at = b.len() / 2; b.insert(at, 0xff); }
        b
    }

    /// The small standard library the generated modules use.
    pub fn std_modules() -> BTreeMap<&'static str, String> {
        let mut m = BTreeMap::new();
        m.insert("prelude", "(no-implicit-std)\n(import \"builtin\" _)\n(import \"std/ops\" _)\n(import \"std/extra\" std-extra)\n(export _)\n".to_string());
        m.insert("ops", "(no-implicit-std)\n(import \"builtin\" I32 Bool)\n(builtin-op + {(-> I32 I32 I32)} \"signed.add\")\n(builtin-op * {(-> I32 I32 I32)} \"signed.mul\")\n(builtin-op =i {(-> I32 I32 Bool)} \"integer.eq\")\n(builtin-op not {(-> Bool Bool)} \"not\")\n(export + * =i not)\n".to_string());
        m.insert("extra", "(no-implicit-std)\n(import \"builtin\" _)\n(export std-extra)\n(function (std-extra) {(-> I32)} 7)\n".to_string());
        m.insert("out", "(no-implicit-std)\n(import \"builtin\" _)\n(import \"std/ops\" _)\n(c-function putchar {(-> I32 I32)} \"putchar\")\n(builtin-op / {(-> I32 I32 I32)} \"signed.div\")\n(builtin-op % {(-> I32 I32 I32)} \"signed.rem\")\n(builtin-op <i {(-> I32 I32 Bool)} \"signed.lt\")\n(export emit use-s)\n(function (digits n) {(-> I32 unit)}\n  (begin (if (<i n 10) unit (digits (/ n 10))) (putchar (+ 48 (% n 10))) unit))\n(function (emit n) {(-> I32 unit)}\n  (begin (if (<i n 0) (begin (putchar 45) (digits (* n -1))) (digits n)) (putchar 10) unit))\n(function (use-s s n) {(-> String I32 I32)} (begin s n))\n".to_string());
        let mut a = String::from("(no-implicit-std)\n(import \"builtin\" _)\n(export _)\n(macro (fails s) \"T999:fails\" (err \"always fails\"))\n(macro (empty s) \"T998:empty\" (ok (syntax sexp:nil)))\n");
        let mut b = String::from("(no-implicit-std)\n(import \"builtin\" _)\n(export dup_)\n");
        for k in 0..6 { a += &format!("(function (dup{}) {{(-> I32)}} 1)\n", k); b += &format!("(function (dup{}) {{(-> I32)}} 2)\n", k); }
        m.insert("rich", "(no-implicit-std)\n(import \"builtin\" _)\n(import \"std/ops\" _)\n(builtin-op <i {(-> I32 I32 Bool)} \"signed.lt\")\n(builtin-op s-cat {(-> String String String)} \"string.concat\")\n(builtin-op s-len {(-> String U64)} \"string.length\")\n(builtin-op trunc {(forall A B) (-> A B)} \"integer.trunc\")\n(function (u64-i32 x) {(-> U64 I32)} (trunc x))\n(export <i s-cat slen)\n(function (slen s n) {(-> String I32 I32)} (+ n (u64-i32 (s-len s))))\n".to_string());
        m.insert("calc", crate::calc::module());
        m.insert("ov-c", "(no-implicit-std)\n(import \"builtin\" _)\n(export Ov ov-of)\n(class (Ov A) (function (ov-of a) {(-> A I32)}))\n".to_string());
        m.insert("ov-a", "(no-implicit-std)\n(import \"builtin\" _)\n(import \"std/ov-c\" _)\n(export Ov.A)\n(instance Ov.A (Ov I32) (function (ov-of a) 1))\n".to_string());
        m.insert("ov-b", "(no-implicit-std)\n(import \"builtin\" _)\n(import \"std/ov-c\" _)\n(export Ov.B)\n(instance Ov.B (Ov I32) (function (ov-of a) 2))\n".to_string());
        m.insert("dup-a", a);
        m.insert("dup-b", b);
        m
    }
    pub fn std_deps(name: &str) -> &'static [&'static str] {
        match name { "ov-a" | "ov-b" => &["ov-c"], "prelude" => &["ops", "extra"], "out" | "rich" => &["ops"], _ => &[] }
    }
    /// std modules module i imports
    pub fn std_uses(&self, i: usize) -> Vec<&'static str> {
        let m = &self.mods[i];
        let mut v = vec!["out"];
        if self.rich { v.push("rich"); }
        if m.calc { v.push("calc"); }
        if m.implicit_std { v.push("prelude"); } else { v.push("ops"); }
        match m.build_fault {
            BuildFault::WildcardConflict | BuildFault::ConflictingExport | BuildFault::StdWildcard => { v.push("dup-a"); v.push("dup-b"); }
            BuildFault::MacroErr | BuildFault::MacroNonSexp => v.push("dup-a"),
            BuildFault::OverlapTwo => { v.push("ov-a"); v.push("ov-b"); v.push("ov-c"); }
            _ => {}
        }
        v
    }
}
