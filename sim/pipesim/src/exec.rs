//! Runs the real pipeline on a generated world under the simulator (in a forked child)
//! and judges the history against what the world promises.
use crate::case::Case;
use crate::irspy::{self, IrLog, Spy};
use crate::out::Out;
use crate::reader::{Kind, Node, Reader};
use crate::sim::{self, Stats};
use crate::world::{BuildFault, SrcFault, World};
use llrl::formatting::ContextualDisplay as _;
use llrl::prelude::*;
use llrl::sexp::SexpRep;
use llrl::source::SourceRep;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

pub const B: &str = "builtin";

/// every module of a world by canonical path, with its text
pub struct Layout { pub text: BTreeMap<String, String>, pub idx: BTreeMap<String, usize> }

fn has_fs(w: &World, pkg: usize) -> bool { w.fs && (pkg != 2 || w.seed % 3 != 0) }

pub fn setup(w: &World) -> (SourceLoader, Layout, BTreeMap<String, u32>) {
    let mut loader = SourceLoader::new();
    loader.add_package(PackageName::builtin(), ast::builtin::module());
    let mut lay = Layout { text: BTreeMap::new(), idx: BTreeMap::new() };
    let mut files: BTreeMap<String, u32> = BTreeMap::new(); // canonical path -> simulated file
    let mut nf = 0;
    let add_file = |p: String, data: &[u8]| {
        let c = std::ffi::CString::new(p).unwrap();
        unsafe { sim::sim_fs_add(c.as_ptr(), data.as_ptr(), data.len()) };
    };
    lay.text.insert(B.into(), ast::builtin::module());
    for (name, text) in World::std_modules() {
        let p = if name == "prelude" { "std".to_string() } else { format!("std/{}", name) };
        if w.std_fs { add_file(format!("/sim/std/{}.llrl", name), text.as_bytes()); files.insert(p.clone(), nf); nf += 1; }
        else { loader.add_source(p.parse().unwrap(), text.clone()); }
        lay.text.insert(p, text);
    }
    if w.std_fs { loader.add_package(PackageName::std(), std::path::PathBuf::from("/sim/std")); }
    for pkg in 0..3 {
        if has_fs(w, pkg) {
            let (name, dir) = if pkg == 0 { (PackageName::current(), "/sim/cur".to_string()) } else { (PackageName::external(crate::world::PKGS[pkg]).unwrap(), format!("/sim/{}", crate::world::PKGS[pkg])) };
            loader.add_package(name, std::path::PathBuf::from(dir));
        }
    }
    for m in &w.mods {
        if !w.alive(m.idx) { continue; }
        let b = w.bytes(m.idx);
        lay.idx.insert(m.path(), m.idx);
        lay.text.insert(m.path(), String::from_utf8_lossy(&b).into_owned());
        if has_fs(w, m.pkg) { add_file(m.file(), &b); files.insert(m.path(), nf); nf += 1; }
        else { loader.add_source(m.path().parse().unwrap(), String::from_utf8_lossy(&b).into_owned()); }
    }
    (loader, lay, files)
}

fn utf8_faulty(w: &World, i: usize) -> bool { w.mods[i].src_fault == SrcFault::Utf8 && has_fs(w, w.mods[i].pkg) }

// ---------------------------------------------------------------- module level
#[derive(Default)]
pub struct ModLog {
    pub adds: Vec<(String, bool, u64)>,
    pub mods: BTreeMap<String, Arc<Module>>,
    pub deps: BTreeMap<String, Vec<String>>,
    pub table: Option<*const SourceLocationTable>,
    pub macros: u64,
    pub expected_entries: BTreeSet<String>,
}
unsafe impl Send for ModLog {}

pub struct ModSpy<'a, B: llrl::module::Backend> { pub inner: &'a B, pub log: &'a Mutex<ModLog>, pub out: Out, pub w: &'a World }

impl<'a, B: llrl::module::Backend> llrl::module::Backend for ModSpy<'a, B> {
    fn add_module(&self, m: Arc<Module>, entry: bool) {
        let p = m.path().to_string();
        {
            let mut l = self.log.lock().unwrap();
            if l.adds.iter().any(|a| a.0 == p) { self.out.v("C04", &format!("module {} was handed to the backend twice", p)); }
            for d in l.deps.get(&p).cloned().unwrap_or_default() {
                if !l.adds.iter().any(|a| a.0 == d) { self.out.v("C04", &format!("module {} was handed to the backend before its import {}", p, d)); }
            }
            if entry != l.expected_entries.contains(&p) { self.out.v("C04", &format!("module {} was handed over with entry-point flag {}", p, entry)); }
            l.adds.push((p.clone(), entry, sim::step()));
            l.mods.insert(p, Arc::clone(&m));
        }
        self.inner.add_module(m, entry);
    }
    fn execute_macro(&self, id: ast::NodeId<ast::Macro>, s: &ast::builtin::Syntax<ast::builtin::Sexp>) -> Result<ast::builtin::Syntax<ast::builtin::Sexp>, String> {
        let mut name = String::new();
        {
            let mut l = self.log.lock().unwrap();
            l.macros += 1;
            // whose code is this?
            if let Some(t) = l.table {
                let (p, _) = unsafe { &*t }.review(s.loc);
                let p = p.to_string();
                for d in l.deps.get(&p).cloned().unwrap_or_default() {
                    if !l.adds.iter().any(|a| a.0 == d) { self.out.v("C04", &format!("a macro call of module {} was made before its import {} was handed over", p, d)); }
                }
            }
            match l.mods.values().find(|m| m.id() == id.module()) {
                Some(m) => name = m.symbol_map().get(id).map(|s| s.name.clone()).unwrap_or_default(),
                None => self.out.v("C04", "a macro was called whose module has not been handed over"),
            }
        }
        let r = self.inner.execute_macro(id, s);
        let tag = if let Some(k) = name.strip_prefix("mac") { format!("T{}:add", k) } else if let Some(k) = name.strip_prefix("bad") { format!("T{}:err", k) } else if name == "fails" { "T999:fails".into() } else if name == "empty" { "T998:empty".into() } else { String::new() };
        if !tag.is_empty() {
            let e = irspy::expand(&tag, s.clone());
            if !irspy::agrees(&r, &e) { self.out.v("C06", &format!("macro {} applied to {} answered {} instead of {}", name, s, show(&r), show(&e))); }
        } else if let (Some(_), Ok(x)) = (name.strip_prefix("gs"), &r) {
            if let SexpRep::String(t) = &x.rep {
                self.out.line(&format!("G {}", t));
            } else { self.out.v("C06", &format!("macro {} answered {} instead of a fresh name", name, x)); }
        }
        r
    }
}
fn show(r: &Result<Sexp, String>) -> String { match r { Ok(s) => format!("{}", s), Err(e) => format!("error {:?}", e) } }

// ---------------------------------------------------------------- C02
fn linecol(t: &str, off: usize) -> (u32, u32) {
    let b = &t.as_bytes()[..off];
    let line = b.iter().filter(|c| **c == b'\n').count();
    let last = b.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    (line as u32, (off - last) as u32)
}
fn kids(s: &Sexp) -> Option<(Vec<&Sexp>, bool)> {
    match &s.rep {
        SexpRep::List(l) => Some((l.iter().collect(), false)),
        SexpRep::ListLike(l) => { let mut v = vec![&l.0]; v.extend(l.1.iter()); v.push(&l.2); Some((v, true)) }
        _ => None,
    }
}
fn check_node(s: &Sexp, n: &Node, path: &str, text: &str, tab: &SourceLocationTable, out: &Out, count: &mut u64) -> bool {
    *count += 1;
    if n.start != usize::MAX {
        let (p, r) = tab.review(s.loc);
        if p.to_string() != path { out.v("C02", &format!("a node written in {} is located in {}", path, p)); return false; }
        let got = (r.start.offset as usize, r.end.offset as usize);
        if got != (n.start, n.end) {
            out.v("C02", &format!("{}: node {} occupies bytes {}..{} but is located at {}..{}", path, text.get(n.start..n.end).unwrap_or("").chars().take(30).collect::<String>(), n.start, n.end, got.0, got.1));
            return false;
        }
        for (o, l) in [(n.start, r.start), (n.end, r.end)] {
            let (line, ch) = linecol(text, o);
            if (l.line, l.character) != (line, ch) { out.v("C02", &format!("{}: byte {} is at {}:{} but is reported as {}:{}", path, o, line, ch, l.line, l.character)); return false; }
        }
    }
    let same = match (&s.rep, &n.kind) {
        (SexpRep::Integer(sg, v), Kind::Int(a, b)) => sg == a && v == b,
        (SexpRep::Symbol(a), Kind::Sym(b)) => a == b,
        (SexpRep::String(a), Kind::Str(b)) => a == b,
        (SexpRep::Char(a), Kind::Char(b)) => a == b,
        (SexpRep::Bool(a), Kind::Bool(b)) => a == b,
        (SexpRep::FPNumber(_), Kind::Float) => true,
        (SexpRep::List(_), Kind::List) | (SexpRep::ListLike(_), Kind::List) => {
            let (k, d) = kids(s).unwrap();
            if k.len() != n.kids.len() || d != n.dotted { false } else { return k.iter().zip(&n.kids).all(|(a, b)| check_node(a, b, path, text, tab, out, count)); }
        }
        _ => false,
    };
    if !same { out.v("C02", &format!("{}: the node at bytes {}..{} reads {} but the text there is {:?}", path, n.start, n.end, s, text.get(n.start..n.end).unwrap_or(""))); }
    same
}
/// apply ($when ($feature "fx") form…) of the generated texts
fn preprocess(v: Vec<Node>, fx: bool) -> Vec<Node> {
    let mut o = vec![];
    for n in v {
        let when = n.kids.first().map_or(false, |k| k.kind == Kind::Sym("$when".into()));
        if when {
            let on = match &n.kids[1].kids.get(1).map(|k| k.kind.clone()) { Some(Kind::Str(f)) => f == "other" || (f == "fx" && fx), _ => false };
            if on { o.extend(n.kids.into_iter().skip(2)); }
        } else { o.push(n); }
    }
    o
}

// ---------------------------------------------------------------- the run
pub extern "C" fn stuck(why: i32) {
    if let Some(o) = unsafe { OUT } { o.line(if why == 1 { "STUCK deadlock: every thread waits forever" } else { "STUCK step bound reached without finishing" }); dump(o); }
}
pub static mut OUT: Option<Out> = None;
pub fn dump(o: Out) {
    for d in sim::decisions() { o.line(&format!("d {} {} {} {}", d.tid, d.kind, d.n, d.v)); }
}
fn stats(o: Out, s: &Stats) {
    o.line(&format!("S {} {} {} {} {} {} {} {} {:x} {} {} {} {} {} {} {}", s.points, s.switches, s.preempt, s.waits, s.wakes, s.spur, s.jumps, s.ns, s.hash, s.threads, s.ndec, s.faults, s.fc.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), s.gc_allocs, s.gc_runs, s.gc_freed));
}
fn err_class(e: &SourceError) -> String {
    match e {
        SourceError::PackageNotFound => "package-not-found".into(), SourceError::ModuleNotFound => "module-not-found".into(),
        SourceError::LoadFailed(m) => format!("load-failed {}", m), SourceError::ParseFailed(_) => "parse".into(), SourceError::PreprocessFailed(_) => "preprocess".into(),
        SourceError::InvalidImportPath(..) => "bad-path".into(), SourceError::CannotImportModuleItself => "self-import".into(),
    }
}

pub fn run(case: &Case, w: &World, out: Out) {
    let prop = case.prop.as_str();
    let (loader, lay, files) = setup(w);
    let mut table = SourceLocationTable::new();
    let mut rep = Report::new();
    let roots: Vec<Path> = w.entries.iter().map(|&i| w.mods[i].path().parse().unwrap()).collect();
    let mut pp = Preprocessor::new();
    if w.feature { pp.enable_feature("fx"); }
    pp.enable_feature("other");
    let bindings: Vec<(BTreeSet<String>, ())> = vec![];
    drop(bindings);

    let dec = &case.dec;
    unsafe { sim::sim_begin(&case.cfg, dec.as_ptr(), dec.len(), stuck) };
    let sources = collect_sources(roots.iter(), &loader, &mut table, &pp, &mut rep);
    let opens = sim::opens();
    // the sources collected
    let mut got: BTreeMap<String, (Vec<String>, Vec<String>)> = BTreeMap::new();
    let mut dup = vec![];
    for s in sources.sources() {
        let d: Vec<String> = s.dependencies.values().map(|p| p.to_string()).collect();
        if got.insert(s.path.to_string(), (s.errors.iter().map(err_class).collect(), d)).is_some() { dup.push(s.path.to_string()); }
    }
    let mut digest: Vec<String> = vec![];
    let mut finish = |out: Out, digest: &mut Vec<String>| {
        let mut st = Stats::default();
        unsafe { sim::sim_end(&mut st) };
        stats(out, &st);
        digest.sort();
        for d in digest.iter() { out.line(&format!("D {}", d)); }
    };

    if prop == "C01" {
        let hard: BTreeMap<u32, i32> = opens.iter().filter(|o| o.hard != 0 && o.file != u32::MAX).map(|o| (o.file, o.hard)).collect();
        check_c01(w, &got, &dup, &files, &opens, &hard, out);
        finish(out, &mut digest);
        return;
    }
    if prop == "C02" {
        let mut count = 0;
        for s in sources.sources() {
            let path = s.path.to_string();
            let text = match lay.text.get(&path) { Some(t) => t, None => continue };
            for e in &s.errors {
                match e {
                    SourceError::ParseFailed(pe) => {
                        let r = pe.unexpected.range;
                        for l in [r.start, r.end] {
                            if l.offset as usize > text.len() || (l.line, l.character) != linecol(text, l.offset as usize) { out.v("C02", &format!("{}: a syntax error is reported at {:?}, which is no position of the text", path, l)); }
                        }
                        // the only syntax error of these texts is an unclosed bracket: found at the end of the last token
                        if matches!(pe.unexpected.rep, llrl::token::TokenRep::Eof) && r.start.offset as usize != text.trim_end().len() && !text.contains(';') { out.v("C02", &format!("{}: the unclosed bracket is reported at byte {} of {}", path, r.start.offset, text.trim_end().len())); }
                    }
                    SourceError::PreprocessFailed(_) => {
                        let d = format!("{}", e.fmt_on(&table));
                        if let Some(at) = text.find("$undefined-meta") { need_pos(&d, &path, text, at, at + "$undefined-meta".len(), out); }
                    }
                    _ => {}
                }
            }
            if !s.errors.is_empty() { continue; }
            if let SourceRep::Code(ss) = &s.rep {
                let (nodes, st, en) = match Reader::new(text).file() { Some(x) => x, None => { out.line(&format!("H the reference reader cannot read {}", path)); continue } };
                let (p, r) = table.review(ss.loc);
                if p.to_string() != path || (r.start.offset as usize, r.end.offset as usize) != (st, en) {
                    out.v("C02", &format!("the code of {} spans bytes {}..{} but is located in {} at {}..{}", path, st, en, p, r.start.offset, r.end.offset));
                }
                let nodes = if lay.idx.contains_key(&path) { preprocess(nodes, w.feature) } else { nodes };
                if path.starts_with(B) || nodes.len() != ss.ss.len() {
                    if !path.starts_with(B) { out.v("C02", &format!("{} has {} top-level forms, {} were read", path, nodes.len(), ss.ss.len())); }
                    continue;
                }
                for (a, b) in ss.ss.iter().zip(&nodes) { if !check_node(a, b, &path, text, &table, &out, &mut count) { break; } }
            }
        }
        out.line(&format!("N nodes {}", count));
    }

    // ---- order
    let errors: Vec<(String, String)> = sources.errors().map(|(p, e)| (p.to_string(), format!("{}", e.fmt_on(&table)))).collect();
    let graph: BTreeMap<String, BTreeSet<String>> = sources.sources().map(|s| (s.path.to_string(), s.dependencies.values().map(|p| p.to_string()).collect())).collect();
    if !errors.is_empty() {
        for (p, e) in &errors { digest.push(format!("source {} {}", p, e)); }
        finish(out, &mut digest);
        return;
    }
    let order = sources.resolve_dependencies_order();
    check_c03(&graph, &order, out, w);
    let order = match order { Ok(o) => o, Err(ps) => { digest.push(format!("cycle {}", ps.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" "))); finish(out, &mut digest); return } };
    if prop == "C03" { digest.push(format!("order {}", order.iter().map(|s| s.path.to_string()).collect::<Vec<_>>().join(" "))); finish(out, &mut digest); return; }

    // ---- build
    let ir: irspy::Log = Arc::new(Mutex::new(IrLog::default()));
    let log = Mutex::new(ModLog { deps: graph.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect(), table: Some(&table as *const _),
        expected_entries: w.mains.iter().map(|&i| w.mods[i].path()).collect(), ..Default::default() });
    let mains: HashSet<Path> = w.mains.iter().map(|&i| w.mods[i].path().parse().unwrap()).collect();
    let all: BTreeSet<String> = order.iter().map(|s| s.path.to_string()).collect();
    let order_n = order.len();
    let opts = BackendOptions::default().optimize(w.seed % 4 == 1);
    let run_it = prop == "C09" || prop == "G02";
    let mut ran = None;
    fn main_of<X: NativeBackend>(x: &mut X) -> Result<bool, String> { x.execute_main() }
    let (ok, err) = match case.backend.as_str() {
        "chibi" => build(order, mains, Spy { real: Some(llrl::backend::chibi::Backend::from(opts)), log: Arc::clone(&ir), out }, &log, out, w, &mut rep, |b| if run_it { ran = b.map(main_of) }),
        "llvm" => build(order, mains, Spy { real: Some(llrl::backend::llvm::Backend::from(opts)), log: Arc::clone(&ir), out }, &log, out, w, &mut rep, |b| if run_it { ran = b.map(main_of) }),
        _ => build(order, mains, Spy::<()> { real: None, log: Arc::clone(&ir), out }, &log, out, w, &mut rep, |_| {}),
    };
    // the program's own behaviour
    if let Some(r) = ran {
        let ir = ir.lock().unwrap();
        let mut want = String::new();
        for (_, c) in &ir.mains {
            if let Some(mk) = c.iter().find(|v| **v < 2_000_000) {
                let (i, n) = (((mk - 1_000_000) / 1000) as usize, ((mk - 1_000_000) % 1000) as usize);
                if let Some(v) = w.mods.get(i).and_then(|_| w.prints(i).get(n).copied()) { want += &format!("{}\n", v); }
            }
        }
        let mut n = 0;
        let got = unsafe { let p = sim::sim_output(&mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() };
        match r { Err(e) => out.v(prop, &format!("the compiled program could not be run: {}", e)), Ok(_) => {} }
        if got != want {
            let k = got.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(got.lines().count().min(want.lines().count()));
            out.v(prop, &format!("the program printed {:?} as its line {} where its text says {:?} ({} of {} lines, {} back end)", got.lines().nth(k).unwrap_or("(nothing)"), k + 1, want.lines().nth(k).unwrap_or("(nothing)"), got.lines().count(), want.lines().count(), case.backend));
        }
        out.line(&format!("N printed {}", want.lines().count()));
        out.line("N ran 1");
    }
    if unsafe { sim::sim_gc_threads() } > 1 { out.v(prop, "memory of the collector was allocated on a thread the collector does not know"); }
    let log = log.into_inner().unwrap();
    let ir = ir.lock().unwrap();
    out.line(&format!("N macros {}", log.macros));

    // C04: accounts
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    for m in &ok { *seen.entry(m.path().to_string()).or_default() += 1; }
    for (s, _) in &err { *seen.entry(s.path.to_string()).or_default() += 1; }
    for p in &all { if seen.get(p) != Some(&1) { out.v("C04", &format!("source {} is accounted for {} times in the result", p, seen.get(p).unwrap_or(&0))); } }
    if seen.len() != order_n { out.v("C04", &format!("the result has {} modules for {} sources", seen.len(), order_n)); }
    let okset: BTreeSet<String> = ok.iter().map(|m| m.path().to_string()).collect();
    let added: BTreeSet<String> = log.adds.iter().map(|a| a.0.clone()).collect();
    for p in okset.difference(&added) { out.v("C04", &format!("module {} was built but never handed to the backend", p)); }
    for p in added.difference(&okset) { out.v("C04", &format!("module {} failed but was handed to the backend", p)); }

    // C05: who fails, and how
    let own: BTreeSet<String> = w.mods.iter().filter(|m| w.alive(m.idx) && m.build_fault != BuildFault::None).map(|m| m.path()).collect();
    let mut dependent: BTreeSet<String> = BTreeSet::new();
    loop {
        let n = dependent.len();
        for (p, d) in &graph { if d.iter().any(|x| own.contains(x) || dependent.contains(x)) { dependent.insert(p.clone()); } }
        if n == dependent.len() { break; }
    }
    out.line(&format!("N failed {}", err.len()));
    for (s, e) in &err {
        let p = s.path.to_string();
        let text = format!("{}", e.fmt_on(&table));
        let blocked = matches!(e, ModuleError::DependentModuleBuildFailed);
        if dependent.contains(&p) { if !blocked { out.v("C05", &format!("module {} imports a failed module but is reported with its own failure: {}", p, text)); } }
        else if own.contains(&p) { if blocked { out.v("C05", &format!("module {} is faulty itself but is reported as blocked by a dependency", p)); } }
        else { out.v("C05", &format!("module {} is not faulty and imports no faulty module, but it failed: {}", p, text)); }
        let bf = lay.idx.get(&p).map_or(BuildFault::None, |&i| w.mods[i].build_fault);
        digest.push(format!("error {} [{:?}] {}", p, bf, text));
        if let (Some(&i), false) = (lay.idx.get(&p), blocked) {
            let acc = w.accepts(i);
            let src = &lay.text[&p];
            let lines = w.mods[i].noise == 0;
            if !acc.is_empty() && !acc.iter().any(|(region, msg)| text.contains(msg.as_str()) && (!lines || region.is_empty() || located(&text, &p, src, region))) {
                out.v("C05", &format!("module {} has the fault {:?} but failed with {:?}", p, bf, text));
            }
            if let Some((needle, msg)) = w.text(i).1 {
                if let Some(at) = lay.text[&p].find(&needle) { if w.mods[i].noise == 0 { need_pos(&text, &p, &lay.text[&p], at, at + needle.len(), out); } }
                if !text.contains(&msg) { out.v("C05", &format!("module {} failed with {:?} where {:?} was to be reported", p, text, msg)); }
            }
        }
    }
    for p in own.iter().chain(dependent.iter()) { if all.contains(p) && okset.contains(p) { out.v("C05", &format!("module {} was built although {}", p, if own.contains(p) && !dependent.contains(p) { "its own text is faulty" } else { "a module it imports failed" })); } }
    for p in &okset { digest.push(format!("built {}", p)); }

    // C02 for the constructs of built modules
    if prop == "C02" {
        let mut n = 0;
        for m in &ok {
            let p = m.path().to_string();
            if let Some(&i) = lay.idx.get(&p) {
                for name in [format!("f{}*", i), format!("add{}", i), format!("hlp{}", i), format!("D{}", i), format!("K{}", i), format!("mac{}", i), format!("sw{}", i), format!("k{}", i)] {
                    for c in m.symbol_map().find_occurences::<ast::Construct>(&name) {
                        if let Some(s) = m.symbol_map().get(c) {
                            let (q, r) = table.review(s.loc);
                            let t = &lay.text[&p];
                            n += 1;
                            if q.to_string() != p { out.v("C02", &format!("{} of {} is located in {}", name, p, q)); }
                            else if (r.end.offset as usize) > t.len() || !t.is_char_boundary(r.start.offset as usize) || !t.is_char_boundary(r.end.offset as usize) || !t[r.start.offset as usize..r.end.offset as usize].contains(&name) {
                                out.v("C02", &format!("{} of {} is located at bytes {}..{}, where it is not", name, p, r.start.offset, r.end.offset));
                            }
                        }
                    }
                }
            }
        }
        out.line(&format!("N symbols {}", n));
    }

    // C07/C06: initialisation
    let built = |i: usize| okset.contains(&w.mods[i].path());
    let mut pos: BTreeMap<usize, (usize, usize)> = BTreeMap::new(); // module -> first, last position
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    for (k, (init, c)) in ir.mains.iter().enumerate() {
        let mk = match c.iter().find(|v| **v < 2_000_000) { Some(m) => *m, None => { out.v("C07", &format!("an unknown initialisation statement was delivered: {}", init.expr)); continue } };
        let (i, n) = (((mk - 1_000_000) / 1000) as usize, ((mk - 1_000_000) % 1000) as usize);
        let e = count.entry(i).or_default();
        if n != *e { out.v("C07", &format!("statement {} of module {} was delivered as the {}th of that module", n, w.mods.get(i).map_or("?".into(), |m| m.path()), e)); }
        *e += 1;
        let p = pos.entry(i).or_insert((k, k));
        p.1 = k;
        if let Some(want) = w.consts(i).get(n) {
            if want != c { out.v("C06", &format!("statement {} of module {} was built from constants {:?}, its text and macros give {:?}", n, w.mods[i].path(), c, want)); }
        }
    }
    let reach = w.closure(&w.mains.iter().copied().filter(|&i| built(i)).collect::<Vec<_>>());
    for &i in &reach {
        let want = w.mods[i].stmts.len();
        if count.get(&i).copied().unwrap_or(0) != want { out.v("C07", &format!("{} of the {} statements of module {} were delivered", count.get(&i).unwrap_or(&0), want, w.mods[i].path())); }
        for j in w.closure(&w.deps(i)) {
            if j == i { continue; }
            if let (Some(a), Some(b)) = (pos.get(&i), pos.get(&j)) { if b.1 > a.0 { out.v("C07", &format!("a statement of {} ran before its import {} was initialised", w.mods[i].path(), w.mods[j].path())); } }
        }
    }
    for i in count.keys() { if !reach.contains(i) { out.v("C07", &format!("statements of module {} were delivered although no entry point reaches it", w.mods.get(*i).map_or("?".into(), |m| m.path()))); } }
    out.line(&format!("N inits {}", ir.mains.len()));
    out.line(&format!("N defs {}", ir.defs.len()));
    if prop == "C08" && case.backend == "stub" { for l in irspy::canonical(&ir) { digest.push(format!("def {}", l)); } }
    finish(out, &mut digest);
}

fn build<X: llrl::lowering::Backend>(order: Vec<Source>, mains: HashSet<Path>, spy: Spy<X>, log: &Mutex<ModLog>, out: Out, w: &World, rep: &mut Report, then: impl FnOnce(Option<&mut X>)) -> (Vec<Arc<Module>>, Vec<(Source, ModuleError)>) {
    let low = Lowerizer::new(spy);
    let r = { let ms = ModSpy { inner: &low, log, out, w }; build_modules(order, mains, &ms, rep) };
    let mut b = low.complete(rep);
    if r.1.is_empty() { then(b.real.as_mut()); }
    llrl::lowering::Backend::complete(b, rep);
    r
}

/// does the diagnostic's leading position lie within one of the places where this text stands?
fn located(diag: &str, path: &str, src: &str, region: &str) -> bool {
    let rest = match diag.strip_prefix(&format!("{}:", path)) { Some(r) => r, None => return false };
    let n: Vec<u32> = rest.split(|c: char| !c.is_ascii_digit()).take(4).filter_map(|x| x.parse().ok()).collect();
    if n.len() < 4 { return false; }
    let (a, b) = ((n[0] - 1, n[1] - 1), (n[2] - 1, n[3] - 1));
    src.match_indices(region).any(|(at, _)| linecol(src, at) <= a && b <= linecol(src, at + region.len()))
}

fn need_pos(diag: &str, path: &str, text: &str, a: usize, b: usize, out: Out) {
    let ((l1, c1), (l2, c2)) = (linecol(text, a), linecol(text, b));
    let want = format!("{}:{}-{}:{}", l1 + 1, c1 + 1, l2 + 1, c2 + 1);
    if !diag.contains(&want) { out.v("C02", &format!("{}: the fault is at {} but the diagnostic reads {:?}", path, want, diag)); }
    if !diag.contains(&format!("{}:{}", path, want)) { out.v("C02", &format!("the fault is in {} at {} but the diagnostic reads {:?}", path, want, diag)); }
}

fn check_c01(w: &World, got: &BTreeMap<String, (Vec<String>, Vec<String>)>, dup: &[String], files: &BTreeMap<String, u32>, opens: &[sim::OpenLog], hard: &BTreeMap<u32, i32>, out: Out) {
    for p in dup { out.v("C01", &format!("{} is collected twice", p)); }
    let mut expect: BTreeMap<String, Option<Vec<String>>> = BTreeMap::new(); // exact errors if known
    let mut free: BTreeSet<String> = BTreeSet::new();
    let mut q: Vec<String> = w.entries.iter().map(|&i| w.mods[i].path()).collect();
    let idx: HashMap<String, usize> = w.mods.iter().filter(|m| w.alive(m.idx)).map(|m| (m.path(), m.idx)).collect();
    let mut deps_of: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    while let Some(p) = q.pop() {
        if expect.contains_key(&p) { continue; }
        let mut e: Vec<String> = vec![];
        let mut d: BTreeSet<String> = BTreeSet::new();
        let mut exact = true;
        let mut any = false;
        if let Some(f) = files.get(&p) { if let Some(h) = hard.get(f) { e.push(format!("load-failed {}", std::io::Error::from_raw_os_error(*h))); } }
        if e.is_empty() {
            if p == B { }
            else if let Some(name) = p.strip_prefix("std/").or(if p == "std" { Some("prelude") } else { None }) {
                if World::std_modules().contains_key(name) {
                    d.insert(B.into());
                    for x in World::std_deps(name) { d.insert(format!("std/{}", x)); }
                } else { e.push("module-not-found".into()); }
            } else if let Some(&i) = idx.get(&p) {
                let m = &w.mods[i];
                if utf8_faulty(w, i) { e.push("load-failed stream did not contain valid UTF-8".into()); }
                else {
                    d.insert(B.into());
                    for x in w.std_uses(i) { d.insert(if x == "prelude" { "std".into() } else { format!("std/{}", x) }); }
                    for j in w.deps(i) { d.insert(w.mods[j].path()); }
                    match m.src_fault {
                        SrcFault::None => {}
                        SrcFault::Utf8 => { exact = false; any = true; } // in memory: a replacement character somewhere, perhaps in a comment
                        SrcFault::Parse => { e.push("parse".into()); exact = false; }
                        SrcFault::Meta => { e.push("preprocess".into()); exact = false; }
                        SrcFault::SelfImport => e.push("self-import".into()),
                        SrcFault::BadPath => e.push("bad-path".into()),
                        SrcFault::MissingMod => { d.insert(format!("{}/{}", crate::world::PKGS[m.pkg], crate::world::missing(i))); }
                        SrcFault::MissingPkg => { d.insert(format!("nopkg{}/x", i % 2)); }
                    }
                }
            } else if p.starts_with("nopkg") { e.push("package-not-found".into()); }
            else if p.starts_with("~") || p.starts_with("p1") || p.starts_with("p2") {
                // a package no module of which exists in memory is not registered at all
                let pk = p.split('/').next().unwrap();
                let pi = crate::world::PKGS.iter().position(|x| *x == pk).unwrap();
                let registered = has_fs(w, pi) || w.mods.iter().any(|m| w.alive(m.idx) && m.pkg == pi);
                e.push(if registered { "module-not-found" } else { "package-not-found" }.into());
            } else { out.line(&format!("H unexpected path {}", p)); }
        }
        if !exact {
            // malformed text: whatever could still be read from it decides its imports
            d = got.get(&p).map(|g| g.1.iter().cloned().collect()).unwrap_or_default();
        }
        q.extend(d.iter().cloned());
        deps_of.insert(p.clone(), d);
        if any { free.insert(p.clone()); }
        expect.insert(p, if exact || !e.is_empty() { Some(e) } else { None });
    }
    for (p, e) in &expect {
        match got.get(p) {
            None => out.v("C01", &format!("{} is reachable through imports but no source was collected for it", p)),
            Some((errs, deps)) => {
                match e {
                    Some(e) => {
                        let multi = e.len() == 1 && e[0] == "parse";
                        let fits = if multi { !errs.is_empty() && errs.iter().all(|x| x == "parse") } else { errs == e };
                        if !fits { out.v("C01", &format!("{} is recorded with errors {:?} instead of {:?}", p, errs, e)); }
                    }
                    None => if errs.is_empty() && !free.contains(p) { out.v("C01", &format!("{} is malformed but no error was recorded", p)); },
                }
                let a: BTreeSet<String> = deps.iter().cloned().collect();
                if a != deps_of[p] { out.v("C01", &format!("{} imports {:?} but {:?} were recorded", p, deps_of[p], a)); }
            }
        }
    }
    for p in got.keys() { if !expect.contains_key(p) { out.v("C01", &format!("{} was collected although nothing reachable imports it", p)); } }
    // every file is read exactly once
    let mut n: BTreeMap<u32, u32> = BTreeMap::new();
    for o in opens { if o.file != u32::MAX { *n.entry(o.file).or_default() += 1; } }
    for (p, f) in files {
        let k = n.get(f).copied().unwrap_or(0);
        let want = if expect.contains_key(p) { 1 } else { 0 };
        if k != want { out.v("C01", &format!("the file of {} was opened {} times, {} expected", p, k, want)); }
    }
    out.line(&format!("N sources {}", got.len()));
}

fn check_c03(g: &BTreeMap<String, BTreeSet<String>>, order: &Result<Vec<Source>, Vec<Path>>, out: Out, _w: &World) {
    let nodes: Vec<&String> = g.keys().collect();
    let reach = |a: &String| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        let mut q: Vec<&String> = g[a].iter().collect();
        while let Some(x) = q.pop() { if s.insert(x.clone()) { if let Some(d) = g.get(x) { q.extend(d.iter()); } } }
        s
    };
    let r: BTreeMap<&String, BTreeSet<String>> = nodes.iter().map(|n| (*n, reach(n))).collect();
    let cyclic = nodes.iter().any(|n| r[n].contains(*n));
    match order {
        Ok(o) => {
            if cyclic { out.v("C03", "modules that import each other in a cycle were put into an order"); }
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for s in o {
                let p = s.path.to_string();
                for d in &g[&p] { if !seen.contains(d) { out.v("C03", &format!("{} comes before its import {}", p, d)); } }
                if !seen.insert(p.clone()) { out.v("C03", &format!("{} is listed twice", p)); }
            }
            if seen.len() != g.len() { out.v("C03", &format!("{} of {} sources are listed", seen.len(), g.len())); }
            out.line("N acyclic 1");
        }
        Err(ps) => {
            let v: BTreeSet<String> = ps.iter().map(|p| p.to_string()).collect();
            if !cyclic { out.v("C03", &format!("no modules import each other in a cycle, but {:?} are reported", v)); return; }
            if v.len() != ps.len() { out.v("C03", &format!("a module is reported twice: {:?}", ps)); }
            for a in &v {
                match r.get(a) {
                    None => out.v("C03", &format!("{} is reported but is no source", a)),
                    Some(ra) => {
                        // exactly the modules that both import a and are imported by a
                        let scc: BTreeSet<String> = ra.iter().filter(|b| r[b].contains(a)).cloned().collect();
                        if scc != v { out.v("C03", &format!("the modules importing each other with {} are {:?}, reported are {:?}", a, scc, v)); break; }
                    }
                }
            }
            out.line("N cyclic 1");
        }
    }
}
