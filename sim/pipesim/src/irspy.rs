//! The lowering back end seen by the pipeline: records and checks every delivery,
//! then hands it to a real back end or computes macro answers itself.
use crate::out::Out;
use llrl::lowering::ir::{self, traverser::{traverse, Traverser}, *};
use llrl::lowering::Backend;
use llrl::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct IrLog {
    pub defs: BTreeMap<CtId, (Arc<Def>, BTreeSet<CtId>)>,
    pub complete: BTreeSet<CtId>, // closure known delivered
    pub mains: Vec<(Init, Vec<u64>)>,
    pub main_text: Vec<String>,
    pub macros: u64,
    pub gensyms: Vec<String>,
    pub gen: u64,
    pub put_after_main: u64,
}
pub type Log = Arc<Mutex<IrLog>>;

pub struct Spy<B> { pub real: Option<B>, pub log: Log, pub out: Out }

struct Refs { ids: BTreeSet<CtId>, erased: Option<&'static str>, consts: Vec<u64>, tags: Vec<String> }
impl Traverser for Refs {
    type Error = ();
    fn before_ct(&mut self, ct: &Ct) -> Result<bool, ()> {
        match ct {
            Ct::Id(id) => { self.ids.insert(*id); }
            Ct::GenericInst(_) => self.erased = Some("generic instance"),
            Ct::TableGet(_) => self.erased = Some("table lookup"),
            _ => {}
        }
        Ok(true)
    }
    fn before_rt(&mut self, rt: &Rt) -> Result<bool, ()> {
        match rt {
            Rt::LocalFun(_) | Rt::LetLocalFun(_) => self.erased = Some("local function"),
            Rt::ConstructData(_) => self.erased = Some("data construction"),
            Rt::And(_) | Rt::Or(_) | Rt::Match(_) => self.erased = Some("structured branch"),
            Rt::Const(Const::Integer(_, _, v)) if *v >= 1_000_000 && *v < 1 << 40 => self.consts.push(*v),
            Rt::Const(Const::String(s)) => self.tags.push(s.clone()),
            _ => {}
        }
        Ok(true)
    }
}
fn refs(x: &impl ir::traverser::Traverse) -> Refs {
    let mut r = Refs { ids: BTreeSet::new(), erased: None, consts: vec![], tags: vec![] };
    let _ = traverse(x, &mut r);
    r
}

impl IrLog {
    fn check_closure(&mut self, roots: &BTreeSet<CtId>, what: &str, out: &Out) {
        let mut q: Vec<CtId> = roots.iter().copied().collect();
        let mut seen: BTreeSet<CtId> = BTreeSet::new();
        while let Some(i) = q.pop() {
            if self.complete.contains(&i) || !seen.insert(i) { continue; }
            match self.defs.get(&i) {
                Some((_, r)) => q.extend(r.iter().copied()),
                None => { out.v("C08", &format!("{} reaches definition {} which has not been delivered", what, i)); return; }
            }
        }
        self.complete.extend(seen);
    }
}

impl<B: Backend> Backend for Spy<B> {
    fn put_def(&mut self, id: CtId, def: Arc<Def>) {
        {
            let mut l = self.log.lock().unwrap();
            let r = refs(&*def);
            if let Some(e) = r.erased { self.out.v("C08", &format!("definition {} was delivered with an unlowered construct: {}", id, e)); }
            if matches!(*def, Def::Alias(_) | Def::AliasTable(_) | Def::Generic(..) | Def::Data(_)) {
                self.out.v("C08", &format!("definition {} was delivered before being lowered: {}", id, def));
            }
            if l.defs.contains_key(&id) { self.out.v("C08", &format!("definition {} was delivered twice", id)); }
            l.defs.insert(id, (Arc::clone(&def), r.ids));
        }
        if let Some(b) = self.real.as_mut() { b.put_def(id, def); }
    }
    fn put_main(&mut self, init: Init) {
        {
            let mut l = self.log.lock().unwrap();
            let r = refs(&init.expr);
            let mut ids = r.ids;
            ids.extend(refs(&init.ty).ids);
            if let Some(e) = r.erased { self.out.v("C08", &format!("an initialisation statement was delivered with an unlowered construct: {}", e)); }
            l.check_closure(&ids, "an initialisation statement", &self.out);
            let mut c = r.consts;
            c.sort();
            l.main_text.push(format!("{:?}", init.expr));
            l.mains.push((init.clone(), c));
        }
        if let Some(b) = self.real.as_mut() { b.put_main(init); }
    }
    fn execute_macro(&mut self, id: CtId, s: Syntax<Sexp>) -> Result<Syntax<Sexp>, String> {
        let tag;
        {
            let mut l = self.log.lock().unwrap();
            l.macros += 1;
            let mut set = BTreeSet::new();
            set.insert(id);
            l.check_closure(&set, "a macro", &self.out);
            tag = match l.defs.get(&id).map(|d| &*d.0) {
                Some(Def::Function(f)) => {
                    if f.kind != FunctionKind::Macro { self.out.v("C08", &format!("macro call on definition {} which is not a macro", id)); }
                    refs(&f.body).tags.into_iter().find(|t| t.starts_with('T') && t.contains(':')).unwrap_or_default()
                }
                _ => String::new(),
            };
            if self.real.is_none() && tag.ends_with(":gen") {
                l.gen += 1;
                let loc = s.loc;
                return Ok(llrl::sexp::Sexp::string(loc, format!("#:G{}", l.gen)));
            }
        }
        match self.real.as_mut() {
            Some(b) => b.execute_macro(id, s),
            None => expand(&tag, s),
        }
    }
    fn complete(self, report: &mut Report) { if let Some(b) = self.real { b.complete(report); } }
}

/// What the generated macros compute (the reference for the real back ends).
pub fn expand(tag: &str, s: Syntax<Sexp>) -> Result<Syntax<Sexp>, String> {
    use llrl::sexp::{Sexp as S, SexpRep};
    let (k, op) = match tag.strip_prefix('T').and_then(|t| t.split_once(':')) { Some((k, op)) => (k.parse::<usize>().unwrap_or(0), op), None => return Err(format!("untagged macro {:?}", tag)) };
    let loc = s.loc;
    match op {
        "add" => match s.rep {
            SexpRep::List(ref l) if l.len() == 2 => Ok(S::list(loc, vec![S::symbol(loc, "+"), l[1].clone(), S::unsigned(loc, crate::world::mac_k(k))])),
            _ => Err(format!("Expected (mac{} x)", k)),
        },
        "err" => Err(format!("macro bad{} says no", k)),
        "fails" => Err("always fails".into()),
        "empty" => Ok(S::nil(loc)),
        _ => Err("?".into()),
    }
}

/// what a macro gave against what it should: the argument it passes on must be the very
/// argument (positions included); positions of what it makes itself are its own affair
pub fn agrees(got: &Result<Syntax<Sexp>, String>, want: &Result<Syntax<Sexp>, String>) -> bool {
    use llrl::sexp::SexpRep;
    match (got, want) {
        (Ok(a), Ok(b)) => match (&a.rep, &b.rep) {
            (SexpRep::List(x), SexpRep::List(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().all(|(k, (p, q))| if k == 1 { p == q } else { p.rep == q.rep }),
            (p, q) => p == q,
        },
        (a, b) => a == b,
    }
}

/// A description of everything delivered that does not depend on numbering, delivery
/// order or which schedule produced it: definitions coloured by their structure.
pub fn canonical(l: &IrLog) -> Vec<String> {
    let ids: Vec<CtId> = l.defs.keys().copied().collect();
    let text: HashMap<CtId, String> = ids.iter().map(|i| (*i, format!("{:?}", l.defs[i].0))).collect();
    let mut col: HashMap<u64, u64> = ids.iter().map(|i| (i.index() as u64, 1)).collect();
    for _ in 0..6 {
        let mut next = HashMap::new();
        for i in &ids { next.insert(i.index() as u64, hash(&rename(&text[i], &col))); }
        let distinct = |m: &HashMap<u64, u64>| m.values().collect::<BTreeSet<_>>().len();
        let stop = distinct(&next) == distinct(&col);
        col = next;
        if stop { break; }
    }
    let mut v: Vec<String> = ids.iter().map(|i| format!("{:016x} {}", col[&(i.index() as u64)], kind(&l.defs[i].0))).collect();
    for m in &l.main_text { v.push(format!("{:016x} init", hash(&rename(m, &col)))); }
    v.sort();
    v
}
fn kind(d: &Def) -> &'static str { match d { Def::Struct(_) => "struct", Def::Union(_) => "union", Def::Function(_) => "function", _ => "other" } }
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}
/// CtId(n) -> colour, RtId(n) -> order of first occurrence, SourceLocation {..} and NodeId dropped
pub fn rename(t: &str, col: &HashMap<u64, u64>) -> String {
    let mut o = String::with_capacity(t.len());
    let mut local: HashMap<u64, usize> = HashMap::new();
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let rest = &t[i..];
        if rest.starts_with("CtId(") || rest.starts_with("RtId(") {
            let ct = b[i] == b'C';
            let e = rest.find(')').unwrap();
            let n: u64 = rest[5..e].parse().unwrap_or(0);
            if ct { o.push_str(&format!("C{:x}", col.get(&n).copied().unwrap_or(0))); }
            else { let k = local.len(); o.push_str(&format!("R{}", local.entry(n).or_insert(k))); }
            i += e + 1;
        } else if rest.starts_with("#:G") {
            // a generated name: its number is the order of generation
            o.push_str("#:G");
            i += 3;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
        } else if rest.starts_with("SourceLocation {") {
            let mut depth = 0;
            let mut e = i;
            for (j, c) in rest.char_indices() { if c == '{' { depth += 1 } else if c == '}' { depth -= 1; if depth == 0 { e = i + j + 1; break; } } }
            o.push('L');
            i = e.max(i + 1);
        } else {
            let c = rest.chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    o
}
