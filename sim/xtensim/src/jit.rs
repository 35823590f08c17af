//! J01: the real JIT engine over a simulated memory system, against a model of what each symbol is.
use crate::gen::{self, Body, Datum, How, Plan, Ref, What};
use crate::sys::{self, Rng};
use crate::{fnv, Case, Outcome};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use xten::asm::{Binding, LocationSection as Sec, Object, RelocTarget, RelocType};
use xten::jit::{mmap::Error as MmapError, Engine, Error};

enum Ent {
    Ext(u64),
    Fun(Body, Vec<u64>),
    Val(u64),
}

struct Image {
    what: String,
    at: u64,
    bytes: Vec<u8>,
}

struct Model {
    syms: BTreeMap<String, u64>,
    resolver: Rc<RefCell<BTreeMap<String, u64>>>,
    ents: BTreeMap<u64, Ent>,
    funs: Vec<u64>,
    images: Vec<Image>,
    checked: u64,
    calls: u64,
}

type R<T> = Result<T, String>;

fn sec_i(s: Sec) -> usize {
    match s { Sec::Text => 0, Sec::Data => 1, Sec::Rodata => 2, Sec::Bss => 3 }
}
const SEC: [&str; 4] = ["text", "data", "rodata", "bss"];

fn peek(a: u64, n: usize) -> Option<Vec<u8>> {
    // only memory the simulation handed out is read
    let s = sys::sim();
    let (b, m) = s.find(a as usize)?;
    if a as usize + n > b + m.len || m.prot & libc::PROT_READ == 0 {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(a as *const u8, n) }.to_vec())
}

impl Model {
    fn eval(&mut self, a: u64) -> R<u64> {
        let (body, t) = match self.ents.get(&a) {
            Some(Ent::Ext(v)) => return Ok(*v),
            Some(Ent::Fun(b, t)) => (b.clone(), t.clone()),
            _ => return Err(format!("HARNESS no function at {:#x}", a)),
        };
        let val = |m: &Model, a: u64| match m.ents.get(&a) {
            Some(Ent::Val(v)) => Ok(*v),
            _ => Err(format!("HARNESS no datum at {:#x}", a)),
        };
        match body {
            Body::Const(v) => Ok(v),
            Body::Call(_, _, c) => Ok(self.eval(t[0])?.wrapping_add(c as i64 as u64)),
            Body::Tail(..) | Body::Jump8(_) => self.eval(t[0]),
            Body::Load(..) => val(self, t[0]),
            Body::Lea(_, _, off) => Ok(t[0].wrapping_add(off as u64)),
            Body::Inc(_, k) => {
                let v = val(self, t[0])?.wrapping_add(k as i64 as u64);
                self.ents.insert(t[0], Ent::Val(v));
                Ok(v)
            }
            Body::PtrLoad(_) => { let p = val(self, t[0])?; val(self, p) }
            Body::PtrCall(_) => { let p = val(self, t[0])?; self.eval(p) }
        }
    }

    /// Runs some of the loaded functions.
    fn exercise(&mut self, r: &mut Rng, n: u64) -> R<()> {
        for _ in 0..n {
            if self.funs.is_empty() { return Ok(()); }
            let a = *r.pick(&self.funs);
            let want = self.eval(a)?;
            let s = sys::sim();
            s.on = false;
            let got = unsafe { std::mem::transmute::<usize, extern "C" fn() -> u64>(a as usize)() };
            s.on = true;
            self.calls += 1;
            if got != want {
                let what = match &self.ents[&a] { Ent::Fun(b, _) => format!("{:?}", b), _ => "external".into() };
                return Err(format!("the function loaded as {} returned {:#x}, the symbols it names give {:#x}", what, got, want));
            }
        }
        Ok(())
    }

    /// Everything loaded so far is as it was loaded.
    fn intact(&self) -> R<()> {
        for i in &self.images {
            match peek(i.at, i.bytes.len()) {
                None => return Err(format!("{} is no longer readable memory", i.what)),
                Some(b) if b != i.bytes => {
                    let k = (0..b.len()).find(|&k| b[k] != i.bytes[k]).unwrap();
                    return Err(format!("{} changed at offset {} after it was loaded", i.what, k));
                }
                _ => {}
            }
        }
        for (a, e) in &self.ents {
            if let Ent::Val(v) = e {
                match peek(*a, 8) {
                    None => return Err("a loaded datum is no longer readable memory".to_string()),
                    Some(b) if b != v.to_le_bytes() => return Err("a loaded datum does not have the value the program gave it".to_string()),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn names(&self, eng: &Engine<impl FnMut(&str) -> *const u8>, all: &BTreeSet<String>) -> R<()> {
        for n in all {
            let (g, w) = (eng.get(n).map(|p| p as u64), self.syms.get(n).copied());
            if g != w {
                return Err(format!("the symbol {} is {}, it should be {}", n, show(g), show(w)));
            }
        }
        Ok(())
    }
}

fn show(x: Option<u64>) -> &'static str {
    if x.is_some() { "at some address" } else { "unknown" }
}

fn local_of<'a>(o: &'a Object, n: &str) -> Option<&'a xten::asm::Location> {
    o.symbols.iter().find_map(|s| match &s.binding { Binding::Local(l) if s.name == n => Some(l), _ => None })
}
fn own_global<'a>(o: &'a Object, n: &str) -> Option<&'a xten::asm::Location> {
    o.symbols.iter().find_map(|s| match &s.binding { Binding::Global(Some(l)) if s.name == n => Some(l), _ => None })
}

/// An accepted object: where its sections are, and that every field is what the named symbols make it.
fn accept(m: &mut Model, eng: &Engine<impl FnMut(&str) -> *const u8>, plan: &Plan, o: &Object, id: usize) -> R<()> {
    let mut base: [Option<u64>; 4] = [None; 4];
    for s in &o.symbols {
        match &s.binding {
            Binding::Global(Some(l)) => {
                if m.syms.contains_key(&s.name) {
                    return Err(format!("an object that defines {} again was accepted", s.name));
                }
                let Some(p) = eng.get(&s.name) else { return Err(format!("the object defining {} was accepted, but the symbol is unknown", s.name)) };
                let b = (p as u64).wrapping_sub(l.pos);
                let k = sec_i(l.section);
                match base[k] {
                    None => base[k] = Some(b),
                    Some(x) if x != b => return Err(format!("symbol {} is not at its place in the object's {} section", s.name, SEC[k])),
                    _ => {}
                }
            }
            Binding::Global(None) => {
                if !m.syms.contains_key(&s.name) {
                    match m.resolver.borrow().get(&s.name) {
                        Some(a) => { m.syms.insert(s.name.clone(), *a); }
                        None => return Err(format!("an object that needs the unknown symbol {} was accepted", s.name)),
                    }
                }
            }
            Binding::Local(_) => {}
        }
    }
    let mut seen = BTreeSet::new();
    for s in &o.symbols {
        if !seen.insert((&s.name, matches!(s.binding, Binding::Local(_)))) {
            return Err(format!("an object that defines {} twice was accepted", s.name));
        }
        if let Binding::Global(Some(_)) = s.binding {
            m.syms.insert(s.name.clone(), eng.get(&s.name).unwrap() as u64);
        }
    }
    let at = |l: &xten::asm::Location| base[sec_i(l.section)].map(|b| b + l.pos);
    let resolve = |m: &Model, n: &str| -> Option<u64> {
        match local_of(o, n) { Some(l) => at(l), None => m.syms.get(n).copied() }
    };
    let mut img: [Vec<u8>; 4] = [o.text.clone(), o.data.clone(), o.rodata.clone(), vec![0; o.bss as usize]];
    let mut slots = vec![];
    for r in &o.relocs {
        let k = sec_i(r.location.section);
        let p = base[k].unwrap() + r.location.pos;
        let (s, name) = match &r.target {
            RelocTarget::Symbol(n) => match resolve(m, n) {
                Some(a) => (a, n.clone()),
                None => return Err(format!("an object that refers to the unknown symbol {} was accepted", n)),
            },
            RelocTarget::Section(t) => (base[sec_i(*t)].unwrap(), SEC[sec_i(*t)].to_string()),
        };
        let n = match r.ty { RelocType::PcRel8 => 1, RelocType::Abs64 => 8, _ => 4 };
        let Some(f) = peek(p, n) else { return Err(format!("the {} section of an accepted object is not readable memory", SEC[k])) };
        let v = match n { 1 => f[0] as i8 as i64, 4 => i32::from_le_bytes(f[..4].try_into().unwrap()) as i64, _ => i64::from_le_bytes(f[..8].try_into().unwrap()) };
        let bad = |w: String| Err(format!("the {:?} reference to {} in an accepted object {}", r.ty, name, w));
        match r.ty {
            RelocType::Abs64 => {
                if v as u64 != s.wrapping_add(r.addend as u64) { return bad("does not hold its address".into()); }
            }
            RelocType::PcRelToAddressTable32 => {
                if let RelocTarget::Section(_) = r.target { return bad("was accepted although it cannot be expressed".into()); }
                let slot = (p as i64 + v - r.addend) as u64;
                match peek(slot, 8) {
                    None => return bad("does not lead to the address table".into()),
                    Some(b) if b != s.to_le_bytes() => return bad("leads to an entry with another address".into()),
                    _ => {}
                }
                slots.push(Image { what: format!("the address table entry of {}", name), at: slot, bytes: s.to_le_bytes().to_vec() });
            }
            _ => {
                let w = (s as i128) + (r.addend as i128) - (p as i128);
                if v as i128 != w { return bad(if n == 1 && (w < -128 || w > 127) || n == 4 && (w < i32::MIN as i128 || w > i32::MAX as i128) { "was accepted although the distance does not fit".into() } else { "leads somewhere else".into() }); }
            }
        }
        m.checked += 1;
        let at = r.location.pos as usize;
        img[k][at..at + n].copy_from_slice(&f);
    }
    for k in 0..4 {
        if img[k].is_empty() { continue; }
        let b = base[k].unwrap();
        match peek(b, img[k].len()) {
            None => return Err(format!("the {} section of an accepted object is not readable memory", SEC[k])),
            Some(x) if x != img[k] => return Err(format!("the {} section of an accepted object was not loaded as given", SEC[k])),
            _ => {}
        }
        // two sections never share memory
        let e = b + img[k].len() as u64;
        if m.images.iter().any(|i| i.at < e && b < i.at + i.bytes.len() as u64) || m.ents.range(b..e).any(|_| true) {
            return Err(format!("the {} section of an accepted object was placed over something loaded before", SEC[k]));
        }
    }
    for (k, v) in img.into_iter().enumerate() {
        if (k == 0 || k == 2) && !v.is_empty() {
            m.images.push(Image { what: format!("the {} section of object {}", SEC[k], id), at: base[k].unwrap(), bytes: v });
        }
    }
    m.images.extend(slots);
    for it in &plan.items {
        let a = base[sec_i(it.sec)].unwrap() + it.pos;
        let target = |m: &Model, r: &Ref| match r { Ref::Sym(n) => resolve(m, n).unwrap(), Ref::Sec(t, o) => base[sec_i(*t)].unwrap() + o };
        let e = match &it.what {
            What::Datum(Datum::Val(v)) => Ent::Val(*v),
            What::Datum(Datum::Zero) => Ent::Val(0),
            What::Datum(Datum::Ptr(r, ad)) => Ent::Val(target(m, r).wrapping_add(*ad as u64)),
            What::Fun(b) => {
                m.funs.push(a);
                Ent::Fun(b.clone(), gen::refs(&it.what).iter().map(|r| target(m, r)).collect())
            }
        };
        m.ents.insert(a, e);
    }
    Ok(())
}

/// A refused object: the reason given is true.
fn justified(m: &Model, o: &Object, e: &Error) -> R<()> {
    let s = sys::sim();
    let known = |n: &str| m.syms.contains_key(n) || own_global(o, n).is_some() || local_of(o, n).is_some();
    match e {
        Error::Mmap(k) => {
            let _: &MmapError = k;
            if s.op_hard == 0 { return Err(format!("an object was refused with {:?} although no memory call failed", k)); }
        }
        Error::UndefinedSymbol(n) => {
            let asked = o.symbols.iter().any(|x| &x.name == n && x.binding == Binding::Global(None));
            let used = asked || o.relocs.iter().any(|r| matches!(&r.target, RelocTarget::Symbol(x) if x == n));
            if !used { return Err(format!("an object was refused for the symbol {}, which it does not name", n)); }
            if known(n) || asked && m.resolver.borrow().contains_key(n) {
                return Err(format!("an object was refused because {} is undefined, but it is defined", n));
            }
        }
        Error::DuplicateSymbol(n) => {
            let mine = o.symbols.iter().filter(|x| &x.name == n && x.binding != Binding::Global(None)).count();
            if mine == 0 || (mine < 2 && !m.syms.contains_key(n)) {
                return Err(format!("an object was refused because {} is already defined, but it is not", n));
            }
        }
        Error::OffsetOutOfRange(ty, v) => {
            let out = match ty { RelocType::PcRel8 => *v < -128 || *v > 127, RelocType::Abs64 => false, _ => *v < i32::MIN as isize || *v > i32::MAX as isize };
            // the low gigabytes are within reach of each other
            let far = o.relocs.iter().any(|r| {
                r.ty == *ty
                    && match &r.target {
                        _ if *ty == RelocType::PcRel8 || s.anyplace => true,
                        RelocTarget::Symbol(n) if *ty == RelocType::PcRel32 => m.syms.get(n).or(m.resolver.borrow().get(n)).map_or(false, |a| (a.wrapping_add(r.addend as u64)) >= 0x8000_0000),
                        _ => false,
                    }
            });
            if !out || !far { return Err(format!("an object was refused because a {:?} distance of {} does not fit", ty, v)); }
        }
        Error::UnsupportedSectionRelocation(ty) => {
            if !o.relocs.iter().any(|r| r.ty == *ty && *ty == RelocType::PcRelToAddressTable32 && matches!(r.target, RelocTarget::Section(_))) {
                return Err(format!("an object was refused for a {:?} reference to a section it does not have", ty));
            }
        }
    }
    Ok(())
}

fn ext(near: bool, n: u64, seed: u64) -> Vec<(u64, u64)> {
    // code that is not the engine's: one page with n functions returning a number
    let a = sys::place(4096, 7, near).unwrap();
    let mut r = Rng::new(seed, a as u64);
    (0..n)
        .map(|i| {
            let v = r.next();
            let f = a + 64 * i as usize;
            let mut c = vec![0x48, 0xb8];
            c.extend_from_slice(&v.to_le_bytes());
            c.push(0xc3);
            unsafe { std::ptr::copy(c.as_ptr(), f as *mut u8, c.len()) };
            (f as u64, v)
        })
        .collect()
}

pub fn run(case: &Case) -> Outcome {
    let mut out = Outcome::default();
    let s = sys::sim();
    let mut w = Rng::new(case.seed, 1);
    s.place = w.below(5);
    s.rnd = Rng::new(case.seed, 2);
    let level = *w.pick(&[0, 0, 8, 30, 90]);
    s.rate = [level, level / 2, 0, 0, 0, 0, 0, 0];
    let nops = 6 + w.below(30) as usize;
    s.next = 0x4000_0000 + (w.below(0x3_0000) as usize) * 4096;
    let mut m = Model { syms: BTreeMap::new(), resolver: Rc::new(RefCell::new(BTreeMap::new())), ents: BTreeMap::new(), funs: vec![], images: vec![], checked: 0, calls: 0 };
    let mut known_ext = BTreeMap::new();
    for (near, c) in [(true, 'x'), (false, 'y'), (true, 'r'), (false, 's')] {
        for (i, (a, v)) in ext(near, gen::NX, case.seed).into_iter().enumerate() {
            m.ents.insert(a, Ent::Ext(v));
            known_ext.insert(format!("{}{}", c, i), a);
        }
    }
    for n in ["r0", "s0", "s1"] {
        m.resolver.borrow_mut().insert(n.into(), known_ext[n]);
    }
    let res = m.resolver.clone();
    let mut eng = Engine::new(move |n: &str| res.borrow().get(n).map_or(std::ptr::null(), |a| *a as *const u8));
    let mut universe: BTreeSet<String> = gen::universe().into_iter().collect();
    let mut failed: Vec<(usize, Plan, Object)> = vec![];
    let mut gave_up = false;
    sys::sim().on = true;
    let mut digest = 0xcbf2_9ce4_8422_2325u64;
    for op in 0..nops {
        if case.skip.contains(&op) { continue; }
        let mut r = Rng::new(case.seed, 1000 + op as u64);
        sys::sim().begin_op(op);
        let kind = if op == 0 { 0 } else { r.below(20) };
        let mut line = String::new();
        let mut step = || -> R<()> {
            match kind {
                0..=13 => {
                    let (id, plan, obj) = if kind >= 11 && !failed.is_empty() {
                        let i = r.below(failed.len() as u64) as usize;
                        failed.remove(i)
                    } else {
                        let mut p = gen::plan(&mut r, op, &m.syms.keys().cloned().chain(m.resolver.borrow().keys().cloned()).collect::<Vec<_>>());
                        let mut pad = Rng::new(r.next(), 5);
                        let o = gen::emit(&mut p, &mut pad);
                        (op, p, o)
                    };
                    for it in &plan.items {
                        if let Some(n) = &it.name { universe.insert(n.clone()); }
                    }
                    line = format!("load object {} ({} items, {} relocations, text {} data {} rodata {} bss {})", id, plan.items.len(), obj.relocs.len(), obj.text.len(), obj.data.len(), obj.rodata.len(), obj.bss);
                    if sys::sim().tracing {
                        for it in &plan.items { let s = format!("      {} {:?} {}+{} {:?}", it.name.as_deref().unwrap_or("-"), if it.global { "global" } else { "local" }, SEC[sec_i(it.sec)], it.pos, it.what); sys::sim().trace.push(s); }
                    }
                    match catch_unwind(AssertUnwindSafe(|| eng.add_object(&obj))) {
                        Err(e) => {
                            let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            if !sys::sim().restore_failed { return Err(format!("loading an object panicked: {}", t)); }
                            // a protection that cannot be put back is reported by giving up: nothing of the engine is used afterwards
                            line += " => gave up";
                            gave_up = true;
                            out.n[7] += 1;
                        }
                        Ok(Ok(())) => {
                            line += " => ok";
                            accept(&mut m, &eng, &plan, &obj, id)?;
                            out.n[0] += 1;
                        }
                        Ok(Err(e)) => {
                            line += &format!(" => {}", match &e { Error::OffsetOutOfRange(t, _) => format!("OffsetOutOfRange({:?})", t), e => format!("{:?}", e) });
                            if sys::sim().restore_failed {
                                gave_up = true;
                                out.n[7] += 1;
                                return Ok(());
                            }
                            justified(&m, &obj, &e)?;
                            out.n[1] += 1;
                            // what the resolver gave may have been kept
                            for (n, a) in m.resolver.borrow().iter() {
                                if let Some(p) = eng.get(n) {
                                    if p as u64 == *a { m.syms.insert(n.clone(), *a); }
                                }
                            }
                            failed.push((id, plan, obj));
                        }
                    }
                }
                14..=16 => {
                    let last = m.images.iter().rev().find(|i| i.what.contains("text")).map_or(0x4000_0000, |i| i.at + i.bytes.len() as u64);
                    let (n, a) = match r.below(6) {
                        0 => { let n = format!("x{}", r.below(gen::NX)); let a = known_ext[&n]; (n, a) }
                        1 => { let n = format!("y{}", r.below(gen::NX)); let a = known_ext[&n]; (n, a) }
                        2 if !m.funs.is_empty() => { let a = *r.pick(&m.funs); (gen::f(r.below(gen::NF)), a) }
                        _ => {
                            let a = match r.below(5) {
                                0 => 0x1000 + r.below(0x4000_0000),
                                1 => 0x7fff_0000_0000 + r.below(1 << 30),
                                2 => 0x8000_0000 + r.below(0x8000_0000),
                                // about as far as a 32-bit distance from the code that comes next reaches
                                _ => last + 0x7fff_ff00 + r.below(600),
                            };
                            (format!("b{}", r.below(gen::NX)), a)
                        }
                    };
                    line = format!("register {}", n);
                    let dup = m.syms.contains_key(&n);
                    match eng.register(&n, a as *const u8) {
                        Ok(()) if dup => return Err(format!("registering {} a second time was accepted", n)),
                        Ok(()) => { m.syms.insert(n, a); }
                        Err(Error::DuplicateSymbol(_)) if dup => {}
                        Err(e) => return Err(format!("registering {} was refused with {:?}", n, e)),
                    }
                    out.n[2] += 1;
                }
                17 => {
                    let n = format!("{}{}", *r.pick(&['r', 's']), r.below(gen::NX));
                    line = format!("the resolver learns {}", n);
                    let a = known_ext[&n];
                    m.resolver.borrow_mut().insert(n, a);
                }
                _ => {
                    line = "run".into();
                    m.exercise(&mut r, 12)?;
                }
            }
            if gave_up { return Ok(()); }
            m.names(&eng, &universe)?;
            m.intact()?;
            m.exercise(&mut r, 4)?;
            m.intact()
        };
        if sys::sim().tracing { sys::sim().trace.push(format!("op {}:", op)); }
        let e = step();
        if sys::sim().tracing { sys::sim().trace.push(format!("  {}", line)); }
        digest = fnv(digest, line.as_bytes());
        out.ops += 1;
        if let Err(e) = e {
            out.violation = Some(e);
            break;
        }
        if gave_up { break; }
    }
    let s = sys::sim();
    let _ = How::Rel;
    for (b, x) in &s.maps {
        digest = fnv(digest, &b.to_le_bytes());
        digest = fnv(digest, &x.prot.to_le_bytes());
    }
    if out.violation.is_some() {
        std::mem::forget(eng);
    } else if catch_unwind(AssertUnwindSafe(|| drop(eng))).is_err() {
        out.violation = Some("dropping the engine panicked".into());
    }
    out.n[3] = m.calls;
    out.n[4] = m.checked;
    out.digest = fnv(digest, &m.calls.to_le_bytes());
    s.on = false;
    out.trace = std::mem::take(&mut s.trace);
    out
}
