//! Seeded objects: what each function and datum is meant to be, and the bytes and relocations for it.
use crate::sys::Rng;
use std::io::Write;
use xten::asm::{Binding, Location, LocationSection as Sec, Object, Reloc, RelocTarget, RelocType, SectionWrite, Symbol, Writer};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Rel,
    Table,
    Abs,
}

/// What a reference names: a symbol, or a place in a section of the same object.
#[derive(Clone, PartialEq, Debug)]
pub enum Ref {
    Sym(String),
    Sec(Sec, u64),
}

#[derive(Clone, Debug)]
pub enum Body {
    Const(u64),
    Call(Ref, How, i32),
    Tail(Ref, How),
    Jump8(Ref),
    Load(Ref, How),
    Lea(Ref, How, i64),
    Inc(Ref, i8),
    PtrLoad(Ref),
    PtrCall(Ref),
}

#[derive(Clone, Debug)]
pub enum Datum {
    Val(u64),
    Zero,
    Ptr(Ref, i64),
}

#[derive(Clone, Debug)]
pub enum What {
    Fun(Body),
    Datum(Datum),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub name: Option<String>,
    pub global: bool,
    pub sec: Sec,
    pub pos: u64,
    pub what: What,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub items: Vec<Item>,
    pub externs: Vec<String>,
    pub by_writer: bool,
}

pub fn f(i: u64) -> String { format!("f{}", i) }
pub fn d(i: u64) -> String { format!("d{}", i) }
pub fn p(i: u64) -> String { format!("p{}", i) }
pub fn q(i: u64) -> String { format!("q{}", i) }
pub const NF: u64 = 24;
pub const ND: u64 = 12;
pub const NP: u64 = 4;
pub const NX: u64 = 4; // x<i> near functions, y<i> far functions, b<i> bogus addresses, r<i>/s<i> from the resolver

fn low(n: &str) -> bool { n[1..].parse::<u64>().unwrap() < 5 }

pub fn universe() -> Vec<String> {
    let mut v = vec![];
    for i in 0..NF { v.push(f(i)); }
    for i in 0..ND { v.push(d(i)); }
    for i in 0..NP { v.push(p(i)); v.push(q(i)); }
    for i in 0..NX {
        for c in ["x", "y", "b", "r", "s"] { v.push(format!("{}{}", c, i)); }
    }
    v
}

struct Emit {
    obj: Object,
    w: Writer,
    by_writer: bool,
    uses: Vec<(Sec, u64, Ref, i64, RelocType)>,
}

impl Emit {
    fn pos(&mut self, s: Sec) -> u64 {
        match s {
            Sec::Text => self.obj.text.len() as u64,
            Sec::Data => self.obj.data.len() as u64,
            Sec::Rodata => self.obj.rodata.len() as u64,
            Sec::Bss => self.obj.bss,
        }
    }
    fn put(&mut self, s: Sec, b: &[u8]) {
        match s {
            Sec::Text => { self.obj.text.extend_from_slice(b); self.w.text().write_all(b).unwrap() }
            Sec::Data => { self.obj.data.extend_from_slice(b); self.w.data().write_all(b).unwrap() }
            Sec::Rodata => { self.obj.rodata.extend_from_slice(b); self.w.rodata().write_all(b).unwrap() }
            Sec::Bss => { self.obj.bss += b.len() as u64; self.w.bss().allocate(b.len() as u64).unwrap() }
        }
    }
    /// A field of `n` bytes at the end of what was written, followed by `after` more bytes before the next instruction.
    fn field(&mut self, s: Sec, r: &Ref, ty: RelocType, addend: i64) {
        let n = match ty { RelocType::PcRel8 => 1, RelocType::Abs64 => 8, _ => 4 };
        let at = self.pos(s);
        self.put(s, &vec![0; n]);
        self.uses.push((s, at, r.clone(), addend, ty));
    }
}

pub fn emit(plan: &mut Plan, pad: &mut Rng) -> Object {
    let mut e = Emit {
        obj: Object { text: vec![], data: vec![], rodata: vec![], bss: 0, symbols: vec![], relocs: vec![] },
        w: Writer::new(),
        by_writer: plan.by_writer,
        uses: vec![],
    };
    use RelocType::*;
    for i in 0..plan.items.len() {
        let mut it = plan.items[i].clone();
        if let What::Fun(Body::Load(Ref::Sec(t, idx), h)) = it.what {
            // a literal is named by its item until its place is known
            it.what = What::Fun(Body::Load(Ref::Sec(t, plan.items[idx as usize].pos), h));
            plan.items[i].what = it.what.clone();
        }
        let s = it.sec;
        let gap = match pad.below(12) { 0 => 16 + pad.below(200), 1 => 4096 + pad.below(6000), 2 => pad.below(40), _ => 0 };
        if gap > 0 {
            e.put(s, &vec![if s == Sec::Text { 0xcc } else { 0 }; gap as usize]);
        }
        if s != Sec::Text {
            while e.pos(s) % 8 != 0 { e.put(s, &[0]); }
        }
        let at = e.pos(s);
        plan.items[i].pos = at;
        if let Some(n) = &it.name {
            if e.by_writer {
                let l = e.w.get_label(n);
                match s {
                    Sec::Text => e.w.text().define(l, it.global),
                    Sec::Data => e.w.data().define(l, it.global),
                    Sec::Rodata => e.w.rodata().define(l, it.global),
                    Sec::Bss => e.w.bss().define(l, it.global),
                };
            } else {
                let loc = Location::new(s, at);
                e.obj.symbols.push(Symbol::new(n.clone(), if it.global { Binding::Global(Some(loc)) } else { Binding::Local(loc) }));
            }
        }
        match &it.what {
            What::Datum(Datum::Val(v)) => e.put(s, &v.to_le_bytes()),
            What::Datum(Datum::Zero) => e.put(s, &[0; 8]),
            What::Datum(Datum::Ptr(r, a)) => e.field(s, r, Abs64, *a),
            What::Fun(b) => match b {
                Body::Const(v) => { e.put(s, &[0x48, 0xb8]); e.put(s, &v.to_le_bytes()); e.put(s, &[0xc3]) }
                Body::Call(r, how, c) => {
                    match how {
                        How::Rel => { e.put(s, &[0xe8]); e.field(s, r, PcRel32, -4) }
                        How::Table => { e.put(s, &[0xff, 0x15]); e.field(s, r, PcRelToAddressTable32, -4) }
                        How::Abs => { e.put(s, &[0x48, 0xb8]); e.field(s, r, Abs64, 0); e.put(s, &[0xff, 0xd0]) }
                    }
                    e.put(s, &[0x48, 0x05]); e.put(s, &c.to_le_bytes()); e.put(s, &[0xc3])
                }
                Body::Tail(r, how) => match how {
                    How::Rel => { e.put(s, &[0xe9]); e.field(s, r, PcRel32, -4) }
                    How::Table => { e.put(s, &[0xff, 0x25]); e.field(s, r, PcRelToAddressTable32, -4) }
                    How::Abs => { e.put(s, &[0x48, 0xb8]); e.field(s, r, Abs64, 0); e.put(s, &[0xff, 0xe0]) }
                },
                Body::Jump8(r) => { e.put(s, &[0xeb]); e.field(s, r, PcRel8, -1) }
                Body::Load(r, how) => {
                    match how {
                        How::Rel => { e.put(s, &[0x48, 0x8b, 0x05]); e.field(s, r, PcRel32, -4) }
                        How::Table => { e.put(s, &[0x48, 0x8b, 0x05]); e.field(s, r, PcRelToAddressTable32, -4); e.put(s, &[0x48, 0x8b, 0x00]) }
                        How::Abs => { e.put(s, &[0x48, 0xb8]); e.field(s, r, Abs64, 0); e.put(s, &[0x48, 0x8b, 0x00]) }
                    }
                    e.put(s, &[0xc3])
                }
                Body::Lea(r, how, off) => {
                    match how {
                        How::Rel => { e.put(s, &[0x48, 0x8d, 0x05]); e.field(s, r, PcRel32, off - 4) }
                        How::Table => { e.put(s, &[0x48, 0x8b, 0x05]); e.field(s, r, PcRelToAddressTable32, -4) }
                        How::Abs => { e.put(s, &[0x48, 0xb8]); e.field(s, r, Abs64, *off) }
                    }
                    e.put(s, &[0xc3])
                }
                Body::Inc(r, k) => {
                    e.put(s, &[0x48, 0x83, 0x05]); e.field(s, r, PcRel32, -5); e.put(s, &[*k as u8]);
                    e.put(s, &[0x48, 0x8b, 0x05]); e.field(s, r, PcRel32, -4); e.put(s, &[0xc3])
                }
                Body::PtrLoad(r) => { e.put(s, &[0x48, 0x8b, 0x05]); e.field(s, r, PcRel32, -4); e.put(s, &[0x48, 0x8b, 0x00, 0xc3]) }
                Body::PtrCall(r) => { e.put(s, &[0xff, 0x25]); e.field(s, r, PcRel32, -4) }
            },
        }
    }
    if !e.by_writer {
        for x in &plan.externs {
            e.obj.symbols.push(Symbol::new(x.clone(), Binding::Global(None)));
        }
        for (s, at, r, a, ty) in e.uses.drain(..) {
            let (t, a) = match r { Ref::Sym(n) => (RelocTarget::Symbol(n), a), Ref::Sec(t, o) => (RelocTarget::Section(t), a + o as i64) };
            e.obj.relocs.push(Reloc::new(Location::new(s, at), t, a, ty));
        }
        e.obj
    } else {
        // the same content through the assembler's writer, which resolves what it can by itself
        let mut raw = vec![];
        for (s, at, r, a, ty) in std::mem::take(&mut e.uses) {
            match r {
                Ref::Sym(n) => { let l = e.w.get_label(&n); e.w.r#use(Location::new(s, at), l, a, ty) }
                Ref::Sec(t, o) => raw.push(Reloc::new(Location::new(s, at), RelocTarget::Section(t), a + o as i64, ty)),
            }
        }
        let mut o = e.w.produce().unwrap();
        o.relocs.extend(raw);
        o
    }
}

/// A seeded object. `wild` allows references that cannot be satisfied.
pub fn plan(r: &mut Rng, op: usize, have: &[String]) -> Plan {
    let of = |c: char| -> Vec<String> { have.iter().filter(|n| n.starts_with(c)).cloned().collect() };
    let (hf, hd, hp, hq, hb) = (of('f'), of('d'), of('p'), of('q'), of('b'));
    let likely = |r: &mut Rng, h: &Vec<String>, other: String| -> String { if !h.is_empty() && r.chance(930) { r.pick(h).clone() } else { other } };
    let by_writer = r.chance(350);
    let wild = r.chance(150);
    let mut items: Vec<Item> = vec![];
    let mut names: Vec<String> = vec![];
    let mut lits: Vec<(Sec, usize)> = vec![];
    let fresh = |r: &mut Rng, c: char, n: u64| -> String {
        for _ in 0..6 {
            let s = format!("{}{}", c, r.below(n));
            if !have.contains(&s) { return s; }
        }
        format!("{}{}", c, r.below(n))
    };
    // names defined by this object
    let nd = r.below(4);
    let mut data = vec![];
    for _ in 0..nd {
        let n = fresh(r, 'd', ND);
        if names.contains(&n) && (by_writer || !r.chance(60)) { continue; }
        names.push(n.clone());
        data.push(n);
    }
    let mut ptrs: Vec<(String, bool)> = vec![];
    if r.chance(350) {
        let code = r.chance(400);
        let n = if code { fresh(r, 'q', NP) } else { fresh(r, 'p', NP) };
        if !names.contains(&n) { names.push(n.clone()); ptrs.push((n, code)); }
    }
    let mut funs = vec![];
    for _ in 0..1 + r.below(4) {
        let n = fresh(r, 'f', NF);
        if names.contains(&n) && (by_writer || !r.chance(60)) { continue; }
        names.push(n.clone());
        funs.push(n);
    }
    let sec_of = |r: &mut Rng| *r.pick(&[Sec::Data, Sec::Rodata, Sec::Bss, Sec::Data]);
    for n in &data {
        // the first half of the data names is always writable
        let sec = if low(n) { *r.pick(&[Sec::Data, Sec::Bss]) } else { sec_of(r) };
        let v = r.next();
        items.push(Item { name: Some(n.clone()), global: !r.chance(200), sec, pos: 0, what: What::Datum(if sec == Sec::Bss { Datum::Zero } else { Datum::Val(v) }) });
    }
    for _ in 0..r.below(3) {
        let sec = *r.pick(&[Sec::Data, Sec::Rodata]);
        let v = r.next();
        lits.push((sec, items.len()));
        items.push(Item { name: None, global: false, sec, pos: 0, what: What::Datum(Datum::Val(v)) });
    }
    let any_data = |r: &mut Rng, names: &Vec<String>| -> String {
        let own: Vec<&String> = names.iter().filter(|n| n.starts_with('d')).collect();
        if !own.is_empty() && r.chance(500) { (*r.pick(&own)).clone() } else { let o = d(r.below(ND)); likely(r, &hd, o) }
    };
    // a function this object may call: an earlier one of its own, or one it does not define
    let any_fun = |r: &mut Rng, own: &[String], all: &Vec<String>| -> String {
        match r.below(10) {
            0..=3 if !own.is_empty() => r.pick(own).clone(),
            0..=5 => {
                for _ in 0..8 {
                    let o = f(r.below(NF));
                    let n = likely(r, &hf, o);
                    if !all.contains(&n) { return n; }
                }
                format!("x{}", r.below(NX))
            }
            k => {
                let c = ['x', 'y', 'r', 's'][k as usize - 6];
                let o = format!("{}{}", c, r.below(NX));
                let h: Vec<String> = have.iter().filter(|n| n.starts_with(c)).cloned().collect();
                likely(r, &h, o)
            }
        }
    };
    for (n, code) in &ptrs {
        let t = if *code { any_fun(r, &[], &names) } else { any_data(r, &names) };
        let sec = *r.pick(&[Sec::Data, Sec::Rodata]);
        if !names.contains(&t) && !have.contains(&t) && !r.chance(60) { names.retain(|x| x != n); continue; }
        items.push(Item { name: Some(n.clone()), global: !r.chance(200), sec, pos: 0, what: What::Datum(Datum::Ptr(Ref::Sym(t), 0)) });
    }
    let mut sofar: Vec<String> = vec![];
    for n in &funs {
        let how = *r.pick(&[How::Rel, How::Table, How::Abs, How::Rel]);
        let body = match r.below(14) {
            0 => Body::Const(r.next()),
            1..=3 => { let t = any_fun(r, &sofar, &names); let c = r.next() as i32; Body::Call(Ref::Sym(t), how, c) }
            4 => { let t = any_fun(r, &sofar, &names); Body::Tail(Ref::Sym(t), how) }
            5 => { let t = any_fun(r, &sofar, &names); if by_writer && sofar.contains(&t) { Body::Tail(Ref::Sym(t), How::Rel) } else { Body::Jump8(Ref::Sym(t)) } }
            6 | 7 => { let t = any_data(r, &names); Body::Load(Ref::Sym(t), how) }
            8 => { if lits.is_empty() { Body::Const(r.next()) } else { let l = *r.pick(&lits); Body::Load(Ref::Sec(l.0, l.1 as u64), if how == How::Table && !wild { How::Rel } else { how }) } }
            9 => { let t = match r.below(4) { 0 => any_data(r, &names), 1 => any_fun(r, &sofar, &names), _ => { let o = format!("b{}", r.below(NX)); likely(r, &hb, o) } };
                   let off = if r.chance(500) { 0 } else { r.below(64) as i64 - 32 };
                   Body::Lea(Ref::Sym(t), how, if how == How::Table { 0 } else { off }) }
            10 => { let o = d(r.below(5)); let t = likely(r, &hd.iter().filter(|n| low(n)).cloned().collect(), o); Body::Inc(Ref::Sym(t), r.below(100) as i8) }
            11 => { let o = p(r.below(NP)); Body::PtrLoad(Ref::Sym(likely(r, &hp, o))) },
            12 => { let o = q(r.below(NP)); Body::PtrCall(Ref::Sym(likely(r, &hq, o))) },
            _ => { let o = format!("b{}", r.below(NX)); let t = likely(r, &hb, o); Body::Lea(Ref::Sym(t), How::Rel, r.below(16) as i64 - 8) }
        };
        let what = What::Fun(body);
        let unknown = refs(&what).iter().any(|x| matches!(x, Ref::Sym(t) if !names.contains(t) && !have.contains(t)));
        let what = if unknown && !r.chance(60) { What::Fun(Body::Const(r.next())) } else { what };
        sofar.push(n.clone());
        items.push(Item { name: Some(n.clone()), global: !r.chance(150), sec: Sec::Text, pos: 0, what });
    }
    // one definition of a name twice is twice of the same kind
    for i in 0..items.len() {
        if let Some(j) = (0..i).find(|&j| items[j].name.is_some() && items[j].name == items[i].name) {
            items[i].global = items[j].global;
        }
    }
    // one symbol of its own per section, by which the section is found
    for (k, sec) in [Sec::Text, Sec::Data, Sec::Rodata, Sec::Bss].into_iter().enumerate() {
        if items.iter().any(|i| i.sec == sec) {
            let v = r.next();
            let what = match sec { Sec::Text => What::Fun(Body::Const(v)), Sec::Bss => What::Datum(Datum::Zero), _ => What::Datum(Datum::Val(v)) };
            items.push(Item { name: Some(format!("a{}_{}", op, k)), global: true, sec, pos: 0, what });
        }
    }
    // most objects declare what they take from elsewhere; some leave it out
    let mut externs = vec![];
    for it in &items {
        for rf in refs(&it.what) {
            if let Ref::Sym(n) = rf {
                if !names.contains(&n) && !externs.contains(&n) && !r.chance(60) { externs.push(n.clone()); }
            }
        }
    }
    if r.chance(80) { let n = d(r.below(ND)); if !externs.contains(&n) && !names.contains(&n) && !by_writer { externs.push(n); } }
    Plan { items, externs, by_writer }
}

pub fn refs(w: &What) -> Vec<Ref> {
    match w {
        What::Datum(Datum::Ptr(r, _)) => vec![r.clone()],
        What::Datum(_) => vec![],
        What::Fun(b) => match b {
            Body::Const(_) => vec![],
            Body::Call(r, ..) | Body::Tail(r, _) | Body::Jump8(r) | Body::Load(r, _) | Body::Lea(r, ..) | Body::Inc(r, _) | Body::PtrLoad(r) | Body::PtrCall(r) => vec![r.clone()],
        },
    }
}
