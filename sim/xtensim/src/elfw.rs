//! J02: the real ELF writer into destinations that split, interrupt and refuse writes.
use crate::gen;
use crate::sys::{self, Rng};
use crate::{fnv, Case, Outcome};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use xten::asm::{Binding, Object, RelocTarget};
use xten::elf::adapter::into_relocatable_object;
use xten::elf::write_relocatable_object;

/// A destination whose every write is decided by the simulation.
struct Dest {
    got: Vec<u8>,
    failed: bool,
    ended: bool, // answers zero from then on
    calls: u64,
    mode: u64,
    rates: [u64; 3],
}

impl Dest {
    fn decide(&mut self, len: usize) -> Option<(usize, u64)> {
        let s = sys::sim();
        self.calls += 1;
        let (op, call) = (s.op, s.call);
        s.call += 1;
        s.calls += 1;
        let r = match &s.fixed {
            Some(f) => f.iter().find(|d| d.0 == op && d.1 == call).map(|d| (d.2, d.3)),
            None => {
                let mut r = Rng::new(s.rnd.0, ((op as u64) << 40) | call as u64);
                if r.chance(self.rates[0]) {
                    Some((*r.pick(&[8usize, 9, 8]), r.below(6)))
                } else if r.chance(self.rates[1]) {
                    Some((10, if self.mode == 1 { 1 } else { 1 + r.below(len as u64) }))
                } else if r.chance(self.rates[2]) {
                    Some((11, 0))
                } else {
                    None
                }
            }
        };
        if let Some((k, v)) = r {
            s.log.push((op, call, k, v));
            s.counts[k] += 1;
            
        }
        r
    }
}

impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.ended { return Ok(0); }
        let mut n = b.len();
        match self.decide(n) {
            Some((8, v)) | Some((9, v)) => {
                self.failed = true;
                use io::ErrorKind::*;
                let k = [Other, WriteZero, PermissionDenied, BrokenPipe, WouldBlock, TimedOut][v as usize % 6];
                if k == WriteZero {
                    // a destination that is full says so with a zero
                    self.ended = true;
                    return Ok(0);
                }
                return Err(io::Error::new(k, "refused by the simulation"));
            }
            Some((11, _)) => return Err(io::ErrorKind::Interrupted.into()),
            Some((10, v)) => n = (v as usize).clamp(1, n),
            _ => {}
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn object(r: &mut Rng, op: usize) -> Object {
    let mut p = gen::plan(r, op, &[]);
    let mut pad = Rng::new(r.next(), 6);
    let mut o = gen::emit(&mut p, &mut pad);
    // what the format can express: a symbol per name, every name declared, nothing relocated in bss
    let mut seen = std::collections::BTreeSet::new();
    o.symbols.retain(|s| seen.insert(s.name.clone()));
    for t in &o.relocs {
        if let RelocTarget::Symbol(n) = &t.target {
            if seen.insert(n.clone()) { o.symbols.push(xten::asm::Symbol::new(n.clone(), Binding::Global(None))); }
        }
    }
    for _ in 0..r.below(3) {
        let n = (0..1 + r.below(300)).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>();
        if seen.insert(n.clone()) { o.symbols.push(xten::asm::Symbol::new(n, Binding::Global(None))); }
    }
    match r.below(6) {
        0 => { let n = r.below(70000) as usize; o.rodata.extend((0..n).map(|i| i as u8)) }
        1 => { let n = r.below(20000) as usize; o.data.extend((0..n).map(|i| (i * 7) as u8)) }
        2 => { o.text.clear(); o.data.clear(); o.rodata.clear(); o.symbols.retain(|s| s.binding == Binding::Global(None)); o.relocs.clear() }
        _ => {}
    }
    o
}

pub fn run(case: &Case, scratch: &str) -> Outcome {
    let mut out = Outcome::default();
    let s = sys::sim();
    s.rnd = Rng::new(case.seed, 2);
    let mut w = Rng::new(case.seed, 1);
    let nops = 3 + w.below(5) as usize;
    let mut digest = 0xcbf2_9ce4_8422_2325u64;
    s.on = true;
    for op in 0..nops {
        if case.skip.contains(&op) { continue; }
        let mut r = Rng::new(case.seed, 1000 + op as u64);
        let s = sys::sim();
        s.begin_op(op);
        let o = object(&mut r, op);
        let name = format!("m{}.o", r.below(100));
        let mut want = vec![];
        if let Err(e) = into_relocatable_object(&name, o.clone()).write(&mut want) {
            out.violation = Some(format!("writing an object to memory failed: {}", e));
            break;
        }
        let hard = *r.pick(&[0u64, 0, 1, 4, 20, 60]);
        let short = *r.pick(&[0u64, 100, 500, 900, 1000]);
        let eintr = *r.pick(&[0u64, 30, 200]);
        let kind = r.below(4);
        let (got, res, what): (Vec<u8>, Result<io::Result<()>, _>, String) = match kind {
            0 => {
                s.rate = [0, 0, 0, hard, hard, short, eintr.min(100), 0];
                let path = format!("{}/{}", scratch, name);
                let res = catch_unwind(AssertUnwindSafe(|| write_relocatable_object(Path::new(&path), o.clone())));
                s.rate = [0; 8];
                let keep = s.fixed.clone();
                s.fixed = Some(vec![]);
                let got = std::fs::read(&path).unwrap_or_default();
                let _ = std::fs::remove_file(&path);
                s.fixed = keep;
                (got, res, "file".into())
            }
            k => {
                let mode = r.below(2);
                let mut d = Dest { got: vec![], failed: false, ended: false, calls: 0, mode, rates: [hard, short, eintr] };
                let cap = [0, 0, 1 + r.below(100) as usize, 8192][k as usize];
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let e = into_relocatable_object(&name, o.clone());
                    if cap == 0 {
                        e.write(&mut d)
                    } else {
                        let mut b = io::BufWriter::with_capacity(cap, &mut d);
                        e.write(&mut b)?;
                        b.flush()
                    }
                }));
                let what = if cap == 0 { "destination".to_string() } else { format!("destination behind a buffer of {}", cap) };
                (d.got, res, what)
            }
        };
        let verdict = match &res { Ok(Ok(())) => "ok", Ok(Err(_)) => "error", Err(_) => "panic" };
        let line = format!("write {} bytes to a {}: {} after {} of them", want.len(), what, verdict, got.len());
        digest = fnv(fnv(digest, line.as_bytes()), &got);
        if s.tracing { s.trace.push(format!("op {}: {}", op, line)); }
        out.ops += 1;
        let bad = match &res {
            Ok(Ok(())) if got != want => Some(format!("writing an object to a {} reported success, but {} of {} bytes are right", what, got.iter().zip(&want).take_while(|(a, b)| a == b).count(), want.len())),
            Ok(Err(e)) if !s.log.iter().any(|d| d.0 == op) => Some(format!("writing an object to a {} failed with {:?} although every write was taken as given", what, e.kind())),
            Err(_) => Some(format!("writing an object to a {} panicked", what)),
            _ => None,
        };
        match &res { Ok(Ok(())) => out.n[0] += 1, _ => out.n[1] += 1 }
        out.n[3] += got.len() as u64;
        out.n[4] += s.call as u64;
        if bad.is_some() {
            out.violation = bad;
            break;
        }
    }
    let s = sys::sim();
    s.on = false;
    out.digest = digest;
    out.trace = std::mem::take(&mut s.trace);
    out
}
