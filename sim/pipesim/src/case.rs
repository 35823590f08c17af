//! One simulated run: which world, which schedule, which faults. A case file replays exactly.
use crate::rng::Rng;
use crate::sim::{Cfg, Decision};
use crate::world::Profile;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub world: u64,
    pub drop: BTreeSet<usize>,
    pub threads: u32,
    pub backend: String, // stub | chibi | llvm
    pub cfg: Cfg,
    pub dec: Vec<Decision>,
}

pub fn profile(prop: &str) -> Profile {
    let b = Profile { min_mods: 1, max_mods: 14, macros: 40, stmts: 4, ..Default::default() };
    match prop {
        "C01" => Profile { max_mods: 22, src_faults: 12, cycles: 20, fs: 75, entries: 40, stmts: 1, ..b },
        "C02" => Profile { max_mods: 10, src_faults: 8, build_faults: 20, noise: 85, fs: 25, entries: 40, ..b },
        "C03" => Profile { max_mods: 26, cycles: 60, fs: 10, entries: 50, stmts: 0, ..b },
        "C04" => Profile { max_mods: 18, build_faults: 6, entries: 60, partial_entries: 50, macros: 60, ..b },
        "C05" => Profile { max_mods: 12, build_faults: 22, entries: 40, ..b },
        "C06" => Profile { min_mods: 3, max_mods: 10, build_faults: 3, macros: 90, stmts: 8, entries: 40, ..b },
        "C07" => Profile { min_mods: 2, max_mods: 12, entries: 70, partial_entries: 50, stmts: 5, ..b },
        "C08" => Profile { min_mods: 2, max_mods: 10, entries: 40, stmts: 6, macros: 60, ..b },
        "C09" => Profile { min_mods: 2, max_mods: 7, entries: 40, stmts: 5, macros: 60, rich: true, build_faults: 6, ..b },
        "G02" => Profile { min_mods: 3, max_mods: 7, macros: 95, stmts: 8, density: 60, rich: true, build_faults: 4, ..b },
        _ => b,
    }
}

pub const F_ALL: u32 = 0x1ff;
pub const F_SOFT: u32 = 0x1b0;

impl Case {
    /// The undisturbed run of a world: one worker, no preemption, fixed hash seed, no faults.
    pub fn baseline(prop: &str, world: u64) -> Case {
        let backend = match prop { "C09" | "G02" => if world % 2 == 0 { "chibi" } else { "llvm" }, _ => "stub" };
        Case { prop: prop.into(), world, drop: BTreeSet::new(), threads: 1, backend: backend.into(), dec: vec![],
            cfg: Cfg { policy: 3, inv: 1000, span: 1000, depth: 3, max: 60_000_000, hash: 12345, ..Default::default() } }
    }
    pub fn seeded(prop: &str, world: u64, k: u64) -> Case {
        let mut r = Rng::new(world.wrapping_mul(0x100000001b3) ^ k, 0x77);
        let policy = *r.pick(&[0, 0, 0, 1, 1, 2]);
        let mut c = Case::baseline(prop, world);
        c.threads = *r.pick(&[1, 2, 2, 3, 4, 4, 6, 8]);
        c.cfg = Cfg {
            sched: r.next(), fault: r.next(), hash: r.next(), policy,
            inv: *r.pick(&[1, 2, 3, 8, 20, 60, 200, 1000]), depth: 3, span: *r.pick(&[20, 100, 500, 3000, 20000]),
            spur: *r.pick(&[0, 0, 4, 12]), finv: 0, fmask: 0, max: 60_000_000, gc: 0, replay: 0,
        };
        if prop == "C01" {
            let m = r.n(4);
            c.cfg.finv = match m { 0 => 0, 1 => 3, 2 => 8, _ => 25 };
            c.cfg.fmask = match r.n(3) { 0 => F_ALL & !0xf | 0x10, 1 => F_ALL, _ => F_ALL & !(1 << 8) };
        }
        if prop == "C09" || prop == "G02" {
            c.backend = if r.p(55) { "chibi" } else { "llvm" }.into();
            c.cfg.gc = if prop == "G02" { *r.pick(&[1, 1, 2, 3, 7, 20]) } else { *r.pick(&[0, 1, 3, 10, 40]) };
        }
        if prop == "C06" && r.p(20) { c.backend = if r.p(60) { "chibi" } else { "llvm" }.into(); }
        c
    }
    pub fn to_text(&self) -> String {
        let c = &self.cfg;
        let mut s = format!("pipesim case 1\nprop {}\nworld {}\ndrop {}\nthreads {}\nbackend {}\ncfg {} {} {} {} {} {} {} {} {} {} {} {} {}\n", self.prop, self.world,
            self.drop.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), self.threads, self.backend,
            c.sched, c.fault, c.hash, c.policy, c.inv, c.depth, c.span, c.spur, c.finv, c.fmask, c.max, c.replay, c.gc);
        for d in &self.dec { s += &format!("d {} {} {} {}\n", d.tid, d.kind, d.n, d.v); }
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case::baseline("", 0);
        let mut it = t.lines();
        if it.next()? != "pipesim case 1" { return None; }
        for l in it {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first().copied() {
                Some("prop") => c.prop = f[1].into(),
                Some("world") => c.world = f[1].parse().ok()?,
                Some("drop") => c.drop = f[1..].iter().filter_map(|x| x.parse().ok()).collect(),
                Some("threads") => c.threads = f[1].parse().ok()?,
                Some("backend") => c.backend = f[1].into(),
                Some("cfg") => {
                    let n: Vec<u64> = f[1..].iter().filter_map(|x| x.parse().ok()).collect();
                    if n.len() < 12 { return None; }
                    c.cfg = Cfg { sched: n[0], fault: n[1], hash: n[2], policy: n[3] as u32, inv: n[4] as u32, depth: n[5] as u32, span: n[6] as u32, spur: n[7] as u32, finv: n[8] as u32, fmask: n[9] as u32, max: n[10], replay: n[11] as u32, gc: n.get(12).copied().unwrap_or(0) as u32 };
                }
                Some("d") => c.dec.push(Decision { tid: f[1].parse().ok()?, kind: f[2].parse().ok()?, n: f[3].parse().ok()?, v: f[4].parse().ok()? }),
                _ => {}
            }
        }
        Some(c)
    }
}
