//! Deterministic simulation of the llrl0 compile pipeline.
//!   pipesim run PROP SEED FROM TO OUTDIR     worlds FROM..TO of a seed
//!   pipesim replay FILE                      one case, exactly
//!   pipesim minimise FILE OUT                smaller schedule and world with the same violation
mod calc;
mod case;
mod exec;
mod irspy;
mod out;
mod reader;
mod rng;
mod sim;
mod world;

use case::Case;
use out::Out;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
struct Outcome {
    violations: Vec<(String, String)>,
    harness: Vec<String>,
    digest: Vec<String>,
    stats: Vec<u64>,
    hash: String,
    notes: BTreeMap<String, u64>,
    gensyms: Vec<String>,
    dec: Vec<sim::Decision>,
}

fn child(c: &Case, out: Out) -> Outcome {
    out.reset();
    let mut w = world::generate(c.world, &case::profile(&c.prop));
    if !c.drop.is_empty() { w.drop_mods(&c.drop); }
    if w.entries.is_empty() { return Outcome::default(); }
    let pid = unsafe { sim::fork() };
    if pid == 0 {
        std::env::set_var("RAYON_NUM_THREADS", c.threads.to_string());
        unsafe {
            let l = [90u64, 90u64];
            sim::setrlimit(0, &l);
            exec::OUT = Some(out);
        }
        std::panic::set_hook(Box::new(move |i| {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let own = ["src/exec.rs", "src/irspy.rs", "src/world.rs", "src/reader.rs", "src/main.rs"].iter().any(|f| at.starts_with(f));
            out.line(&format!("{} {} at {}", if own { "H" } else { "P" }, msg, at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")));
        }));
        // on a fresh thread: its hash seeds have not been drawn yet
        unsafe { sim::sim_seed_hash(c.cfg.hash ^ 0x5eed) };
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || exec::run(c, &w, out)).unwrap().join());
        if !c.dec.is_empty() || r.is_err() || out.lines().iter().any(|l| l.starts_with("V ")) { exec::dump(out); }
        unsafe { sim::_exit(if r.is_ok() { 0 } else { 3 }) };
    }
    let mut st = 0;
    unsafe { sim::waitpid(pid, &mut st, 0) };
    let mut o = Outcome::default();
    let mut stuck = false;
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("V ") { if let Some((p, m)) = r.split_once(' ') { o.violations.push((p.into(), m.into())); } }
        else if let Some(r) = l.strip_prefix("D ") { o.digest.push(r.into()); }
        else if let Some(r) = l.strip_prefix("H ") { o.harness.push(r.into()); }
        else if let Some(r) = l.strip_prefix("G ") { o.gensyms.push(r.into()); }
        else if let Some(r) = l.strip_prefix("P ") { o.violations.push((c.prop.clone(), format!("the compiler panicked: {}", r))); }
        else if let Some(r) = l.strip_prefix("STUCK ") { stuck = true; o.violations.push((c.prop.clone(), r.into())); }
        else if let Some(r) = l.strip_prefix("N ") { if let Some((k, v)) = r.split_once(' ') { *o.notes.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0); } }
        else if let Some(r) = l.strip_prefix("S ") {
            let f: Vec<&str> = r.split(' ').collect();
            o.hash = f[8].into();
            o.stats = f.iter().enumerate().map(|(i, x)| if i == 8 { 0 } else { x.parse().unwrap_or(0) }).collect();
        } else if let Some(r) = l.strip_prefix("d ") {
            let f: Vec<i64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
            o.dec.push(sim::Decision { tid: f[0] as u32, kind: f[1] as u32, n: f[2] as u64, v: f[3] });
        }
    }
    if st != 0 && !stuck && o.violations.is_empty() && o.harness.is_empty() {
        let m = if st & 0x7f != 0 { if (st & 0x7f) == 24 || (st & 0x7f) == 9 { "it did not finish within the processor-time bound".to_string() } else { format!("the compiler crashed with signal {}", st & 0x7f) } } else { format!("the run ended with status {}", st >> 8) };
        o.violations.push((c.prop.clone(), m));
    }
    if o.gensyms.len() != o.gensyms.iter().collect::<BTreeSet<_>>().len() {
        let mut s = BTreeSet::new();
        let d = o.gensyms.iter().find(|g| !s.insert((*g).clone())).unwrap().clone();
        o.violations.push(("C06".into(), format!("the symbol {} was generated twice", d)));
    }
    o
}

/// run a case together with the undisturbed run of its world; add the comparison's verdicts
fn judge(c: &Case, base: Option<&Outcome>, out: Out) -> Outcome {
    let mut o = child(c, out);
    let own;
    let b = match base { Some(b) => b, None => { let mut bc = Case::baseline(&c.prop, c.world); bc.drop = c.drop.clone(); own = child(&bc, out); &own } };
    if o.violations.is_empty() && !c_exempt(&c.prop) && o.harness.is_empty() && b.violations.is_empty() && o.digest != b.digest {
        let a: BTreeSet<_> = o.digest.iter().collect();
        let bb: BTreeSet<_> = b.digest.iter().collect();
        let x = a.difference(&bb).next().map(|s| s.to_string()).unwrap_or_else(|| "(nothing)".into());
        let y = bb.difference(&a).next().map(|s| s.to_string()).unwrap_or_else(|| "(nothing)".into());
        o.violations.push((c.prop.clone(), format!("this schedule gives \"{}\" where the undisturbed run gives \"{}\"", x, y)));
    }
    o
}
fn c_exempt(p: &str) -> bool { !matches!(p, "C03" | "C05" | "C08") }
fn mine<'a>(o: &'a Outcome, prop: &str) -> Option<&'a str> { o.violations.iter().find(|v| v.0 == prop).map(|v| v.1.as_str()) }

fn category(m: &str) -> String {
    // the kind of violation, without the particulars
    m.chars().filter(|c| !c.is_ascii_digit()).take(24).collect()
}

fn replay_case(c: &Case, o: &Outcome) -> Case {
    let mut r = c.clone();
    r.dec = o.dec.clone();
    r.cfg.replay = 1;
    r
}

fn minimise(c: &Case, out: Out) -> Case {
    let mut best = c.clone();
    let want = match mine(&judge(c, None, out), &c.prop) { Some(m) => category(m), None => return best };
    let fails = |t: &Case| mine(&judge(t, None, out), &t.prop).map_or(false, |m| category(m) == want);
    let t0 = std::time::Instant::now();
    let budget = std::time::Duration::from_secs(60);
    // modules first: the schedule is re-derived from what remains
    let n = world::generate(c.world, &case::profile(&c.prop)).mods.len();
    for i in (0..n).rev() {
        if t0.elapsed() > budget { break; }
        if best.drop.contains(&i) { continue; }
        let mut t = best.clone();
        t.drop.insert(i);
        if fails(&t) { best = t; }
    }
    // decisions: remove chunks (ddmin)
    let mut chunk = best.dec.len().max(1);
    while chunk >= 1 && t0.elapsed() < budget {
        let mut i = 0;
        while i < best.dec.len() && t0.elapsed() < budget {
            let mut t = best.clone();
            let e = (i + chunk).min(t.dec.len());
            t.dec.drain(i..e);
            if fails(&t) { best = t; } else { i += chunk; }
        }
        if chunk == 1 { break; }
        chunk /= 2;
    }
    best
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    // the same addresses in every run, where the system allows it
    if std::env::var_os("PIPESIM_FIXED").is_none() {
        unsafe { sim::personality(0x0040000) };
        std::env::set_var("PIPESIM_FIXED", "1");
        use std::os::unix::process::CommandExt;
        let _ = std::process::Command::new("/proc/self/exe").args(&a).exec();
    }
    let out = Out::new();
    match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let (prop, seed, from, to, per) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
            let dir = &a[6];
            let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.get(7).map_or(100000, |s| s.parse().unwrap()));
            for k in from..to {
                if std::time::Instant::now() > deadline { break; }
                let w = seed.wrapping_mul(1_000_003).wrapping_add(k);
                let bc = Case::baseline(prop, w);
                let b = child(&bc, out);
                report(&bc, &b, prop, dir, out);
                if mine(&b, prop).is_some() { continue; }
                for s in 0..per {
                    let c = Case::seeded(prop, w, s);
                    let o = judge(&c, Some(&b), out);
                    report(&c, &o, prop, dir, out);
                    // the same case once more: it must be the same run
                    if (k + s) % 24 == 0 {
                        let t = child(&c, out);
                        if t.hash != o.hash || t.stats != o.stats || t.digest != o.digest { println!("H world {} sched {} is not repeatable: trace {} then {}", c.world, c.cfg.sched, o.hash, t.hash); }
                        println!("T 1");
                    }
                }
            }
        }
        Some("replay") => {
            let c = Case::parse(&std::fs::read_to_string(&a[1]).expect("cannot read the replay file")).expect("not a case file");
            let o = judge(&c, None, out);
            for (p, m) in &o.violations { println!("V {} {}", p, m); }
            for h in &o.harness { println!("H {}", h); }
            println!("trace {} {:?} {:?}", o.hash, o.stats, o.notes);
            std::process::exit(if mine(&o, &c.prop).is_some() { 1 } else { 0 });
        }
        Some("text") => {
            let c = Case::parse(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let mut w = world::generate(c.world, &case::profile(&c.prop));
            w.drop_mods(&c.drop);
            for m in &w.mods { if w.alive(m.idx) { println!(";;;; {} {}{:?} {:?}\n{}", m.path(), if w.entries.contains(&m.idx) { "entry " } else { "" }, m.src_fault, m.build_fault, w.text(m.idx).0); } }
        }
        Some("calc") => {
            // one function as a program of its own: calc WORLD MODULE X Y
            let n: Vec<u64> = a[1..3].iter().map(|x| x.parse().unwrap()).collect();
            let (x, y): (i32, i32) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let deps = if a.len() > 5 { world::generate(n[0], &case::profile("C09")).mods[n[1] as usize].calc_deps.clone() } else { vec![] };
            let c = calc::generate(n[0], n[1] as usize, &deps);
            let std = world::World::std_modules();
            let out: String = std["out"].lines().filter(|l| !l.starts_with("(no-") && !l.starts_with("(import") && !l.starts_with("(export")).map(|l| format!("{}\n", l)).collect();
            println!("; expect {}", c.eval(x, y, &|_| false, &|_, _| 0));
            println!("{}", std["calc"].lines().filter(|l| !l.starts_with("(export")).collect::<Vec<_>>().join("\n"));
            println!("(builtin-op + {{(-> I32 I32 I32)}} \"signed.add\")\n(builtin-op * {{(-> I32 I32 I32)}} \"signed.mul\")\n(builtin-op not {{(-> Bool Bool)}} \"not\")\n{}", out);
            for d in c.decls(&|_| false) { println!("{}", d); }
            println!("(emit (q{}* {} {}))", n[1], x, y);
        }
        Some("minimise") => {
            let c = Case::parse(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let m = minimise(&c, out);
            std::fs::write(&a[2], m.to_text()).unwrap();
            println!("{} decisions -> {}, {} modules dropped", c.dec.len(), m.dec.len(), m.drop.len());
        }
        _ => { eprintln!("usage: pipesim run|replay|minimise"); std::process::exit(2); }
    }
}

fn report(c: &Case, o: &Outcome, prop: &str, dir: &str, out: Out) {
    let f = if o.stats.is_empty() { String::new() } else { o.stats.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") };
    let notes = o.notes.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",");
    println!("R {} {} {} {} {} | {} | {}", c.world, c.cfg.sched, c.threads, c.backend, o.hash, f, notes);
    if std::env::var_os("PIPESIM_DIGEST").is_some() { for d in &o.digest { println!("D {}", d); } }
    for h in &o.harness { println!("H world {} sched {}: {}", c.world, c.cfg.sched, h); }
    if let Some(m) = mine(o, prop) {
        // as an explicit list of decisions, which replays without the generator
        let mut r = replay_case(c, o);
        let again = judge(&r, None, out);
        if mine(&again, prop).map(category) != mine(o, prop).map(category) { r = c.clone(); }
        let p = format!("{}/{}-{}-{}.case", dir, prop, c.world, c.cfg.sched);
        std::fs::write(&p, r.to_text()).unwrap();
        println!("VIOL {} {}", p, m);
    } else if let Some((p, m)) = o.violations.first() {
        println!("OTHER {} {} world {} sched {}", p, m, c.world, c.cfg.sched);
    }
}
