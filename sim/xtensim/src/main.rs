#![allow(invalid_runtime_symbol_definitions)]
mod elfw;
mod gen;
mod jit;
mod sys;

use std::fmt::Write as _;

/// One world: what to run and, for a replay, every decision.
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub skip: Vec<usize>,
    pub fixed: Option<Vec<(usize, usize, usize, u64)>>,
}

impl Case {
    fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# xtensim case");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        for k in &self.skip {
            let _ = writeln!(s, "skip {}", k);
        }
        if let Some(f) = &self.fixed {
            let _ = writeln!(s, "fixed");
            for (o, c, k, v) in f {
                let _ = writeln!(s, "fault {} {} {} {} # {}", o, c, k, v, sys::KINDS[*k]);
            }
        }
        s
    }
    fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("prop") => c.prop = w[1].into(),
                Some("seed") => c.seed = w[1].parse().unwrap(),
                Some("skip") => c.skip.push(w[1].parse().unwrap()),
                Some("fixed") => c.fixed = Some(c.fixed.unwrap_or_default()),
                Some("fault") => {
                    let n: Vec<u64> = w[1..5].iter().map(|x| x.parse().unwrap()).collect();
                    c.fixed.get_or_insert_with(Vec::new).push((n[0] as usize, n[1] as usize, n[2] as usize, n[3]));
                }
                _ => {}
            }
        }
        c
    }
}

/// What one world did.
#[derive(Default, Clone)]
pub struct Outcome {
    pub violation: Option<String>,
    pub digest: u64,
    pub ops: u64,
    pub n: [u64; 8], // loads ok, loads refused, registers, calls, relocations checked, shape of the history, unused, panics at a failed restore
    pub trace: Vec<String>,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

extern "C" fn on_signal(sig: libc::c_int) {
    let m: &[u8] = if sig == libc::SIGALRM { b"\nHANG\n" } else { b"\nCRASH\n" };
    unsafe {
        libc::syscall(libc::SYS_write, 1, m.as_ptr(), m.len());
        libc::_exit(if sig == libc::SIGALRM { 41 } else { 40 });
    }
}

fn handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGALRM, libc::SIGABRT] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

/// Runs one world on a fresh thread (fresh hash seeds) and returns its outcome and the faults that were injected.
fn world(case: &Case, scratch: &str, tracing: bool) -> (Outcome, Vec<(usize, usize, usize, u64)>, [u64; 13], u64) {
    let mut s = sys::Sim::new(case.seed);
    s.fixed = case.fixed.clone();
    s.scratch = scratch.as_bytes().to_vec();
    s.tracing = tracing;
    sys::install(s);
    let (c, sc) = (case.clone(), scratch.to_string());
    unsafe { libc::alarm(8) };
    let out = std::thread::Builder::new()
        .spawn(move || {
            // a stack of its own for the signal handlers, so that a runaway recursion is reported too
            let mut alt = vec![0u8; 65536];
            let ss = libc::stack_t { ss_sp: alt.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: alt.len() };
            unsafe { libc::sigaltstack(&ss, std::ptr::null_mut()) };
            std::mem::forget(alt);
            match c.prop.as_str() {
                "J01" => jit::run(&c),
                _ => elfw::run(&c, &sc),
            }
        })
        .unwrap()
        .join();
    unsafe { libc::alarm(0) };
    let s = sys::sim();
    s.on = false;
    sys::unmap_all();
    let out = match out {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some("HARNESS the simulator itself panicked".into()), ..Default::default() },
    };
    (out, s.log.clone(), s.counts, s.calls)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    handlers();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("XT_PANIC").is_ok() {
            eprintln!("{}", i);
        }
    }));
    match a.get(1).map(|s| s.as_str()) {
        // run PROP SEED FROM TO SCRATCH: worlds FROM..TO
        Some("run") => {
            let base: u64 = a[3].parse().unwrap();
            for w in a[4].parse::<u64>().unwrap()..a[5].parse::<u64>().unwrap() {
                let case = Case { prop: a[2].clone(), seed: base.wrapping_mul(1_000_003).wrapping_add(w), ..Default::default() };
                println!("W {}", case.seed);
                let (o, log, counts, calls) = world(&case, &a[6], false);
                let c: Vec<String> = counts.iter().map(|x| x.to_string()).collect();
                let n: Vec<String> = o.n.iter().map(|x| x.to_string()).collect();
                println!("S {:016x} {} {} {} {} {}", o.digest, o.ops, calls, log.len(), n.join(" "), c.join(" "));
                if let Some(v) = o.violation {
                    println!("V {}", v.replace('\n', " "));
                    print!("{}", Case { fixed: Some(log), ..case }.text().lines().map(|l| format!("C {}\n", l)).collect::<String>());
                }
            }
            println!("DONE");
        }
        Some("replay") => {
            let case = Case::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let quiet = a.get(4).map_or(false, |x| x == "quiet");
            println!("W {}", case.seed);
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            let (o, log, _, _) = world(&case, &a[3], !quiet);
            for t in &o.trace {
                println!("T {}", t);
            }
            println!("S {:016x} {}", o.digest, o.ops);
            if let Some(v) = o.violation {
                println!("V {}", v.replace('\n', " "));
            }
            print!("{}", Case { fixed: Some(log), ..case }.text().lines().map(|l| format!("C {}\n", l)).collect::<String>());
            println!("DONE");
        }
        _ => {
            eprintln!("usage: xtensim run PROP SEED FROM TO SCRATCH | replay FILE SCRATCH [quiet]");
            std::process::exit(2);
        }
    }
}
