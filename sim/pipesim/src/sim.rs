//! Bindings to the simulation runtime (rt/simrt.c).
#[repr(C)]
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub sched: u64, pub fault: u64, pub hash: u64,
    pub policy: u32, pub inv: u32, pub depth: u32, pub span: u32, pub spur: u32, pub finv: u32, pub fmask: u32,
    pub max: u64, pub gc: u32, pub replay: u32,
}
#[repr(C)]
#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub points: u64, pub switches: u64, pub preempt: u64, pub waits: u64, pub wakes: u64, pub spur: u64, pub jumps: u64, pub ns: u64, pub hash: u64,
    pub threads: u32, pub ndec: u32, pub faults: u32, pub fc: [u32; 32], pub gc_allocs: u64, pub gc_runs: u64, pub gc_freed: u64,
}
#[repr(C)]
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Decision { pub tid: u32, pub kind: u32, pub n: u64, pub v: i64 }
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct OpenLog { pub file: u32, pub hard: i32, pub delivered: u64 }

pub const DK_FAULT: u32 = 4;
pub const F_NAMES: &[&str] = &["open-EACCES", "open-EMFILE", "open-EIO", "read-EIO", "read-short", "read-EINTR", "stat-fail", "open-EINTR", "stat-zero"];

extern "C" {
    pub fn sim_begin(c: *const Cfg, ov: *const Decision, n: usize, cb: extern "C" fn(i32));
    pub fn sim_end(s: *mut Stats);
    pub fn sim_decisions(n: *mut usize) -> *const Decision;
    pub fn sim_step() -> u64;
    pub fn sim_tid() -> u32;
    pub fn sim_fs_add(path: *const i8, data: *const u8, len: usize);
    pub fn sim_output(n: *mut usize) -> *const u8;
    pub fn sim_gc_threads() -> i32;
    pub fn sim_opens(n: *mut usize) -> *const OpenLog;

    pub fn fork() -> i32;
    pub fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn sim_seed_hash(h: u64);
    pub fn personality(p: u64) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn kill(p: i32, s: i32) -> i32;
}
pub fn step() -> u64 { unsafe { sim_step() } }
pub fn tid() -> u32 { unsafe { sim_tid() } }
pub fn decisions() -> Vec<Decision> {
    let mut n = 0;
    unsafe { let p = sim_decisions(&mut n); std::slice::from_raw_parts(p, n).to_vec() }
}
pub fn opens() -> Vec<OpenLog> {
    let mut n = 0;
    unsafe { let p = sim_opens(&mut n); if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() } }
}
