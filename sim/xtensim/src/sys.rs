//! The simulated system: mmap/mprotect/munmap, open/write of files under a scratch directory, getrandom.
//! The engine's calls reach these definitions because the executable's symbols come before libc's.
use libc::{c_int, c_long, c_void, off_t, size_t, ssize_t};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.wrapping_mul(0xd1b5_4a32_d192_ed03) ^ 0x5851_f42d_4c95_7f2d);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, per_mille: u64) -> bool {
        self.below(1000) < per_mille
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len() as u64) as usize;
        &s[i]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Map {
    pub len: usize,
    pub prot: c_int,
    pub first: c_int,
}

pub const KINDS: [&str; 13] = [
    "mmap ENOMEM", "mmap EINVAL", "mmap EAGAIN", "mprotect ENOMEM", "mprotect EACCES", "placed far away", "open EACCES", "open ENOSPC",
    "write ENOSPC", "write EIO", "short write", "write EINTR", "open EINTR",
];

pub struct Sim {
    pub on: bool,
    pub rng: Rng,
    pub rnd: Rng,
    pub rate: [u64; 8], // per mille: mmap, mprotect, (unused), open, write, short, eintr
    pub place: u64,
    pub maps: BTreeMap<usize, Map>,
    pub next: usize,
    pub op: usize,
    pub call: usize,
    pub fixed: Option<Vec<(usize, usize, usize, u64)>>, // op, call, kind, value
    pub log: Vec<(usize, usize, usize, u64)>,
    pub counts: [u64; 13],
    pub restore_failed: bool,
    pub op_faults: usize,
    pub op_hard: usize,
    pub anyplace: bool,
    pub calls: u64,
    pub fds: Vec<c_int>,
    pub scratch: Vec<u8>,
    pub trace: Vec<String>,
    pub tracing: bool,
}

struct Cell(UnsafeCell<Option<Sim>>);
unsafe impl Sync for Cell {}
static SIM: Cell = Cell(UnsafeCell::new(None));

/// One world runs at a time, on one thread; everything else in the process is asleep.
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().unwrap() }
}
fn live() -> bool {
    unsafe { (*SIM.0.get()).as_ref().map_or(false, |s| s.on) }
}
pub fn install(s: Sim) {
    unsafe { *SIM.0.get() = Some(s) };
}

impl Sim {
    pub fn new(seed: u64) -> Sim {
        Sim {
            on: false, rng: Rng::new(seed, 77), rnd: Rng::new(seed, 78), rate: [0; 8], place: 0, maps: BTreeMap::new(), next: 0x4000_0000, op: 0, call: 0,
            fixed: None, log: vec![], counts: [0; 13], restore_failed: false, op_faults: 0, op_hard: 0, anyplace: false, calls: 0, fds: vec![], scratch: vec![],
            trace: vec![], tracing: false,
        }
    }
    pub fn begin_op(&mut self, op: usize) {
        self.op = op;
        self.call = 0;
        self.op_faults = 0;
        self.op_hard = 0;
        self.restore_failed = false;
    }
    fn say(&mut self, s: String) {
        if self.tracing {
            self.trace.push(s);
        }
    }
    /// A fault decision: `kinds` with their rates; returns the kind chosen and a value.
    fn decide(&mut self, kinds: &[(usize, u64)], max: u64) -> Option<(usize, u64)> {
        self.calls += 1;
        let (op, call) = (self.op, self.call);
        self.call += 1;
        let r = match &self.fixed {
            Some(f) => f.iter().find(|d| d.0 == op && d.1 == call && kinds.iter().any(|k| k.0 == d.2)).map(|d| (d.2, d.3)),
            None => {
                // every decision is a function of the world's seed, the operation and the call within it
                let mut r = Rng::new(self.rnd.0, ((op as u64) << 20) | call as u64);
                let mut out = None;
                for &(k, rate) in kinds {
                    if r.chance(rate) {
                        out = Some((k, r.below(max.max(1))));
                        break;
                    }
                }
                out
            }
        };
        if let Some((k, v)) = r {
            self.log.push((op, call, k, v));
            self.counts[k] += 1;
            self.op_faults += 1;
            if k != 10 && k != 11 && k != 12 && k != 5 {
                self.op_hard += 1;
            }
        }
        r
    }
    pub fn find(&self, a: usize) -> Option<(usize, Map)> {
        self.maps.range(..=a).next_back().filter(|(b, m)| a < **b + m.len).map(|(b, m)| (*b, *m))
    }
}

unsafe fn raw_mmap(a: usize, len: usize, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> isize {
    libc::syscall(libc::SYS_mmap, a, len, prot as c_long, flags as c_long, fd as c_long, off) as isize
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}

/// Places a mapping where the simulation wants it, never over something else.
pub fn place(len: usize, prot: c_int, low: bool) -> Option<usize> {
    let s = sim();
    let len = (len + 4095) & !4095;
    for n in 0..400 {
        let a = if !low {
            0x100_0000_0000 + (s.rng.below(1 << 20) as usize) * 4096 * 64
        } else {
            match if n > 100 { 1 } else if s.place == 4 { s.rng.below(4) } else { s.place } {
                0 => s.next,
                1 => 0x4000_0000 + (s.rng.below((0x4000_0000 - len as u64) / 4096) as usize) * 4096,
                2 => 0x8000_0000 - len - (s.rng.below(64) as usize) * 4096,
                _ => 0x4000_0000 + (s.rng.below(64) as usize) * 4096,
            }
        };
        s.next = s.next.max(0x4000_0000) + 4096 * (1 + s.rng.below(3) as usize);
        if low && (a < 0x4000_0000 || a + len > 0x8000_0000) {
            s.next = 0x4000_0000;
            continue;
        }
        let r = unsafe { raw_mmap(a, len, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0) };
        if r == a as isize {
            s.maps.insert(a, Map { len, prot, first: prot });
            if s.place == 0 || low {
                s.next = a + len;
            }
            return Some(a);
        } else if r > 0 {
            unsafe { libc::syscall(libc::SYS_munmap, r, len) };
        }
    }
    None
}

#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    if !live() || fd != -1 || !addr.is_null() {
        return raw_mmap(addr as usize, len, prot, flags, fd, off) as *mut c_void;
    }
    let s = sim();
    let q = s.rate[0];
    if let Some((k, _)) = s.decide(&[(0, q), (1, q / 4), (2, q / 4)], 1) {
        s.say(format!("    mmap({}, {:#x}): {}", len, prot, KINDS[k]));
        fail([libc::ENOMEM, libc::EINVAL, libc::EAGAIN][k]);
        return usize::MAX as *mut c_void;
    }
    if len == 0 {
        fail(libc::EINVAL);
        return usize::MAX as *mut c_void;
    }
    // MAP_32BIT promises the low two gigabytes; without it the system may place a mapping anywhere
    let low = flags & libc::MAP_32BIT != 0;
    if !low {
        s.anyplace = true;
        s.counts[5] += 1;
    }
    match place(len, prot, low) {
        Some(a) => {
            s.say(format!("    mmap({}, {:#x}) = {:#x}", len, prot, a));
            a as *mut c_void
        }
        None => {
            fail(libc::ENOMEM);
            usize::MAX as *mut c_void
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    mmap(addr, len, prot, flags, fd, off)
}

#[no_mangle]
pub unsafe extern "C" fn mprotect(addr: *mut c_void, len: size_t, prot: c_int) -> c_int {
    if live() {
        let s = sim();
        if let Some((b, m)) = s.find(addr as usize) {
            let back = prot & libc::PROT_WRITE == 0 && m.prot & libc::PROT_WRITE != 0;
            // putting a protection back fails less often: nothing more is learnt from the engine after that
            let q = if s.restore_failed { 0 } else if back { s.rate[1] / 6 } else { s.rate[1] };
            if let Some((k, _)) = s.decide(&[(3, q), (4, q / 3)], 1) {
                if back {
                    s.restore_failed = true;
                }
                s.say(format!("    mprotect({:#x}, {}, {:#x}): {}", addr as usize, len, prot, KINDS[k]));
                return fail([libc::ENOMEM, libc::EACCES][k - 3]);
            }
            s.say(format!("    mprotect({:#x}, {}, {:#x})", addr as usize, len, prot));
            let r = libc::syscall(libc::SYS_mprotect, addr, len, prot as c_long) as c_int;
            if r == 0 && b == addr as usize {
                s.maps.get_mut(&b).unwrap().prot = prot;
            }
            return r;
        }
    }
    libc::syscall(libc::SYS_mprotect, addr, len, prot as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if live() {
        let s = sim();
        if s.maps.contains_key(&(addr as usize)) {
            s.say(format!("    munmap({:#x}, {})", addr as usize, len));
            s.maps.remove(&(addr as usize));
        }
    }
    libc::syscall(libc::SYS_munmap, addr, len) as c_int
}

pub fn unmap_all() {
    let s = sim();
    for (a, m) in std::mem::take(&mut s.maps) {
        unsafe { libc::syscall(libc::SYS_munmap, a, m.len) };
    }
}

/// What the hash maps' random state is made from.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    if live() {
        let s = sim();
        let mut r = Rng::new(s.rnd.0, 0x9999);
        for i in 0..len {
            *(buf as *mut u8).add(i) = r.next() as u8;
        }
        return len as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t
}

unsafe fn under_scratch(path: *const libc::c_char) -> bool {
    let s = sim();
    !s.scratch.is_empty() && std::ffi::CStr::from_ptr(path).to_bytes().starts_with(&s.scratch)
}

unsafe fn do_open(path: *const libc::c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    if live() && under_scratch(path) {
        let s = sim();
        let q = s.rate[3];
        if let Some((k, _)) = s.decide(&[(6, q), (7, q / 2), (12, s.rate[6])], 1) {
            return fail(match k { 6 => libc::EACCES, 7 => libc::ENOSPC, _ => libc::EINTR });
        }
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags as c_long, mode as c_long) as c_int;
        if fd >= 0 {
            s.fds.push(fd);
        }
        return fd;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags as c_long, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if live() {
        sim().fds.retain(|f| *f != fd);
    }
    libc::syscall(libc::SYS_close, fd as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let mut n = len;
    if live() && len > 0 && sim().fds.contains(&fd) {
        let s = sim();
        let (q, sh, ei) = (s.rate[4], s.rate[5], s.rate[6]);
        match s.decide(&[(8, q), (9, q / 2), (10, sh), (11, ei)], len as u64) {
            Some((8, _)) => return fail(libc::ENOSPC) as ssize_t,
            Some((9, _)) => return fail(libc::EIO) as ssize_t,
            Some((11, _)) => return fail(libc::EINTR) as ssize_t,
            Some((10, v)) => n = v.max(1) as usize,
            _ => {}
        }
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if live() && cnt > 0 && sim().fds.contains(&fd) {
        // one write per call: a short vectored write is always possible
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd as c_long, iov, cnt as c_long) as ssize_t
}
