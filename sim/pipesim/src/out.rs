//! Report channel from a simulated run (a forked child) to the driver.
pub const SIZE: usize = 8 << 20;
#[derive(Clone, Copy)]
pub struct Out { p: *mut u8 }
unsafe impl Send for Out {}
unsafe impl Sync for Out {}
impl Out {
    pub fn new() -> Out {
        let p = unsafe { crate::sim::mmap(std::ptr::null_mut(), SIZE, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Out { p }
    }
    // plain accesses: no scheduling point may fall inside a report
    fn len(&self) -> usize { unsafe { std::ptr::read_volatile(self.p as *const usize) } }
    fn set_len(&self, n: usize) { unsafe { std::ptr::write_volatile(self.p as *mut usize, n) } }
    pub fn reset(&self) { self.set_len(0); }
    pub fn line(&self, s: &str) {
        let s = s.replace('\n', "\\n").replace(|c: char| c.is_control(), " ");
        let n = s.len() + 1;
        let at = self.len();
        if 16 + at + n > SIZE { return; }
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(16 + at), s.len());
            *self.p.add(16 + at + s.len()) = b'\n';
        }
        self.set_len(at + n);
    }
    pub fn v(&self, prop: &str, msg: &str) { self.line(&format!("V {} {}", prop, msg)); }
    pub fn lines(&self) -> Vec<String> {
        let n = self.len();
        let s = unsafe { std::slice::from_raw_parts(self.p.add(16), n) };
        String::from_utf8_lossy(s).lines().map(|x| x.to_string()).collect()
    }
}
