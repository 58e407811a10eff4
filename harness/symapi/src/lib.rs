//! Interface between harness code and the symbolic executor.  Without the feature `native` the
//! functions are left undefined and interpreted by the executor; with it, they replay the values
//! of one counterexample (file named by RB_REPLAY) against the natively compiled real code.
use std::cell::UnsafeCell;

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_var(bits: u32, name: *const u8, len: usize, lo: u64, hi: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_fail(m: *const u8, len: usize) -> !;
    fn sym_reach(m: *const u8, len: usize);
    fn sym_log(m: *const u8, len: usize, v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_param(m: *const u8, len: usize, d: u64) -> u64;
}

#[cfg(feature = "native")]
mod native {
    use std::io::BufRead;
    pub struct St { pub vals: Vec<(String, u32, u64)>, pub pos: usize, pub params: Vec<(String, u64)>, pub init: bool }
    pub static mut ST: St = St { vals: vec![], pos: 0, params: vec![], init: false };
    fn out(s: &str) { unsafe { extern "C" { fn syscall(n: i64, ...) -> i64; } syscall(1, 2i64, s.as_ptr(), s.len()); } }
    pub fn die(code: i32, s: String) -> ! { out(&s); out("\n"); unsafe { extern "C" { fn _exit(c: i32) -> !; } _exit(code) } }
    #[allow(static_mut_refs)]
    pub fn st() -> &'static mut St {
        unsafe {
            if !ST.init { die(9, "replay values not loaded".into()) }
            &mut ST
        }
    }
    #[allow(static_mut_refs)]
    pub fn load() {
        let p = std::env::var("RB_REPLAY").expect("RB_REPLAY");
        let f = std::io::BufReader::new(std::fs::File::open(p).expect("replay file"));
        for l in f.lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split('\t').collect();
            if w.len() == 4 && w[0] == "v" { unsafe { ST.vals.push((w[1].to_string(), w[2].parse().unwrap(), w[3].parse().unwrap())) } }
            if w.len() == 3 && w[0] == "p" { unsafe { ST.params.push((w[1].to_string(), w[2].parse().unwrap())) } }
        }
        unsafe { ST.init = true }
    }
    pub fn var(bits: u32, name: &str) -> u64 {
        let s = st();
        let i = s.pos;
        s.pos += 1;
        match s.vals.get(i) {
            Some((n, b, v)) => { if n != name || *b != bits { die(8, format!("REPLAY-DIVERGED at {}: expected {} got {}", i, n, name)) } *v }
            None => 0,
        }
    }
    pub fn log(m: &str, v: u64) { if std::env::var_os("RB_LOG").is_some() { out(&format!("log: {} = {}\n", m, v)) } }
}
#[cfg(feature = "native")]
pub fn native_load() { native::load() }
#[cfg(not(feature = "native"))]
pub fn native_load() {}

#[inline(always)]
pub fn var(name: &str, bits: u32) -> u64 {
    #[cfg(not(feature = "native"))]
    unsafe { sym_var(bits, name.as_ptr(), name.len(), 0, u64::MAX) }
    #[cfg(feature = "native")]
    { native::var(bits, name) }
}
pub fn u8(name: &str) -> u8 { var(name, 8) as u8 }
pub fn u16(name: &str) -> u16 { var(name, 16) as u16 }
pub fn u32(name: &str) -> u32 { var(name, 32) as u32 }
pub fn u64(name: &str) -> u64 { var(name, 64) }
pub fn bool(name: &str) -> bool { var(name, 1) != 0 }
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(u8(name)); } v }
/// symbolic value in lo..=hi
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let bits = if hi < 256 { 8 } else if hi < 65536 { 16 } else if hi < 1 << 32 { 32 } else { 64 };
    #[cfg(not(feature = "native"))]
    unsafe { sym_var(bits, name.as_ptr(), name.len(), lo, hi) }
    #[cfg(feature = "native")]
    { let v = native::var(bits, name); if v == 0 && lo > 0 { lo } else { v } }
}
/// value in 0..n decided before execution goes on (every feasible value is explored)
pub fn choose(name: &str, n: usize) -> usize { if n <= 1 { return 0; } concretize(range(name, 0, n as u64 - 1)) as usize }
#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(not(feature = "native"))]
    unsafe { sym_assume(c) }
    #[cfg(feature = "native")]
    { if !c { native::die(7, "REPLAY-ASSUME-FALSE".to_string()) } }
}
pub fn fail(m: &str) -> ! {
    #[cfg(not(feature = "native"))]
    unsafe { sym_fail(m.as_ptr(), m.len()) }
    #[cfg(feature = "native")]
    { native::die(101, format!("REPLAY-FAIL: {}", m)) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) { if !c { fail(m) } }
pub fn reach(m: &str) {
    #[cfg(not(feature = "native"))]
    unsafe { sym_reach(m.as_ptr(), m.len()) }
    #[cfg(feature = "native")]
    { native::log(m, 0) }
}
pub fn log(m: &str, v: u64) {
    #[cfg(not(feature = "native"))]
    unsafe { sym_log(m.as_ptr(), m.len(), v) }
    #[cfg(feature = "native")]
    { native::log(m, v) }
}
pub fn concretize(v: u64) -> u64 {
    #[cfg(not(feature = "native"))]
    unsafe { sym_concretize(v) }
    #[cfg(feature = "native")]
    { v }
}
pub fn param(name: &str, default: u64) -> u64 {
    #[cfg(not(feature = "native"))]
    unsafe { sym_param(name.as_ptr(), name.len(), default) }
    #[cfg(feature = "native")]
    { native::st().params.iter().find(|p| p.0 == name).map(|p| p.1).unwrap_or(default) }
}
/// end this path silently (outside the stated bounds)
pub fn stop() -> ! { assume(false); loop { core::hint::spin_loop() } }

/// single-threaded global cell used by the environment models
pub struct Global<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new() -> Self { Global(UnsafeCell::new(None)) }
    pub fn set(&self, v: T) { unsafe { *self.0.get() = Some(v) } }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { (*self.0.get()).as_mut().expect("model not set") } }
    #[allow(clippy::mut_from_ref)]
    pub fn opt(&self) -> &mut Option<T> { unsafe { &mut *self.0.get() } }
}
