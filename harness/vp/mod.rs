//! Harness side of the symbolic checks; compiled together with a copy of the code under test.
#![allow(dead_code, unused_imports, unused_variables)]
pub use symapi::*;
pub struct NullLog;
impl log::Log for NullLog { fn enabled(&self, _m: &log::Metadata) -> bool { true } fn log(&self, _r: &log::Record) {} fn flush(&self) {} }
static LOGGER: NullLog = NullLog;
pub mod bref;
pub mod env;
pub mod sess;
include!(concat!(env!("RB_VP"), "/select.rs"));

#[no_mangle]
pub extern "C" fn sym_main() {
    // log statements evaluate their arguments, as they do in the service
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Debug);
    prop::run();
}
#[cfg(feature = "native")]
mod native {
    struct Lim(::std::alloc::System);
    unsafe impl ::std::alloc::GlobalAlloc for Lim {
        unsafe fn alloc(&self, l: ::std::alloc::Layout) -> *mut u8 { if l.size() > 1 << 30 { ::std::eprintln!("REPLAY-FAIL: allocation of {} bytes", l.size()); ::std::process::exit(101) } self.0.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: ::std::alloc::Layout) { self.0.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Lim = Lim(::std::alloc::System);
    #[no_mangle]
    pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
        symapi::native_load();
        super::sym_main();
        ::std::eprintln!("REPLAY-END");
        0
    }
}
