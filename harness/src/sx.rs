//! Symbolic inputs and verdicts (provided by the symbolic executor, or by the replayer when the
//! compiled library is run natively on one concrete input).
mod ffi {
    extern "C" {
        pub fn sx_u8() -> u8;
        pub fn sx_ascii() -> u8;
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_assume(b: bool);
        pub fn sx_fail(code: u32) -> !;
        pub fn sx_cover(code: u32);
        pub fn sx_observe(v: u64);
        pub fn sx_force(v: u64) -> u64;
        pub fn sx_native() -> u32;
        pub fn sx_note(p: *const u8, n: usize);
        pub fn sx_job(e: *const u8, en: usize, a: u32, b: u32, c: u32, d: u32, p: *const u8, n: usize);
    }
}
/// any byte
#[allow(dead_code)]
pub fn byte() -> u8 {
    unsafe { ffi::sx_u8() }
}
/// any 7-bit character
pub fn ascii() -> u8 {
    unsafe { ffi::sx_ascii() }
}
/// forks into n successors
pub fn choose(n: u32) -> u32 {
    unsafe { ffi::sx_choose(n) }
}
pub fn assume(b: bool) {
    unsafe { ffi::sx_assume(b) }
}
pub fn fail(code: u32) -> ! {
    unsafe { ffi::sx_fail(code) }
}
pub fn check(b: bool, code: u32) {
    if !b {
        fail(code)
    }
}
pub fn cover(code: u32) {
    unsafe { ffi::sx_cover(code) }
}
pub fn observe(v: u64) {
    unsafe { ffi::sx_observe(v) }
}
#[allow(dead_code)]
pub fn force(v: u64) -> u64 {
    unsafe { ffi::sx_force(v) }
}
/// true only during a native replay: used to print reports
pub fn native() -> bool {
    unsafe { ffi::sx_native() != 0 }
}
#[inline(never)]
pub fn note(s: &str) {
    unsafe { ffi::sx_note(s.as_ptr(), s.len()) }
}
pub fn job(entry: &str, p: [u32; 4], label: &str) {
    unsafe { ffi::sx_job(entry.as_ptr(), entry.len(), p[0], p[1], p[2], p[3], label.as_ptr(), label.len()) }
}
#[macro_export]
macro_rules! note {
    ($($t:tt)*) => { if $crate::sx::native() { $crate::sx::note(&format!($($t)*)) } };
}
