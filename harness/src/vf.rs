//! Thin safe wrappers over the engine's harness interface.
#![allow(dead_code)]
use std::ffi::c_char;
unsafe extern "C" {
    fn vf_sym(p: *mut u8, n: usize, name: *const c_char);
    fn vf_assume(c: i32);
    fn vf_assert(c: i32, m: *const c_char);
    fn vf_cover(m: *const c_char);
    fn vf_expect(m: *const c_char);
    fn vf_out(v: u64);
    fn vf_param(k: i32, d: i64) -> i64;
    fn vf_concretize(v: u64) -> u64;
    fn vf_allow_panic(c: i32);
    fn vf_end();
    fn vf_log(m: *const c_char, v: u64);
}
fn cs(m: &'static str) -> *const c_char {
    debug_assert!(m.ends_with('\0'));
    m.as_ptr() as *const c_char
}
pub fn bytes_z(b: &mut [u8], n: &'static str) { unsafe { vf_sym(b.as_mut_ptr(), b.len(), cs(n)) } }
pub fn u8_z(n: &'static str) -> u8 { let mut b = [0u8; 1]; bytes_z(&mut b, n); b[0] }
pub fn u16_z(n: &'static str) -> u16 { let mut b = [0u8; 2]; bytes_z(&mut b, n); u16::from_le_bytes(b) }
pub fn u32_z(n: &'static str) -> u32 { let mut b = [0u8; 4]; bytes_z(&mut b, n); u32::from_le_bytes(b) }
pub fn u64_z(n: &'static str) -> u64 { let mut b = [0u8; 8]; bytes_z(&mut b, n); u64::from_le_bytes(b) }
/// symbolic value in 0..n, forked into n concrete cases
pub fn choose_z(n: u64, nm: &'static str) -> u64 {
    let v = u8_z(nm) as u64;
    assume(v < n);
    conc(v)
}
/// symbolic value in 0..n, kept symbolic
pub fn below_z(n: u64, nm: &'static str) -> u64 {
    let v = u8_z(nm) as u64;
    assume(v < n);
    v
}
pub fn bool_z(nm: &'static str) -> bool { choose_z(2, nm) == 1 }
pub fn assume(c: bool) { unsafe { vf_assume(c as i32) } }
pub fn assert_z(c: bool, m: &'static str) { unsafe { vf_assert(c as i32, cs(m)) } }
pub fn cover_z(m: &'static str) { unsafe { vf_cover(cs(m)) } }
pub fn expect_z(m: &'static str) { unsafe { vf_expect(cs(m)) } }
pub fn out(v: u64) { unsafe { vf_out(v) } }
pub fn param(k: i32, d: i64) -> i64 { unsafe { vf_param(k, d) } }
pub fn conc(v: u64) -> u64 { unsafe { vf_concretize(v) } }
pub fn allow_panic(c: bool) { unsafe { vf_allow_panic(c as i32) } }
pub fn end() -> ! { unsafe { vf_end() }; loop {} }
pub fn log_z(m: &'static str, v: u64) { unsafe { vf_log(cs(m), v) } }

#[macro_export]
macro_rules! z { ($s:expr) => { concat!($s, "\0") }; }
#[macro_export]
macro_rules! check { ($c:expr, $m:expr) => { $crate::vf::assert_z($c, concat!($m, "\0")) }; }
#[macro_export]
macro_rules! cover { ($m:expr) => { $crate::vf::cover_z(concat!($m, "\0")) }; }
#[macro_export]
macro_rules! expect { ($($m:expr),* $(,)?) => { $( $crate::vf::expect_z(concat!($m, "\0")); )* }; }
#[macro_export]
macro_rules! log { ($m:expr, $v:expr) => { $crate::vf::log_z(concat!($m, "\0"), $v as u64) }; }
