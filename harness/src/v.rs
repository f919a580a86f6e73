//! Interface between the harnesses and the symbolic executor (or the native replayer).
extern "C" {
    fn __vsym() -> i64;
    fn __vsymbool() -> bool;
    fn __vsymrange(lo: i64, hi: i64) -> i64;
    fn __vparam(i: u64) -> i64;
    fn __vassume(b: bool);
    fn __vcheck(b: bool, p: *const u8, n: usize);
    fn __vcover(p: *const u8, n: usize);
    fn __vobserve(v: i64);
    fn __vmaypanic(b: bool);
    fn __vchoose(n: u64) -> u64;
}
/// any 64-bit integer
#[inline(always)] pub fn sym() -> i64 { unsafe { __vsym() } }
/// any boolean
#[inline(always)] pub fn sbool() -> bool { unsafe { __vsymbool() } }
/// any integer in lo..=hi
#[inline(always)] pub fn range(lo: i64, hi: i64) -> i64 { unsafe { __vsymrange(lo, hi) } }
/// concrete job parameter
#[inline(always)] pub fn param(i: u64) -> i64 { unsafe { __vparam(i) } }
#[inline(always)] pub fn assume(b: bool) { unsafe { __vassume(b) } }
#[inline(always)] pub fn check(b: bool, m: &'static str) { unsafe { __vcheck(b, m.as_ptr(), m.len()) } }
#[inline(always)] pub fn cover(m: &'static str) { unsafe { __vcover(m.as_ptr(), m.len()) } }
#[inline(always)] pub fn cover_if(b: bool, m: &'static str) { if b { cover(m) } }
#[inline(always)] pub fn observe(v: i64) { unsafe { __vobserve(v) } }
#[inline(always)] pub fn may_panic(b: bool) { unsafe { __vmaypanic(b) } }
/// every value of 0..n, each on its own path
#[inline(always)] pub fn choose(n: usize) -> usize { unsafe { __vchoose(n as u64) as usize } }
/// the value is known to be concrete (native: always)
#[inline(always)] pub fn check_eq_i(a: i128, b: i128, m: &'static str) { check(a == b, m) }
