// Harness API. The symbolic executor intercepts these symbols; natively rt/rt.c replays values.
#[allow(dead_code)]
pub mod v {
    extern "C" {
        fn vsym_u8() -> u8;
        fn vsym_u16() -> u16;
        fn vsym_u32() -> u32;
        fn vsym_u64() -> u64;
        fn vsym_bool() -> bool;
        fn vsym_range(lo: u64, hi: u64) -> u64;
        fn vsym_int(lo: i64, hi: i64) -> i64;
        fn vsym_dyadic(lo: i64, hi: i64, shift: u32) -> f32;
        fn vsym_f32() -> f32;
        fn vsym_f64() -> f64;
        fn vassume(c: bool);
        fn vassert_(c: bool, p: *const u8, n: usize);
        fn vcover(id: u32);
        fn vobserve(v: u64);
        fn vobserve_f32(v: f32);
        fn vpanic_ok(b: bool);
        fn vparam_(p: *const u8, n: usize, default: u64) -> u64;
        fn vconcrete(x: u64) -> u64;
        fn vlog_(p: *const u8, n: usize, v: u64);
        fn vis_symbolic() -> bool;
        fn vallocated() -> u64;
        fn vend();
    }
    /// Any byte / word / bool (bit-vector variable).
    pub fn u8() -> u8 { unsafe { vsym_u8() } }
    pub fn u16() -> u16 { unsafe { vsym_u16() } }
    pub fn u32() -> u32 { unsafe { vsym_u32() } }
    pub fn u64() -> u64 { unsafe { vsym_u64() } }
    pub fn bool() -> bool { unsafe { vsym_bool() } }
    /// Any value in lo..=hi (bit-vector variable).
    pub fn range(lo: u64, hi: u64) -> u64 { unsafe { vsym_range(lo, hi) } }
    pub fn below(n: usize) -> usize { range(0, n as u64 - 1) as usize }
    /// Any value in lo..=hi, encoded in integer arithmetic.
    pub fn int(lo: i64, hi: i64) -> i64 { unsafe { vsym_int(lo, hi) } }
    /// Any f32 of the form n / 2^shift with lo <= n <= hi, encoded in exact integer arithmetic.
    pub fn dyadic(lo: i64, hi: i64, shift: u32) -> f32 { unsafe { vsym_dyadic(lo, hi, shift) } }
    /// Any f32 bit pattern (floating-point theory).
    pub fn f32() -> f32 { unsafe { vsym_f32() } }
    pub fn f64() -> f64 { unsafe { vsym_f64() } }
    pub fn assume(c: bool) { unsafe { vassume(c) } }
    pub fn check(c: bool, msg: &'static str) { unsafe { vassert_(c, msg.as_ptr(), msg.len()) } }
    /// Reachability witness: the driver fails the run if a declared witness was never reached.
    pub fn cover(id: u32) { unsafe { vcover(id) } }
    pub fn observe(x: u64) { unsafe { vobserve(x) } }
    pub fn observe_f32(x: f32) { unsafe { vobserve_f32(x) } }
    /// From here on a panic ends the path without being a violation.
    pub fn panic_ok(b: bool) { unsafe { vpanic_ok(b) } }
    pub fn param(name: &'static str, default: u64) -> u64 { unsafe { vparam_(name.as_ptr(), name.len(), default) } }
    /// Splits the path so that the value becomes concrete.
    pub fn concrete(x: u64) -> u64 { unsafe { vconcrete(x) } }
    pub fn log(name: &'static str, x: u64) { unsafe { vlog_(name.as_ptr(), name.len(), x) } }
    pub fn is_symbolic() -> bool { unsafe { vis_symbolic() } }
    pub fn allocated() -> u64 { unsafe { vallocated() } }
    pub fn end() -> ! { unsafe { vend() }; loop {} }
    /// Picks one of the elements; the path splits.
    pub fn pick(n: usize) -> usize { concrete(range(0, n as u64 - 1)) as usize }
    /// An ASCII digit (integer-encoded byte).
    pub fn digit() -> u8 { (int(0, 9) + 48) as u8 }
}
