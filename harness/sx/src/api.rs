// The harness side of the interface (see lib.rs).
extern "C" {
    fn sx_in(bits: u32) -> u64;
    fn sx_f64() -> f64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, id: u32);
    fn sx_cover(id: u32);
    fn sx_observe(v: u64);
    fn sx_panic_ok(id: u32);
    fn sx_concretize(v: u64) -> u64;
    fn sx_close(a: f64, b: f64) -> bool;
    fn sx_param(i: u32) -> u64;
}
/// a free unsigned value of the given number of bits
#[inline(always)] pub fn bits(n: u32) -> u64 { unsafe { sx_in(n) } }
#[inline(always)] pub fn u8() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn u32() -> u32 { bits(32) as u32 }
#[inline(always)] pub fn u64() -> u64 { bits(64) }
#[inline(always)] pub fn i64() -> i64 { bits(64) as i64 }
#[inline(always)] pub fn bool() -> bool { bits(1) & 1 == 1 }
/// a free signed value of the given number of bits
#[inline(always)] pub fn int(n: u32) -> i64 { ((bits(n) << (64 - n)) as i64) >> (64 - n) }
#[inline(always)] pub fn below(n: u64) -> u64 { let b = 64 - (n - 1).leading_zeros(); let v = bits(if b == 0 { 1 } else { b }); assume(v < n); v }
#[inline(always)] pub fn range(lo: i64, hi: i64) -> i64 { lo + below((hi - lo + 1) as u64) as i64 }
/// any of the 2^64 doubles
#[inline(always)] pub fn f64() -> f64 { unsafe { sx_f64() } }
/// any finite double
#[inline(always)] pub fn finite() -> f64 { let v = f64(); assume(v.abs() < f64::INFINITY); v }
/// any double but NaN
#[inline(always)] pub fn ordered() -> f64 { let v = f64(); assume(v == v); v }
/// a small whole number as a double (sums and products of a few of them are exact)
#[inline(always)] pub fn whole(n: u32) -> f64 { int(n) as f64 }
#[inline(always)] pub fn assume(c: bool) { unsafe { sx_assume(c) } }
#[inline(always)] pub fn check(c: bool, id: u32) { unsafe { sx_assert(c, id) } }
#[inline(always)] pub fn cover(id: u32) { unsafe { sx_cover(id) } }
#[inline(always)] pub fn observe(v: u64) { unsafe { sx_observe(v) } }
#[inline(always)] pub fn observe_f64(v: f64) { observe(if v != v { 0x7ff8000000000000 } else { v.to_bits() }) }
/// from here on a panic ends the path without being a violation (0 turns that off); reaching one counts as cover 10000+id
#[inline(always)] pub fn panic_ok(id: u32) { unsafe { sx_panic_ok(id) } }
/// fork over all feasible values
#[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { sx_concretize(v) } }
#[inline(always)] pub fn choice(n: u64) -> u64 { concretize(below(n)) }
/// equal in exact arithmetic (real mode), equal within rounding when replayed natively
#[inline(always)] pub fn close(a: f64, b: f64) -> bool { unsafe { sx_close(a, b) } }
/// bound chosen by the tier
#[inline(always)] pub fn param(i: u32) -> usize { unsafe { sx_param(i) as usize } }
/// same double: equal bits, or both NaN
#[inline(always)] pub fn same(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | ((a != a) & (b != b)) }
/// numerically equal or both NaN
#[inline(always)] pub fn eqn(a: f64, b: f64) -> bool { (a == b) | ((a != a) & (b != b)) }

#[repr(C)]
pub struct Entry { pub name: *const u8, pub f: extern "C" fn() }
unsafe impl Sync for Entry {}
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $f:path),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $name() { $f() } )*
        #[no_mangle] #[used] pub static SX_TABLE: [$crate::Entry; { let mut n = 1; $( let _ = stringify!($name); n += 1; )* n }] = [
            $( $crate::Entry { name: concat!(stringify!($name), "\0").as_ptr(), f: $name }, )*
            $crate::Entry { name: core::ptr::null(), f: nothing },
        ];
        extern "C" fn nothing() {}
    };
}
