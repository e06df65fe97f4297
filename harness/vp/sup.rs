//! Symbolic-value intrinsics. In the engine they are symbols interpreted by the symbolic executor,
//! in a native replay they are the C functions of replay.c.
extern "C" {
    fn ocg_any_u8(tag: u32) -> u8;
    fn ocg_any_u16(tag: u32) -> u16;
    fn ocg_any_u32(tag: u32) -> u32;
    fn ocg_any_i32(tag: u32) -> i32;
    fn ocg_any_u64(tag: u32) -> u64;
    fn ocg_any_f32(tag: u32) -> f32;
    fn ocg_any_f64(tag: u32) -> f64;
    fn ocg_pos_f32(tag: u32, lo: f32, hi: f32) -> f32;
    fn ocg_conc_u64(v: u64) -> u64;
    fn ocg_in_engine() -> u32;
    fn ocg_assume(b: bool);
    fn ocg_assert(b: bool, id: u32);
    fn ocg_cover(id: u32);
    fn ocg_debug(v: u64);
}
pub const THOROUGH: bool = cfg!(vp_thorough);
pub fn any_u8(t: u32) -> u8 { unsafe { ocg_any_u8(t) } }
pub fn any_u16(t: u32) -> u16 { unsafe { ocg_any_u16(t) } }
pub fn any_u32(t: u32) -> u32 { unsafe { ocg_any_u32(t) } }
pub fn any_i32(t: u32) -> i32 { unsafe { ocg_any_i32(t) } }
pub fn any_u64(t: u32) -> u64 { unsafe { ocg_any_u64(t) } }
pub fn any_f32(t: u32) -> f32 { unsafe { ocg_any_f32(t) } }
pub fn any_f64(t: u32) -> f64 { unsafe { ocg_any_f64(t) } }
/// A float in lo..=hi, 0 <= lo: the engine knows its sign and that it is finite.
pub fn pos_f32(t: u32, lo: f32, hi: f32) -> f32 { unsafe { ocg_pos_f32(t, lo, hi) } }
/// Concretise: every feasible value is explored, on a path of its own.
pub fn conc(v: u64) -> u64 { unsafe { ocg_conc_u64(v) } }
pub fn in_engine() -> bool { unsafe { ocg_in_engine() != 0 } }
pub fn assume(b: bool) { unsafe { ocg_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { ocg_assert(b, id) } }
pub fn cover(id: u32) { unsafe { ocg_cover(id) } }
pub fn dbg(v: u64) { unsafe { ocg_debug(v) } }
/// Symbolic value in lo..=hi.
pub fn range_i32(t: u32, lo: i32, hi: i32) -> i32 { let v = any_i32(t); assume(v >= lo && v <= hi); v }
pub fn range_u64(t: u32, lo: u64, hi: u64) -> u64 { let v = any_u64(t); assume(v >= lo && v <= hi); v }
/// 0..n, one path per value.
pub fn pick(t: u32, n: u64) -> usize { let v = any_u8(t); assume((v as u64) < n); conc(v as u64) as usize }
/// A finite float in lo..=hi.
pub fn range_f32(t: u32, lo: f32, hi: f32) -> f32 { let v = any_f32(t); assume(v >= lo && v <= hi); v }
/// Bit equality, with all NaNs equal.
pub fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
