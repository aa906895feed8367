//! Harness intrinsics. Under `ksym` each call is intercepted and introduces symbolic
//! values / queries; natively (`/verif/replay`) they read one recorded assignment.
unsafe extern "C" {
    fn ks_any(bits: u32, name: *const u8, len: usize) -> u64;
    fn ks_any_f32(name: *const u8, len: usize) -> f32;
    fn ks_any_f64(name: *const u8, len: usize) -> f64;
    fn ks_choice(n: u32, name: *const u8, len: usize) -> u32;
    fn ks_assume(b: bool);
    fn ks_assert(b: bool, id: *const u8, len: usize);
    fn ks_cover(id: *const u8, len: usize);
    fn ks_note(v: u64);
    fn ks_note_f32(v: f32);
    fn ks_rt(b: bool);
    fn ks_havoc_tables(b: bool);
    fn ks_issym(v: u64) -> bool;
    fn ks_panic_ok(b: bool);
    fn ks_mix(a: u32, b: u32) -> u32;
    fn ks_concretize(v: u64) -> u64;
}
pub fn any_u64(n: &str) -> u64 { unsafe { ks_any(64, n.as_ptr(), n.len()) } }
pub fn any_u32(n: &str) -> u32 { unsafe { ks_any(32, n.as_ptr(), n.len()) as u32 } }
pub fn any_u16(n: &str) -> u16 { unsafe { ks_any(16, n.as_ptr(), n.len()) as u16 } }
pub fn any_u8(n: &str) -> u8 { unsafe { ks_any(8, n.as_ptr(), n.len()) as u8 } }
pub fn any_bool(n: &str) -> bool { unsafe { ks_any(1, n.as_ptr(), n.len()) & 1 == 1 } }
pub fn any_f32(n: &str) -> f32 { unsafe { ks_any_f32(n.as_ptr(), n.len()) } }
pub fn any_f64(n: &str) -> f64 { unsafe { ks_any_f64(n.as_ptr(), n.len()) } }
/// One of `0..n`; every value is explored as its own path.
pub fn choice(n: u32, name: &str) -> usize { unsafe { ks_choice(n, name.as_ptr(), name.len()) as usize } }
/// As `any_u64` restricted to `lo..=hi`, kept symbolic.
pub fn any_in(lo: u64, hi: u64, name: &str) -> u64 { let v = any_u64(name); assume(v >= lo && v <= hi); v }
pub fn assume(b: bool) { unsafe { ks_assume(b) } }
/// Set where a history written for another property is examined for something else: its own checks are left out.
pub static MUTE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
pub fn check(b: bool, id: &str) { if MUTE.load(core::sync::atomic::Ordering::Relaxed) { return; } unsafe { ks_assert(b, id.as_ptr(), id.len()) } }
pub fn cover(id: &str) { unsafe { ks_cover(id.as_ptr(), id.len()) } }
/// An observation compared between the symbolic run (under a model) and the native replay of that model.
pub fn note(v: u64) { unsafe { ks_note(v) } }
pub fn panic_ok(b: bool) { unsafe { ks_panic_ok(b) } }
pub fn concretize(v: u64) -> u64 { unsafe { ks_concretize(v) } }
pub fn note_f32(v: f32) { unsafe { ks_note_f32(v) } }
/// Between `rt(true)` and `rt(false)` every heap allocation or release is a violation.
pub fn rt(b: bool) { unsafe { ks_rt(b) } }
/// While on, a read at a symbolic offset of a large table yields an arbitrary value (after the bounds query).
pub fn havoc_tables(b: bool) { unsafe { ks_havoc_tables(b) } }
/// A function of two words about which ksym assumes nothing but that it is a function (natively: a hash).
pub fn mix(a: u32, b: u32) -> u32 { unsafe { ks_mix(a, b) } }
