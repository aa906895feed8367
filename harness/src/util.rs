//! Shared by the harness modules.
pub use crate::ks::*;
pub use knaster_core::typenum::*;
pub use knaster_core::*;

/// Bit pattern equality (NaN payloads aside): what "the same sample" means in the harnesses.
pub fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a != a && b != b) }
pub fn same64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a != a && b != b) }
/// A sample of a block.
pub fn rd<F: Float, B: BlockRead<Sample = F>>(b: &B, c: usize, f: usize) -> F { b.read(c, f) }
// What an application provides for the lazily built table: here there is a single thread.
#[unsafe(no_mangle)]
extern "Rust" fn _critical_section_1_0_acquire() {}
#[unsafe(no_mangle)]
extern "Rust" fn _critical_section_1_0_release(_: ()) {}
