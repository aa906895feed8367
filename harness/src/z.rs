//! `Z`: a sample type for which addition, subtraction and multiplication are exact and every other
//! operation is an uninterpreted function of its operands in order. Generic code instantiated
//! at `Z` is the same source as at f32; only the samples' arithmetic differs, so that "this is the
//! sum of exactly these signals, in this operand order" is a bit-vector equation.
use core::ops::*;
use knaster_core::Float;
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Debug)]
pub struct Z(pub u32);
fn mix(k: u32, a: u32, b: u32) -> u32 { crate::ks::mix(crate::ks::mix(k, a), b) }
pub fn zdiv(a: Z, b: Z) -> Z { Z(mix(0x1d1d_1d1d, a.0, b.0)) }
pub fn zpow(a: Z, b: Z) -> Z { Z(mix(0x9090_1234, a.0, b.0)) }
pub fn zrem(a: Z, b: Z) -> Z { Z(mix(0x5e5e_0101, a.0, b.0)) }
pub fn zun(k: u32, a: Z) -> Z { Z(mix(0x7777_0000 + k, a.0, a.0)) }
const HI: u64 = 0x4000_0000;
impl Z {
    /// As a parameter value (finite, recovers the same `Z` by `Float::new`).
    pub fn pv(self) -> f64 { f64::from_bits((HI << 32) | self.0 as u64) }
}
impl Add for Z { type Output = Z; #[inline(always)] fn add(self, o: Z) -> Z { Z(self.0.wrapping_add(o.0)) } }
impl Sub for Z { type Output = Z; #[inline(always)] fn sub(self, o: Z) -> Z { Z(self.0.wrapping_sub(o.0)) } }
impl Mul for Z { type Output = Z; #[inline(always)] fn mul(self, o: Z) -> Z { Z(self.0.wrapping_mul(o.0)) } }
impl Div for Z { type Output = Z; fn div(self, o: Z) -> Z { zdiv(self, o) } }
impl Rem for Z { type Output = Z; fn rem(self, o: Z) -> Z { zrem(self, o) } }
impl Neg for Z { type Output = Z; fn neg(self) -> Z { Z(self.0.wrapping_neg()) } }
impl AddAssign for Z { fn add_assign(&mut self, o: Z) { *self = *self + o } }
impl SubAssign for Z { fn sub_assign(&mut self, o: Z) { *self = *self - o } }
impl MulAssign for Z { fn mul_assign(&mut self, o: Z) { *self = *self * o } }
impl DivAssign for Z { fn div_assign(&mut self, o: Z) { *self = *self / o } }
impl RemAssign for Z { fn rem_assign(&mut self, o: Z) { *self = *self % o } }
impl core::iter::Sum for Z { fn sum<I: Iterator<Item = Z>>(i: I) -> Z { i.fold(Z(0), |a, b| a + b) } }
impl num_traits::Zero for Z { fn zero() -> Z { Z(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl num_traits::One for Z { fn one() -> Z { Z(1) } }
impl num_traits::ToPrimitive for Z { fn to_i64(&self) -> Option<i64> { Some(self.0 as i64) } fn to_u64(&self) -> Option<u64> { Some(self.0 as u64) } fn to_f64(&self) -> Option<f64> { Some(self.pv()) } }
impl num_traits::NumCast for Z { fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Z> { n.to_f64().map(fold) } }
impl num_traits::Num for Z { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Z, ()> { Err(()) } }
fn fold(v: f64) -> Z { let b = v.to_bits(); if b >> 32 == HI { Z(b as u32) } else { Z(((b >> 32) as u32).wrapping_mul(3) ^ b as u32) } }
macro_rules! un { ($($k:expr, $n:ident);*) => { $(fn $n(self) -> Self { zun($k, self) })* } }
macro_rules! kon { ($($k:expr, $n:ident);*) => { $(fn $n() -> Self { Z($k) })* } }
impl num_traits::Float for Z {
    kon!(0xdead_0001, nan; 0xdead_0002, infinity; 0xdead_0003, neg_infinity; 0, neg_zero; 0, min_value; 1, min_positive_value; u32::MAX, max_value; 1, epsilon);
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { true }
    fn classify(self) -> core::num::FpCategory { core::num::FpCategory::Normal }
    un!(1, floor; 2, ceil; 3, round; 4, trunc; 5, fract; 6, abs; 7, signum; 8, recip; 9, sqrt; 10, exp; 11, exp2; 12, ln; 13, log2; 14, log10; 15, cbrt; 16, sin; 17, cos; 18, tan; 19, asin; 20, acos; 21, atan; 22, exp_m1; 23, ln_1p; 24, sinh; 25, cosh; 26, tanh; 27, asinh; 28, acosh; 29, atanh);
    fn is_sign_positive(self) -> bool { true }
    fn is_sign_negative(self) -> bool { false }
    fn mul_add(self, a: Z, b: Z) -> Z { self * a + b }
    fn powi(self, n: i32) -> Z { zpow(self, Z(n as u32)) }
    fn powf(self, n: Z) -> Z { zpow(self, n) }
    fn log(self, b: Z) -> Z { Z(mix(30, self.0, b.0)) }
    fn max(self, o: Z) -> Z { if self.0 > o.0 { self } else { o } }
    fn min(self, o: Z) -> Z { if self.0 < o.0 { self } else { o } }
    fn abs_sub(self, o: Z) -> Z { Z(mix(31, self.0, o.0)) }
    fn hypot(self, o: Z) -> Z { Z(mix(32, self.0, o.0)) }
    fn atan2(self, o: Z) -> Z { Z(mix(33, self.0, o.0)) }
    fn sin_cos(self) -> (Z, Z) { (self.sin(), self.cos()) }
    fn integer_decode(self) -> (u64, i16, i8) { (self.0 as u64, 0, 1) }
}
impl Float for Z {
    const ZERO: Z = Z(0);
    const ONE: Z = Z(1);
    const PI: Z = Z(0x3141_5926);
    const TAU: Z = Z(0x6283_1853);
    const ANTI_DENORMAL: Z = Z(0x0a0d_0000);
    fn from_usize(i: usize) -> Z { Z(i as u32) }
    fn new<F: Float>(v: F) -> Z { fold(v.to_f64()) }
    fn to_f32(self) -> f32 { f32::from_bits(self.0) }
    fn to_f64(self) -> f64 { self.pv() }
}
pub fn any_z(n: &str) -> Z { Z(crate::ks::any_u32(n)) }
