//! `W`: whole numbers (32 bits) as a sample type, for code that computes with samples and lengths:
//! sums, products, exact quotients and roundings are exact, and so decided in bit-vector arithmetic.
use core::ops::*;
use knaster_core::Float;
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Debug)]
pub struct W(pub i32);
pub fn any_w(n: &str) -> W { W(crate::ks::any_u32(n) as i32) }
impl Add for W { type Output = W; #[inline(always)] fn add(self, o: W) -> W { W(self.0.wrapping_add(o.0)) } }
impl Sub for W { type Output = W; #[inline(always)] fn sub(self, o: W) -> W { W(self.0.wrapping_sub(o.0)) } }
impl Mul for W { type Output = W; #[inline(always)] fn mul(self, o: W) -> W { W(self.0.wrapping_mul(o.0)) } }
impl Div for W { type Output = W; fn div(self, o: W) -> W { if o.0 == 0 { W(0) } else { W(self.0.wrapping_div(o.0)) } } }
impl Rem for W { type Output = W; fn rem(self, o: W) -> W { if o.0 == 0 { W(0) } else { W(self.0.wrapping_rem(o.0)) } } }
impl Neg for W { type Output = W; fn neg(self) -> W { W(self.0.wrapping_neg()) } }
impl AddAssign for W { fn add_assign(&mut self, o: W) { *self = *self + o } }
impl SubAssign for W { fn sub_assign(&mut self, o: W) { *self = *self - o } }
impl MulAssign for W { fn mul_assign(&mut self, o: W) { *self = *self * o } }
impl DivAssign for W { fn div_assign(&mut self, o: W) { *self = *self / o } }
impl RemAssign for W { fn rem_assign(&mut self, o: W) { *self = *self % o } }
impl core::iter::Sum for W { fn sum<I: Iterator<Item = W>>(i: I) -> W { i.fold(W(0), |a, b| a + b) } }
impl num_traits::Zero for W { fn zero() -> W { W(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl num_traits::One for W { fn one() -> W { W(1) } }
impl num_traits::ToPrimitive for W { fn to_i64(&self) -> Option<i64> { Some(self.0 as i64) } fn to_u64(&self) -> Option<u64> { if self.0 < 0 { None } else { Some(self.0 as u64) } } fn to_f64(&self) -> Option<f64> { Some(self.0 as f64) } }
impl num_traits::NumCast for W { fn from<T: num_traits::ToPrimitive>(n: T) -> Option<W> { n.to_f64().map(|v| W(v as i32)) } }
impl num_traits::Num for W { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<W, ()> { Err(()) } }
/// Not meant for whole numbers.
fn no() -> W { panic!("not an operation on whole numbers") }
macro_rules! id { ($($n:ident)*) => { $(fn $n(self) -> Self { self })* } }
macro_rules! un { ($($n:ident)*) => { $(fn $n(self) -> Self { no() })* } }
impl num_traits::Float for W {
    fn nan() -> W { no() }
    fn infinity() -> W { no() }
    fn neg_infinity() -> W { no() }
    fn neg_zero() -> W { W(0) }
    fn min_value() -> W { W(i32::MIN) }
    fn max_value() -> W { W(i32::MAX) }
    fn min_positive_value() -> W { W(1) }
    fn epsilon() -> W { W(1) }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { true }
    fn classify(self) -> core::num::FpCategory { core::num::FpCategory::Normal }
    id!(floor ceil round trunc);
    un!(recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    fn fract(self) -> W { W(0) }
    fn abs(self) -> W { W(self.0.wrapping_abs()) }
    fn signum(self) -> W { W(self.0.signum()) }
    fn is_sign_positive(self) -> bool { self.0 >= 0 }
    fn is_sign_negative(self) -> bool { self.0 < 0 }
    fn mul_add(self, a: W, b: W) -> W { self * a + b }
    fn powi(self, _: i32) -> W { no() }
    fn powf(self, _: W) -> W { no() }
    fn log(self, _: W) -> W { no() }
    fn max(self, o: W) -> W { if self.0 > o.0 { self } else { o } }
    fn min(self, o: W) -> W { if self.0 < o.0 { self } else { o } }
    fn abs_sub(self, _: W) -> W { no() }
    fn hypot(self, _: W) -> W { no() }
    fn atan2(self, _: W) -> W { no() }
    fn sin_cos(self) -> (W, W) { (no(), no()) }
    fn integer_decode(self) -> (u64, i16, i8) { (self.0.unsigned_abs() as u64, 0, self.0.signum() as i8) }
}
impl Float for W {
    const ZERO: W = W(0);
    const ONE: W = W(1);
    const PI: W = W(3);
    const TAU: W = W(6);
    const ANTI_DENORMAL: W = W(0);
    fn from_usize(i: usize) -> W { W(i as i32) }
    /// Rounded to the nearest whole number.
    fn new<F: Float>(v: F) -> W { let v = v.to_f64(); W(if v < 0.0 { (v - 0.5) as i32 } else { (v + 0.5) as i32 }) }
    fn to_f32(self) -> f32 { self.0 as f32 }
    fn to_f64(self) -> f64 { self.0 as f64 }
}
