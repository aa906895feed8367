//! `Fx`: fixed point numbers with 16 fractional bits as a sample type, for code that computes with phases: sums,
//! differences and roundings are exact, and so decided in bit-vector arithmetic. A full turn is 1 (so tau is 1), and the
//! sine and cosine of a phase is the phase itself, which makes it visible.
use core::ops::*;
use knaster_core::Float;
pub const ONE: i32 = 65536;
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Debug)]
pub struct Fx(pub i32);
pub fn any_fx(n: &str) -> Fx { Fx(crate::ks::any_u32(n) as i32) }
impl Add for Fx { type Output = Fx; #[inline(always)] fn add(self, o: Fx) -> Fx { Fx(self.0.wrapping_add(o.0)) } }
impl Sub for Fx { type Output = Fx; #[inline(always)] fn sub(self, o: Fx) -> Fx { Fx(self.0.wrapping_sub(o.0)) } }
impl Mul for Fx { type Output = Fx; #[inline(always)] fn mul(self, o: Fx) -> Fx { Fx(((self.0 as i64 * o.0 as i64) >> 16) as i32) } }
impl Div for Fx { type Output = Fx; fn div(self, o: Fx) -> Fx { if o.0 == 0 { Fx(0) } else { Fx((((self.0 as i64) << 16) / o.0 as i64) as i32) } } }
impl Rem for Fx { type Output = Fx; fn rem(self, o: Fx) -> Fx { if o.0 == 0 { Fx(0) } else { Fx(self.0.wrapping_rem(o.0)) } } }
impl Neg for Fx { type Output = Fx; fn neg(self) -> Fx { Fx(self.0.wrapping_neg()) } }
impl AddAssign for Fx { fn add_assign(&mut self, o: Fx) { *self = *self + o } }
impl SubAssign for Fx { fn sub_assign(&mut self, o: Fx) { *self = *self - o } }
impl MulAssign for Fx { fn mul_assign(&mut self, o: Fx) { *self = *self * o } }
impl DivAssign for Fx { fn div_assign(&mut self, o: Fx) { *self = *self / o } }
impl RemAssign for Fx { fn rem_assign(&mut self, o: Fx) { *self = *self % o } }
impl core::iter::Sum for Fx { fn sum<I: Iterator<Item = Fx>>(i: I) -> Fx { i.fold(Fx(0), |a, b| a + b) } }
impl num_traits::Zero for Fx { fn zero() -> Fx { Fx(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl num_traits::One for Fx { fn one() -> Fx { Fx(ONE) } }
impl num_traits::ToPrimitive for Fx { fn to_i64(&self) -> Option<i64> { Some((self.0 >> 16) as i64) } fn to_u64(&self) -> Option<u64> { if self.0 < 0 { None } else { Some((self.0 >> 16) as u64) } } fn to_f64(&self) -> Option<f64> { Some(self.0 as f64 / 65536.0) } }
impl num_traits::NumCast for Fx { fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Fx> { n.to_f64().map(|v| Fx((v * 65536.0) as i32)) } }
impl num_traits::Num for Fx { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Fx, ()> { Err(()) } }
/// Not meant for whole numbers.
fn no() -> Fx { panic!("not an operation on whole numbers") }
macro_rules! id { ($($n:ident)*) => { $(fn $n(self) -> Self { self })* } }
macro_rules! un { ($($n:ident)*) => { $(fn $n(self) -> Self { no() })* } }
impl num_traits::Float for Fx {
    fn nan() -> Fx { no() }
    fn infinity() -> Fx { no() }
    fn neg_infinity() -> Fx { no() }
    fn neg_zero() -> Fx { Fx(0) }
    fn min_value() -> Fx { Fx(i32::MIN) }
    fn max_value() -> Fx { Fx(i32::MAX) }
    fn min_positive_value() -> Fx { Fx(1) }
    fn epsilon() -> Fx { Fx(1) }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { true }
    fn classify(self) -> core::num::FpCategory { core::num::FpCategory::Normal }
    id!(round sin cos);
    fn floor(self) -> Fx { Fx(self.0 & !0xffff) }
    fn ceil(self) -> Fx { Fx((self.0 + 0xffff) & !0xffff) }
    fn trunc(self) -> Fx { if self.0 < 0 { self.ceil() } else { self.floor() } }
    un!(recip sqrt exp exp2 ln log2 log10 cbrt tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    fn fract(self) -> Fx { self - self.trunc() }
    fn abs(self) -> Fx { Fx(self.0.wrapping_abs()) }
    fn signum(self) -> Fx { Fx(self.0.signum() * ONE) }
    fn is_sign_positive(self) -> bool { self.0 >= 0 }
    fn is_sign_negative(self) -> bool { self.0 < 0 }
    fn mul_add(self, a: Fx, b: Fx) -> Fx { self * a + b }
    fn powi(self, _: i32) -> Fx { no() }
    fn powf(self, _: Fx) -> Fx { no() }
    fn log(self, _: Fx) -> Fx { no() }
    fn max(self, o: Fx) -> Fx { if self.0 > o.0 { self } else { o } }
    fn min(self, o: Fx) -> Fx { if self.0 < o.0 { self } else { o } }
    fn abs_sub(self, _: Fx) -> Fx { no() }
    fn hypot(self, _: Fx) -> Fx { no() }
    fn atan2(self, _: Fx) -> Fx { no() }
    fn sin_cos(self) -> (Fx, Fx) { (no(), no()) }
    fn integer_decode(self) -> (u64, i16, i8) { (self.0.unsigned_abs() as u64, 0, self.0.signum() as i8) }
}
impl Float for Fx {
    const ZERO: Fx = Fx(0);
    const ONE: Fx = Fx(ONE);
    const PI: Fx = Fx(ONE / 2);
    const TAU: Fx = Fx(ONE);
    const ANTI_DENORMAL: Fx = Fx(0);
    fn from_usize(i: usize) -> Fx { Fx((i as i32) << 16) }
        fn new<F: Float>(v: F) -> Fx {
        // what a random source yields
        if core::mem::size_of::<F>() == 4 && unsafe { RANDOM } != 0 && core::any::type_name::<F>() == "f32" { return random(); }
        Fx((v.to_f64() * 65536.0) as i32)
    }
    fn to_f32(self) -> f32 { self.0 as f32 / 65536.0 }
    fn to_f64(self) -> f64 { self.0 as f64 / 65536.0 }
}
/// While 1 or 2, every f32 that is converted is taken for a random number: any multiple of 1/128 from -1 up to 1 (1), or of 1/256 from 0 up to 1 (2).
pub static mut RANDOM: u32 = 0;
static mut RANDOMS: usize = 0;
const RNAMES: [&str; 40] = ["r00", "r01", "r02", "r03", "r04", "r05", "r06", "r07", "r08", "r09", "r10", "r11", "r12", "r13", "r14", "r15", "r16", "r17", "r18", "r19", "r20", "r21", "r22", "r23", "r24", "r25", "r26", "r27", "r28", "r29", "r30", "r31", "r32", "r33", "r34", "r35", "r36", "r37", "r38", "r39"];
pub fn random() -> Fx {
    unsafe {
        RANDOMS += 1;
        let v = crate::ks::any_u8(RNAMES[(RANDOMS - 1) % 40]);
        if RANDOM == 1 { Fx((v as i8 as i32) << 9) } else { Fx((v as i32) << 8) }
    }
}
pub fn randoms() -> usize { unsafe { RANDOMS } }
