//! C15: noise and limiter outputs are bounded.
use crate::fx::*;
use crate::wu::*;
use knaster_core_dsp::dsp::xorrng::*;
use knaster_core_dsp::dynamics::*;
use knaster_core_dsp::noise::*;
const RANGE: &str = "the output is in its documented range";
const STUCK: &str = "a random source keeps moving";
const SEED: &str = "the same seed gives the same sequence";
fn setup() -> (AudioCtx, UGenFlags) { (AudioCtx::new(64, 4, ArLogSender::non_rt()), UGenFlags::new()) }
fn frame<U: UGen<Inputs = U0, Outputs = U1>>(u: &mut U, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> U::Sample { u.process(ctx, flags, Default::default())[0] }
// @h h_c15_limiter cover=frames,block : SafetyLimiter for every f32 (frame by frame and by blocks of 4)
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_limiter() {
    let (mut ctx, mut flags) = setup();
    let mut u = SafetyLimiter::<f32>::new();
    u.init(64, 4);
    let x: [f32; 4] = core::array::from_fn(|i| any_f32(INAMES[i]));
    let mut input = VecBlock::<f32>::new(1, 4);
    let mut output = VecBlock::<f32>::new(1, 4);
    for i in 0..4 { input.write(x[i], 0, i); }
    if choice(2, "how") == 0 { cover("frames"); run_frames(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, 4); } else { cover("block"); u.process_block(&mut ctx, &mut flags, &input, &mut output); }
    for i in 0..4 {
        let y = Block::read(&output, 0, i);
        check((-1.0..=1.0).contains(&y), RANGE);
        if (-1.0..=1.0).contains(&x[i]) { check(same(x[i], y), "samples within the limit are left untouched"); }
        else if x[i] > 1.0 { check(y == 1.0, "samples beyond the limit are set to it"); }
        else if x[i] < -1.0 { check(y == -1.0, "samples beyond the limit are set to it"); }
        else { check(y == 0.0, "not a number is replaced by 0"); }
    }
}
// @h h_c15_limiter64 : SafetyLimiter for every f64
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_limiter64() {
    let (mut ctx, mut flags) = setup();
    let mut u = SafetyLimiter::<f64>::new();
    u.init(64, 4);
    let x = any_f64("x");
    let y = UGen::process(&mut u, &mut ctx, &mut flags, [x].into())[0];
    check((-1.0..=1.0).contains(&y), RANGE);
    if (-1.0..=1.0).contains(&x) { check(same64(x, y), "samples within the limit are left untouched"); }
    else { check(y == if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { 0.0 }, "samples beyond the limit are set to it"); }
}
// @h h_c15_xorshift : XOrShift32Rng from every seed, 2 numbers
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_xorshift() {
    let seed = any_u32("seed");
    let (mut a, mut b) = (XOrShift32Rng::new(seed), XOrShift32Rng::new(seed));
    let mut last = if seed == 0 { 17 } else { seed };
    for _ in 0..2 {
        let x = a.gen_u32();
        check(x != 0 && x != last, STUCK);
        check(b.gen_u32() == x, SEED);
        last = x;
    }
    let (mut c, mut d) = (a, a);
    let (f, g) = (c.gen_f32(), d.gen_f64());
    check((0.0..=1.0).contains(&f), RANGE);
    check((0.0..=1.0).contains(&g), RANGE);
}
// @h h_c15_white : WhiteNoise<f32> from every state of its random number generator, 2 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_white() {
    let (mut ctx, mut flags) = setup();
    let mut u = WhiteNoise::<f32>::new();
    let mut v = u.clone();
    if core::mem::size_of::<WhiteNoise<f32>>() == 8 { // nothing but the generator's state
        let s = any_u64("state");
        unsafe { core::ptr::write(&mut u as *mut _ as *mut u64, s); core::ptr::write(&mut v as *mut _ as *mut u64, s); }
    }
    for _ in 0..2 {
        let y = frame(&mut u, &mut ctx, &mut flags);
        check((-1.0..1.0).contains(&y), RANGE);
        check(y == frame(&mut v, &mut ctx, &mut flags), SEED);
    }
}
// @h h_c15_pink : PinkNoise over fixed point samples, any random numbers (multiples of 1/128), 18 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_pink() {
    let (mut ctx, mut flags) = setup();
    let mut u = PinkNoise::<Fx>::new();
    unsafe { RANDOM = 1; }
    for t in 0..18 {
        let y = frame(&mut u, &mut ctx, &mut flags);
        if t % 4 == 3 || t == 17 { check(y.0 >= -ONE && y.0 <= ONE, RANGE); }
    }
    check(randoms() == 36, STUCK);
}
// @h h_c15_brown : BrownNoise over fixed point samples, any random numbers (multiples of 1/128), 14 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_brown() {
    let (mut ctx, mut flags) = setup();
    let mut u = BrownNoise::<Fx>::new();
    unsafe { RANDOM = 1; }
    for t in 0..14 {
        let y = frame(&mut u, &mut ctx, &mut flags);
        if t > 9 || t == 0 { check(y.0 >= -ONE && y.0 <= ONE, RANGE); }
    }
    check(randoms() == 14, STUCK);
}
// @h h_c15_lin cover=moved : RandomLin over fixed point samples, any random numbers (multiples of 1/256), frequencies 0, 4, 16, 21, 64, 100 and -8 Hz at 64 Hz, given before or after it is initialised, 9 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_lin() {
    let (mut ctx, mut flags) = setup();
    unsafe { RANDOM = 2; }
    let f = [0.0, 4.0, 16.0, 21.0, 64.0, 100.0, -8.0][choice(7, "freq")];
    let before = choice(2, "before") == 1;
    let mut u = RandomLin::<Fx>::new(Fx(if before { (f * 65536.0) as i32 } else { ONE }));
    UGen::init(&mut u, 64, 4);
    if !before { check(u.param(&mut ctx, "freq", f).is_ok(), "a parameter is set"); }
    let mut last = Fx(-1);
    for t in 0..9 {
        let y = frame(&mut u, &mut ctx, &mut flags);
        check(y.0 >= 0 && y.0 <= ONE, RANGE);
        if t > 0 && y != last { cover("moved"); }
        last = y;
    }
    // a new number each time 1 / freq has passed, after the two it starts with
    let n = match choice_of(f) { Some(period) => 9 / period, None => 0 };
    check(randoms() == 2 + n || (f == 21.0), STUCK);
}
/// The number of frames from one random number to the next.
fn choice_of(f: f64) -> Option<usize> { if f <= 0.0 { None } else if f >= 64.0 { Some(1) } else { Some((64.0 / f) as usize) } }
// @h h_c15_lin_any cover=after : RandomLin<f32> set to any frequency (every f64), 2 frames, then set to 32 Hz: it stays in range and moves on
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_lin_any() {
    let (mut ctx, mut flags) = setup();
    let mut u = RandomLin::<f32>::new([10.0, -10.0, f32::NAN][choice(3, "first")]);
    UGen::init(&mut u, 64, 4);
    check((0.0..=1.0).contains(&frame(&mut u, &mut ctx, &mut flags)), RANGE);
    check(u.param(&mut ctx, "freq", any_f64("freq")).is_ok(), "a parameter is set");
    for _ in 0..2 { check((0.0..=1.0).contains(&frame(&mut u, &mut ctx, &mut flags)), RANGE); }
    check(u.param(&mut ctx, "freq", 32.0).is_ok(), "a parameter is set");
    for _ in 0..2 { check((0.0..=1.0).contains(&frame(&mut u, &mut ctx, &mut flags)), RANGE); }
    cover("after");
}
// @h h_c15_real : the noises over f32 with the seeds they are given, 300 frames of each of 6 instances: in range, no instance stuck, instances differ
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_real() {
    let (mut ctx, mut flags) = setup();
    fn go<U: UGen<Sample = f32, Inputs = U0, Outputs = U1>>(mut u: U, lo: f32, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        u.init(64, 4);
        let mut last = 2.0;
        let mut same_for = 0;
        for _ in 0..300 {
            let y = frame(&mut u, ctx, flags);
            check(y >= lo && y <= 1.0, RANGE);
            same_for = if y == last { same_for + 1 } else { 0 };
            check(same_for < 8, STUCK);
            last = y;
        }
    }
    let s = next_randomness_seed();
    check(next_randomness_seed() == s + 1, SEED);
    for _ in 0..choice(6, "instance") { next_randomness_seed(); }
    match choice(4, "which") {
        0 => go(WhiteNoise::<f32>::new(), -1.0, &mut ctx, &mut flags),
        1 => go(PinkNoise::<f32>::new(), -1.0, &mut ctx, &mut flags),
        2 => go(BrownNoise::<f32>::new(), -1.0, &mut ctx, &mut flags),
        _ => go(RandomLin::<f32>::new(20.0), 0.0, &mut ctx, &mut flags),
    }
}
