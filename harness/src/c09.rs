//! C09: smoothed parameters.
use crate::wu::{actx, run_part, ArLogSender, NumericArray};
use crate::util::*;
use knaster_core_dsp::wrappers_core::*;
use std::{cell::RefCell, rc::Rc};
/// What its two parameters are on every frame; everything that is not a float is counted.
#[derive(Clone, Default)]
struct Seen { v: Vec<[f64; 2]>, now: [f64; 2], other: [u32; 2] }
struct SU(Rc<RefCell<Seen>>);
unsafe impl Send for SU {}
impl UGen for SU {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U1> { let s = &mut *self.0.borrow_mut(); s.v.push(s.now); [s.v.len() as f32].into() }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::new_float(|h| h), ParameterHint::new_float(|h| h)].into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["p0", "p1"].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        let s = &mut *self.0.borrow_mut();
        match v { ParameterValue::Float(f) => s.now[i] = f, ParameterValue::Trigger => s.other[i] += 1, ParameterValue::Integer(k) => s.other[i] += 16 * usize::from(k) as u32, ParameterValue::Bool(_) => s.other[i] += 4096, _ => check(false, "a smoothing setting stays in the smoothing wrapper") }
    }
}
/// Frames per second: durations of whole frames are exact.
const SR: u32 = 64;
fn secs(frames: usize) -> f32 { frames as f32 / SR as f32 }
/// The reference: `k` frames of `d` along the way from `s` to `e`.
#[derive(Clone, Copy)]
struct Ramp { s: f64, e: f64, k: usize, d: usize, smooth: bool, block: bool, old: f64 }
impl Ramp {
    fn new() -> Self { Ramp { s: 0.0, e: 0.0, k: 0, d: 0, smooth: false, block: false, old: 0.0 } }
    fn at(&self) -> f64 { if !self.smooth || self.k >= self.d { self.e } else { self.s + (self.e - self.s) * (self.k as f64 / self.d as f64) } }
    fn target(&mut self, v: f64) { if self.smooth { self.s = self.at(); self.k = 0; } self.e = v; }
    fn set(&mut self, d: Option<usize>, block: bool) {
        match d { None => self.smooth = false, Some(d) => { self.s = self.at(); self.k = 0; self.d = d; self.smooth = true; self.block = block; } }
    }
    /// The value on frame `f` of a block of `n` frames.
    fn frame(&mut self, f: usize, n: usize) -> f64 {
        if self.smooth && self.block {
            if f == 0 { self.old = self.at(); self.k += n; }
            self.old
        } else { let v = self.at(); self.k += 1; v }
    }
}
fn world(bs: usize) -> (WrSmoothParams<SU>, Rc<RefCell<Seen>>, AudioCtx, [Ramp; 2]) {
    let s = Rc::new(RefCell::new(Seen::default()));
    let u = SU(s.clone()).smooth_params();
    (u, s, AudioCtx::new(SR, bs, ArLogSender::non_rt()), [Ramp::new(); 2])
}
fn smoothing(u: &mut WrSmoothParams<SU>, ctx: &mut AudioCtx, r: &mut [Ramp; 2], i: usize, d: Option<usize>, block: bool) {
    let s = match d { None => ParameterSmoothing::None, Some(d) => ParameterSmoothing::Linear(secs(d)) };
    u.param_apply(ctx, i, ParameterValue::Smoothing(s, if block { Rate::BlockRate } else { Rate::AudioRate }));
    r[i].set(d, block);
}
fn target(u: &mut WrSmoothParams<SU>, ctx: &mut AudioCtx, r: &mut [Ramp; 2], i: usize, v: f64) {
    u.param_apply(ctx, i, ParameterValue::Float(v));
    r[i].target(v);
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
/// Runs `n` frames in the given way and compares.
fn go(u: &mut WrSmoothParams<SU>, s: &Rc<RefCell<Seen>>, ctx: &mut AudioCtx, r: &mut [Ramp; 2], bs: usize, whole: bool) {
    let input = VecBlock::<f32>::new(0, bs);
    let mut out = VecBlock::<f32>::new(1, bs);
    let before = s.borrow().v.len();
    let mut fl = UGenFlags::new();
    let cut = if whole { bs } else { 1 + choice(bs as u32 - 1, "part") };
    if whole { u.process_block(ctx, &mut fl, &input, &mut out); } else { run_part(u, ctx, &mut fl, &input, &mut out, 0, cut); run_part(u, ctx, &mut fl, &input, &mut out, cut, bs - cut); }
    let s = s.borrow();
    check(s.v.len() == before + bs, "every frame of the block is produced once");
    for f in 0..bs { check(Block::read(&out, 0, f) == (before + f + 1) as f32, "the frames are in order"); }
    for f in 0..bs { for p in 0..2 {
        let (k, n) = if f < cut { (f, cut) } else { (f - cut, bs - cut) };
        let w = r[p].frame(k, n);
        let v = s.v[before + f][p];
        let exact = !r[p].smooth || w == r[p].e;
        check(if exact { v == w } else { near(v, w) }, "a smoothed parameter moves linearly to its target, arrives after the duration and stays; others change at once");
    } }
}
const PAIRS: [[f64; 3]; 3] = [[1.0, 4.0, -2.0], [-1e6, 3.5, 3.5], [0.1, 0.7, 0.2]];
fn act(u: &mut WrSmoothParams<SU>, ctx: &mut AudioCtx, r: &mut [Ramp; 2], k: usize, vals: &[f64; 3]) {
    let i = choice(2, "parameter");
    match choice(5, "act") {
        0 => { target(u, ctx, r, i, vals[k]); }
        1 => smoothing(u, ctx, r, i, None, false),
        2 => smoothing(u, ctx, r, i, Some(choice(4, "frames")), false),
        3 => smoothing(u, ctx, r, i, Some(choice(4, "frames")), true),
        _ => {}
    }
}
fn sequence(bs: usize, blocks: usize, whole: bool, durs: u32) {
    let (mut u, s, mut ctx, mut r) = world(bs);
    let vals = PAIRS[choice(3, "values")];
    let d = choice(durs, "frames");
    let block = choice(2, "block rate") == 1;
    target(&mut u, &mut ctx, &mut r, 0, vals[0]);
    target(&mut u, &mut ctx, &mut r, 1, vals[2]);
    smoothing(&mut u, &mut ctx, &mut r, 0, Some(d), block);
    target(&mut u, &mut ctx, &mut r, 0, vals[1]);
    for b in 0..blocks {
        go(&mut u, &s, &mut ctx, &mut r, bs, whole);
        if b < 2 { act(&mut u, &mut ctx, &mut r, 2 - b, &vals); }
    }
}
// @h h_c09_blocks : a ramp of 0 to 6 frames at audio or block rate, 4 blocks of 3 frames, 2 further actions (new target, other duration, rate or no smoothing, for either of 2 parameters) after the first two; 3 triples of values
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_blocks() { sequence(3, 4, true, 7); }
// @h h_c09_parts : as h_c09_blocks, ramp of 0 to 3 frames, 3 blocks of 2 frames run in 2 parts
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_parts() { sequence(2, 3, false, 4); }
// @h h_c09_long thorough : as h_c09_blocks, 4 blocks of 3 frames in 2 parts
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_long() { sequence(3, 4, false, 7); }
fn between(v: f64, a: f64, b: f64) -> bool { (v >= a && v <= b) || (v >= b && v <= a) }
// @h h_c09_any cover=arrived : every two finite values (symbolic f64), ramp of 0 to 3 frames at audio or block rate, then a third finite value midway: never outside the two ends, never not a number, exactly at the target at the end
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_any() {
    let bs = 1;
    let (mut u, s, mut ctx, _) = world(bs);
    let v: [f64; 2] = [any_f64("v0"), any_f64("v1")];
    assume(v[0].is_finite() && v[1].is_finite());
    let d = choice(4, "frames");
    let rate = if choice(2, "block rate") == 1 { Rate::BlockRate } else { Rate::AudioRate };
    u.param_apply(&mut ctx, 0, ParameterValue::Float(v[0]));
    check(s.borrow().now[0] == v[0], "without smoothing the change is immediate");
    u.param_apply(&mut ctx, 0, ParameterValue::Smoothing(ParameterSmoothing::Linear(secs(d)), rate));
    u.param_apply(&mut ctx, 0, ParameterValue::Float(v[1]));
    let input = VecBlock::<f32>::new(0, bs);
    let mut out = VecBlock::<f32>::new(1, bs);
    for f in 0..d + 3 {
        u.process_block(&mut ctx, &mut UGenFlags::new(), &input, &mut out);
        let x = s.borrow().v[f][0];
        check(between(x, v[0], v[1]), "a smoothed parameter stays between where it came from and its target");
        if f >= d { cover("arrived"); check(x == v[1], "a smoothed parameter arrives exactly and stays"); }
    }
}
// @h h_c09_turn : every three finite values: a new target in the middle of a ramp of 3 frames, taken up from where the ramp is
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_turn() {
    let bs = 1;
    let (mut u, s, mut ctx, _) = world(bs);
    let v: [f64; 3] = [any_f64("v0"), any_f64("v1"), any_f64("v2")];
    assume(v[0].is_finite() && v[1].is_finite() && v[2].is_finite());
    u.param_apply(&mut ctx, 0, ParameterValue::Float(v[0]));
    u.param_apply(&mut ctx, 0, ParameterValue::Smoothing(ParameterSmoothing::Linear(secs(2)), Rate::AudioRate));
    u.param_apply(&mut ctx, 0, ParameterValue::Float(v[1]));
    let input = VecBlock::<f32>::new(0, bs);
    let mut out = VecBlock::<f32>::new(1, bs);
    let turn = choice(4, "turn");
    for _ in 0..turn { u.process_block(&mut ctx, &mut UGenFlags::new(), &input, &mut out); }
    u.param_apply(&mut ctx, 0, ParameterValue::Float(v[2]));
    for f in 0..4 {
        u.process_block(&mut ctx, &mut UGenFlags::new(), &input, &mut out);
        let x = s.borrow().v[turn + f][0];
        // from somewhere between the first two values to the third
        let lo = v[0].min(v[1]).min(v[2]);
        let hi = v[0].max(v[1]).max(v[2]);
        check(x >= lo && x <= hi, "a ramp that turns stays between the values it was given");
        if f >= 2 { check(x == v[2], "a smoothed parameter arrives exactly and stays"); }
    }
}
// @h h_c09_settings : every duration (symbolic f32, including negative, infinite and not a number) and any two finite values, both rates, 3 frames: values stay finite and between the ends; other kinds of values pass through
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_settings() {
    let (mut u, s, mut ctx, _) = world(1);
    let dur = any_f32("duration");
    let (a, b) = [(0.0, 1.0), (-3.0, 7.5), (1.7e308, -1.7e308)][choice(3, "values")];
    u.param_apply(&mut ctx, 1, ParameterValue::Float(a));
    u.param_apply(&mut ctx, 1, ParameterValue::Smoothing(ParameterSmoothing::Linear(dur), if choice(2, "rate") == 0 { Rate::AudioRate } else { Rate::BlockRate }));
    u.param_apply(&mut ctx, 1, ParameterValue::Float(b));
    u.param_apply(&mut ctx, 0, ParameterValue::Trigger);
    u.param_apply(&mut ctx, 1, ParameterValue::Integer(3usize.into()));
    u.param_apply(&mut ctx, 1, ParameterValue::Bool(true));
    check(s.borrow().other == [1, 48 + 4096], "values that are not floats pass through at once");
    let input = VecBlock::<f32>::new(0, 1);
    let mut out = VecBlock::<f32>::new(1, 1);
    for f in 0..3 {
        u.process_block(&mut ctx, &mut UGenFlags::new(), &input, &mut out);
        let x = s.borrow().v[f][1];
        check(between(x, a, b), "whatever the duration, a smoothed parameter stays between its ends");
    }
}
