//! C06: arithmetic on signals is elementwise. `Z`'s operators are exact (+ - *) or uninterpreted.
use crate::wu::*;
use knaster_core_dsp::math as m;
use num_traits::Float as _;
const BMAX: usize = 3;
/// How a block is produced: at once, in two parts, frame by frame.
fn produce<T: UGen<Sample = Z>>(u: &mut T, ctx: &mut AudioCtx, how: usize, input: &VecBlock<Z>, out: &mut VecBlock<Z>, bs: usize, between: &mut dyn FnMut(&mut T, &mut AudioCtx)) -> usize {
    let mut flags = UGenFlags::new();
    match how {
        0 => { u.process_block(ctx, &mut flags, input, out); bs }
        1 => {
            let cut = choice(bs as u32 + 1, "part");
            if cut > 0 { run_part(u, ctx, &mut flags, input, out, 0, cut); }
            between(u, ctx);
            if cut < bs { run_part(u, ctx, &mut flags, input, out, cut, bs - cut); cover("parts"); }
            cut
        }
        _ => {
            let cut = choice(bs as u32 + 1, "part");
            run_frames(u, ctx, &mut flags, input, out, 0, cut);
            between(u, ctx);
            run_frames(u, ctx, &mut flags, input, out, cut, bs - cut);
            cut
        }
    }
}
/// `mk` wraps a unit with `I` inputs and `O` outputs in an operator with a value; `op` is that operator.
fn wrapper<I: Size, O: Size, T: UGen<Sample = Z>>(mk: impl Fn(WU<I, O>, u32) -> T, op: impl Fn(Z, u32) -> Z, own: bool) {
    let bs = 1 + choice(BMAX as u32, "block size");
    let mut ctx = actx(bs);
    let v0 = any_u32("v0");
    // the multiplication's value is a parameter
    let v1 = if own { any_u32("v1") } else { v0 };
    let mut u = mk(WU::new(), v0);
    let mut n = 0;
    let mut v = v0;
    for b in 0..2 {
        let input = zblock(I::USIZE, bs, &INAMES);
        let mut out = VecBlock::<Z>::new(O::USIZE, bs);
        for c in 0..O::USIZE { for f in 0..bs { out.write(any_z("old"), c, f); } }
        let cut = produce(&mut u, &mut ctx, choice(3, "how"), &input, &mut out, bs, &mut |u, ctx| {
            if own { u.param_apply(ctx, N, ParameterValue::Float(Z(v1).pv())); }
        });
        let mut ok = true;
        let mut changed = false;
        for f in 0..bs {
            if f == cut { changed = true; }
            let v = if changed { v1 } else { v };
            let ins: Vec<Z> = (0..I::USIZE).map(|c| Block::read(&input, c, f)).collect();
            for c in 0..O::USIZE { ok &= Block::read(&out, c, f) == op(wout(n, &[wstart(0), wstart(1), wstart(2)], 0, &ins, c), v); }
            n += 1;
        }
        check(ok, "a math wrapper outputs its operator applied to the unit's output and the current value, per channel and frame");
        if b == 0 {
            v = if cut < bs { v1 } else {
                // from the next block on, also if it was set after the last frame
                if own { u.param_apply(&mut ctx, N, ParameterValue::Float(Z(v1).pv())); }
                v1
            };
        }
    }
}
macro_rules! shapes { ($mk:expr, $op:expr, $own:expr) => { match choice(4, "shape") {
    0 => wrapper::<U1, U1, _>($mk, $op, $own), 1 => wrapper::<U0, U2, _>($mk, $op, $own), 2 => wrapper::<U2, U3, _>($mk, $op, $own), _ => wrapper::<U1, U0, _>($mk, $op, $own) } } }
// @h h_c06_wrappers cover=parts : each of the 8 math wrappers over units with (1,1) (0,2) (2,3) (1,0) channels; 2 blocks of 1 to 3 frames produced whole, in 2 parts or frame by frame, the value (symbolic) changed in between
#[unsafe(no_mangle)]
pub extern "C" fn h_c06_wrappers() {
    match choice(8, "wrapper") {
        0 => shapes!(|u, v| u.wr_mul(Z(v)), |a, v| a * Z(v), true),
        1 => shapes!(|u, v| u.wr_add(Z(v)), |a, v| a + Z(v), false),
        2 => shapes!(|u, v| u.wr_sub(Z(v)), |a, v| a - Z(v), false),
        3 => shapes!(|u, v| u.wr_v_sub_gen(Z(v)), |a, v| Z(v) - a, false),
        4 => shapes!(|u, v| u.wr_div(Z(v)), |a, v| zdiv(a, Z(v)), false),
        5 => shapes!(|u, v| u.wr_v_div_gen(Z(v)), |a, v| zdiv(Z(v), a), false),
        6 => shapes!(|u, v| u.wr_powf(Z(v)), |a, v| zpow(a, Z(v)), false),
        _ => shapes!(|u, v| u.wr_powi(v as i32), |a: Z, v| a.powi(v as i32), false),
    }
}
fn node<T: UGen<Sample = Z>>(mut u: T, op: impl Fn(&[Z], usize) -> Z) {
    let bs = 1 + choice(4, "block size");
    let mut ctx = actx(bs);
    let (ni, no) = (T::Inputs::USIZE, T::Outputs::USIZE);
    let input = zblock(ni, bs, &INAMES);
    let mut out = VecBlock::<Z>::new(no, bs);
    for c in 0..no { for f in 0..bs { out.write(any_z("old"), c, f); } }
    produce(&mut u, &mut ctx, choice(3, "how"), &input, &mut out, bs, &mut |_, _| {});
    let mut ok = true;
    for f in 0..bs {
        let ins: Vec<Z> = (0..ni).map(|c| Block::read(&input, c, f)).collect();
        for c in 0..no { ok &= Block::read(&out, c, f) == op(&ins, c); }
    }
    check(ok, "an arithmetic node outputs its operator applied to the matching left and right channels, frame by frame");
}
macro_rules! width { ($op:ty, $f:expr) => { match choice(3, "channels") {
    0 => node(m::MathUGen::<Z, U1, $op>::new(), |i, c| $f(i[c], i[c + 1])),
    1 => node(m::MathUGen::<Z, U2, $op>::new(), |i, c| $f(i[c], i[c + 2])),
    _ => node(m::MathUGen::<Z, U4, $op>::new(), |i, c| $f(i[c], i[c + 4])) } } }
// @h h_c06_nodes : MathUGen for the 5 operators at 1, 2 and 4 channels, Math1UGen for the 6 functions; blocks of 1 to 4 frames produced whole, in 2 parts or frame by frame
#[unsafe(no_mangle)]
pub extern "C" fn h_c06_nodes() {
    match choice(11, "operator") {
        0 => width!(m::Add, |a: Z, b: Z| a + b),
        1 => width!(m::Sub, |a: Z, b: Z| a - b),
        2 => width!(m::Mul, |a: Z, b: Z| a * b),
        3 => width!(m::Div, zdiv),
        4 => width!(m::Pow, zpow),
        5 => node(m::Math1UGen::<Z, m::Ceil>::new(), |i, _| i[0].ceil()),
        6 => node(m::Math1UGen::<Z, m::Floor>::new(), |i, _| i[0].floor()),
        7 => node(m::Math1UGen::<Z, m::Sqrt>::new(), |i, _| i[0].sqrt()),
        8 => node(m::Math1UGen::<Z, m::Trunc>::new(), |i, _| i[0].trunc()),
        9 => node(m::Math1UGen::<Z, m::Fract>::new(), |i, _| i[0].fract()),
        _ => node(m::Math1UGen::<Z, m::Exp>::new(), |i, _| i[0].exp()),
    }
}
fn float_node<T: UGen<Sample = f32>>(mut u: T, op: impl Fn(f32, f32) -> f32) {
    let mut ctx = actx(1);
    let mut i = VecBlock::<f32>::new(2, 1);
    let (a, b) = (any_f32("a"), any_f32("b"));
    i.write(a, 0, 0);
    i.write(b, 1, 0);
    let mut o = VecBlock::<f32>::new(1, 1);
    u.process_block(&mut ctx, &mut UGenFlags::new(), &i, &mut o);
    check(same(Block::read(&o, 0, 0), op(a, b)), "an arithmetic node computes in the sample type");
}
// @h h_c06_f32 : the 4 operators with a float instruction at f32, all operands
#[unsafe(no_mangle)]
pub extern "C" fn h_c06_f32() {
    match choice(4, "operator") {
        0 => float_node(m::MathUGen::<f32, U1, m::Add>::new(), |a, b| a + b),
        1 => float_node(m::MathUGen::<f32, U1, m::Sub>::new(), |a, b| a - b),
        2 => float_node(m::MathUGen::<f32, U1, m::Mul>::new(), |a, b| a * b),
        _ => float_node(m::MathUGen::<f32, U1, m::Div>::new(), |a, b| a / b),
    }
}
