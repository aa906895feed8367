//! C07: wrappers are transparent: what is addressed to the wrapped unit has the same effect as on the unit alone.
use crate::gr;
use crate::wu::*;
use num_traits::Float as _;
const BS: usize = 3;
type In = WU<U1, U2>;
/// What the outer wrapper handles itself.
#[derive(Clone, Copy, PartialEq)]
enum Own { Nothing, Delay, Smooth, Ar }
struct Pair<I, O> { a: I, b: O, ctx: AudioCtx, ar: [Z; BS] }
fn op<I: UGen<Sample = Z>, O: UGen<Sample = Z>>(w: &mut Pair<I, O>, own: Own, first: bool) {
    let k = choice(if first { 8 } else { 2 }, "op");
    if k == 0 { return; }
    let p = choice(2, "parameter") as usize * (I::Parameters::USIZE - 1);
    let v = ParameterValue::Float(any_z("v").pv());
    macro_rules! set { ($v:expr) => { { let v = $v; w.a.param_apply(&mut w.ctx, p, v); w.b.param_apply(&mut w.ctx, p, v); } } }
    match k {
        1 => set!(v),
        _ if p >= N => assume(false), // the multiplication's own value is a plain float
        2 => set!(ParameterValue::Trigger),
        3 => {
            if own == Own::Delay { assume(false); }
            let d = [0, 1, 2, 5][choice(4, "delay") as usize];
            w.a.set_delay_within_block_for_param(&mut w.ctx, p, d);
            w.b.set_delay_within_block_for_param(&mut w.ctx, p, d);
            set!(v);
            cover("delay");
        }
        4 | 5 => {
            if own == Own::Smooth { assume(false); }
            set!(ParameterValue::Smoothing(ParameterSmoothing::Linear(2.0 / 64.0), if k == 4 { Rate::AudioRate } else { Rate::BlockRate }));
            set!(ParameterValue::Float(-7.5));
            cover("smooth");
        }
        _ => {
            if own == Own::Ar { assume(false); }
            let q = if k == 6 { core::ptr::null() } else { w.ar.as_ptr() };
            unsafe { w.a.set_ar_param_buffer(&mut w.ctx, p, q); w.b.set_ar_param_buffer(&mut w.ctx, p, q); }
            cover("ar");
        }
    }
}
/// `a` alone and `b`, which is `a` wrapped in something with effect `eff`.
fn same_effect<I: UGen<Sample = Z, Inputs = U1, Outputs = U2>, O: UGen<Sample = Z, Inputs = U1, Outputs = U2>>(whole: bool, mut mk: impl FnMut(u32) -> I, wrap: impl FnOnce(I) -> O, eff: impl Fn(Z) -> Z, own: Own) {
    let done = [u32::MAX, 1, 5][choice(3, "done at") as usize];
    let mut ctx = AudioCtx::new(64, BS, ArLogSender::non_rt());
    let mut w = Pair { a: mk(done), b: wrap(mk(done)), ctx: AudioCtx::new(64, BS, ArLogSender::non_rt()), ar: [any_z("a0"), any_z("a1"), any_z("a2")] };
    let (da, db) = (I::param_descriptions(), O::param_descriptions());
    let (ha, hb) = (I::param_hints(), O::param_hints());
    let mut ok = I::Parameters::USIZE <= O::Parameters::USIZE;
    for i in 0..I::Parameters::USIZE { ok &= da[i] == db[i] && same_hint(&ha[i], &hb[i]); }
    check(ok, "the wrapped unit's parameters are listed at the same index with the same name and hint");
    w.a.init(64, BS);
    w.b.init(64, BS);
    let how = if whole { choice(3, "how") } else { 2 };
    for b in 0..2 {
        op(&mut w, own, b == 0);
        let input = zblock(1, BS, &INAMES);
        let (mut x, mut y) = (VecBlock::<Z>::new(2, BS), VecBlock::<Z>::new(2, BS));
        let (mut fa, mut fb) = (UGenFlags::new(), UGenFlags::new());
        match how {
            0 => { w.a.process_block(&mut ctx, &mut fa, &input, &mut x); w.b.process_block(&mut ctx, &mut fb, &input, &mut y); }
            1 => { for (s, l) in [(0, 2), (2, 1)] { run_part(&mut w.a, &mut ctx, &mut fa, &input, &mut x, s, l); run_part(&mut w.b, &mut ctx, &mut fb, &input, &mut y, s, l); } }
            _ => { run_frames(&mut w.a, &mut ctx, &mut fa, &input, &mut x, 0, BS); run_frames(&mut w.b, &mut ctx, &mut fb, &input, &mut y, 0, BS); }
        }
        let mut ok = true;
        for f in 0..BS { for c in 0..2 { ok &= Block::read(&y, c, f) == eff(Block::read(&x, c, f)); } }
        check(ok, "a wrapped unit gives what the unit gives, with the wrapper's own effect");
        check(fa.done() == fb.done(), "completion is reported as the unit reports it");
    }
}
fn same_hint(a: &ParameterHint, b: &ParameterHint) -> bool { format!("{a:?}").as_bytes() == format!("{b:?}").as_bytes() }
macro_rules! outer { ($mk:expr, $ar:expr) => { {
    let v = any_z("value");
    match choice(12, "outer") {
        0 => same_effect(true, $mk, |u| u.wr_mul(v), |x| x * v, Own::Nothing),
        1 => same_effect(true, $mk, |u| u.wr_add(v), |x| x + v, Own::Nothing),
        2 => same_effect(true, $mk, |u| u.wr_sub(v), |x| x - v, Own::Nothing),
        3 => same_effect(true, $mk, |u| u.wr_v_sub_gen(v), |x| v - x, Own::Nothing),
        4 => same_effect(true, $mk, |u| u.wr_div(v), |x| zdiv(x, v), Own::Nothing),
        5 => same_effect(true, $mk, |u| u.wr_v_div_gen(v), |x| zdiv(v, x), Own::Nothing),
        6 => same_effect(true, $mk, |u| u.wr_powf(v), |x| zpow(x, v), Own::Nothing),
        7 => same_effect(true, $mk, |u| u.wr_powi(3), |x: Z| x.powi(3), Own::Nothing),
        8 => same_effect(true, $mk, |u| u.wr(|x| x + Z(5)), |x| x + Z(5), Own::Nothing),
        9 => same_effect(true, $mk, |u| u.precise_timing::<4>(), |x| x, Own::Delay),
        10 => same_effect(true, $mk, |u| u.smooth_params(), |x| x, Own::Smooth),
        _ => same_effect($ar, $mk, |u| u.ar_params(), |x| x, Own::Ar),
    }
} } }
fn unit(done: u32) -> In { let mut u = In::new(); u.done_at = done; u }
// @h h_c07_unit cover=delay,smooth,ar : each of the 12 wrappers around a plain unit (1 input, 2 outputs, 3 parameters): 2 blocks of 3 frames whole, in parts or frame by frame, before each a change, a trigger, a delayed change, a smoothing setting or an audio rate buffer for the first or last parameter, compared with the unit alone
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_unit() { outer!(unit, true); }
// @h h_c07_precise cover=delay,smooth,ar : each of the 12 wrappers around a unit with sample-accurate timing (audio rate parameters around it only frame by frame)
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_precise() { outer!(|d| unit(d).precise_timing::<4>(), false); }
// @h h_c07_smooth cover=delay,smooth,ar : each of the 12 wrappers around a unit with smoothing (audio rate parameters around it only frame by frame)
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_smooth() { outer!(|d| unit(d).smooth_params(), false); }
// @h h_c07_ar cover=delay,smooth,ar : each of the 12 wrappers around a unit with audio rate parameters
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_ar() { outer!(|d| unit(d).ar_params(), true); }
// @h h_c07_mul cover=delay,smooth,ar : each of the 12 wrappers around a unit with a multiplication, whose value is a fourth parameter
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_mul() { outer!(|d| unit(d).wr_mul(Z(3)), true); }
mod done {
    use crate::ev::*;
    use crate::wu::WU;
    use knaster_graph::graph_edit::Parameter;
    const OUT: &str = "a node with a done action gives what the node without one gives";
    fn both<T: UGen<Sample = Z, Inputs = U1, Outputs = U2, Parameters = knaster_core::typenum::U3> + 'static>(a: T, b: T) {
        let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U1, U4>(eopts());
        let mut ids: Vec<NodeId> = Vec::new();
        let mut pars: Vec<Parameter> = Vec::new();
        let p = 2 * choice(2, "parameter");
        let action = [knaster_core::Done::None, knaster_core::Done::FreeSelf, knaster_core::Done::FreeParent][choice(3, "action")];
        let mut s = None;
        g.edit(|e| {
            let src = e.push(WU::<U1, U1>::new());
            e.from_inputs([0]).unwrap().to(src);
            let x = e.push(a);
            let y = e.push_with_done_action(b, action);
            e.from_inputs([0]).unwrap().to(x);
            e.from_inputs([0]).unwrap().to(y);
            x.to_graph_out_channels([0, 1]);
            y.to_graph_out_channels([2, 3]);
            s = Some(src.id());
            ids.push(x.id());
            ids.push(y.id());
            pars.push(x.param(p));
            pars.push(y.param(p));
        });
        let s = s.unwrap();
        for r in 0..2 {
            if r == 1 && choice(2, "again") == 0 { break; }
            let v = any_z("v");
            let mut linked = false;
            match if r == 0 { choice(4, "op") } else { 3 } {
                0 => { let d = Seconds::new(0, choice(6, "delay") as u32 * TPS); for q in &mut pars { check(q.set_after(v.pv(), d).is_ok(), "a change is accepted"); } }
                1 => { for q in &mut pars { check(q.smooth(knaster_core::ParameterSmoothing::Linear(6.0 / SR as f32)).is_ok() && q.set(3.0).is_ok(), "a change is accepted"); } }
                2 => { linked = true; for n in &ids { check(g.connect_to_parameter(s, 0, p, *n).is_ok(), "a connection is accepted"); } commit(&mut g); }
                _ => { for q in &mut pars { check(q.set(v.pv()).is_ok() && q.trig().is_ok(), "a change is accepted"); } }
            }
            if linked { cover("linked"); }
            for _ in 0..2 {
                let input: [Z; EB] = [any_z("i0"), any_z("i1"), any_z("i2"), any_z("i3")];
                ap.run(&[&input]);
                let mut ok = true;
                for f in 0..EB { for c in 0..2 { ok &= rd(ap.output_block(), c, f) == rd(ap.output_block(), 2 + c, f); } }
                check(ok, OUT);
            }
        }
    }
// @h h_c07_done cover=linked : a unit, bare or with sample-accurate timing, smoothing or audio rate parameters, in the graph with and without a done action (each of 3): delayed, smoothed and plain changes, triggers or a signal for the first or last parameter of both; 4 blocks of 4 frames
    #[unsafe(no_mangle)]
    pub extern "C" fn h_c07_done() {
        let u = WU::<U1, U2>::new;
        match choice(4, "unit") {
            0 => both(u(), u()),
            1 => both(u().precise_timing::<4>(), u().precise_timing::<4>()),
            2 => both(u().smooth_params(), u().smooth_params()),
            _ => both(u().ar_params(), u().ar_params()),
        }
    }
}
