//! The shipped units.
pub use crate::wu::{run_frames, run_part};
pub use crate::util::*;
use knaster_core::Seconds;
use knaster_core_dsp::{buffer::BufferReader, closure::*, delay::*, dsp::buffer::Buffer, dynamics::*, envelopes::*, math::*, noise::*, onepole::*, osc::*, pan::*, polyblep::*, svf::*, util::*};
use knaster_core_dsp::wrappers_core::*;
/// What is done with a unit, of which any number of equal copies can be made.
pub trait Visit { fn unit<T: UGen<Sample = f32> + 'static>(&mut self, mk: &mut dyn FnMut() -> T); }
/// Bitwise copies of a unit that owns nothing on the heap (the seed of a random source is taken from a counter).
fn copies<T>(t: T) -> impl FnMut() -> T { let t = core::mem::ManuallyDrop::new(t); move || unsafe { core::ptr::read(&*t) } }
fn closure() -> UGenClosure<f32, U2, U2> { let mut n = 0.0f32; ugen(move |_: &mut AudioCtx, _: &mut UGenFlags, x: [f32; 2]| { n += 1.0; [x[1] + n, x[0] * n] }) }
pub const UNITS: u32 = 45;
/// Unit number `k`.
pub fn unit<V: Visit>(k: usize, v: &mut V) {
    let buffer = |looping: bool| BufferReader::<f32, U2>::new(std::sync::Arc::new(Buffer::from_vec_interleaved(vec![1.0f32, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0], 2, 48000.0)), 1.0, looping);
    let env = || Envelope::<f32>::new(0.0, vec![EnvelopeSegment::new(2.0 / 48000.0, 1.0), EnvelopeSegment::new(3.0 / 48000.0, 0.5)]);
    let t = Seconds::from_samples(3, 48000);
    match k {
        0 => v.unit(&mut || OnePoleLpf::new(1000.0f32)),
        1 => v.unit(&mut || OnePoleHpf::<f32>::new()),
        2 => v.unit(&mut || PolyBlep::new(Waveform::Sawtooth, 9000.0f32)),
        3 => v.unit(&mut || PolyBlep::new(Waveform::Square, 9000.0f32)),
        4 => v.unit(&mut || PolyBlep::new(Waveform::TrapezoidVariable, 9000.0f32)),
        5 => v.unit(&mut || DoneOnTrig::<f32>::new()),
        6 => v.unit(&mut || Constant::new(3.0f32)),
        7 => v.unit(&mut || LogProbe::<f32>::new("probe")),
        8 => v.unit(&mut || EnvAsr::new(3.0f32 / 48000.0, 2.0 / 48000.0)),
        9 => v.unit(&mut || EnvAr::new(3.0f32 / 48000.0, 2.0 / 48000.0)),
        10 => v.unit(&mut || env()),
        11 => v.unit(&mut || env().looping(true)),
        12 => v.unit(&mut || closure()),
        13 => v.unit(&mut || SafetyLimiter::<f32>::new()),
        14 => v.unit(&mut || SampleDelay::<f32>::new(t)),
        15 => v.unit(&mut || AllpassDelay::<f32>::new(t)),
        16 => v.unit(&mut || AllpassFeedbackDelay::<f32>::new(t)),
        17 => v.unit(&mut || Phasor::<f32>::new(9000.0)),
        18 => v.unit(&mut || SinWt::new(9000.0f32)),
        19 => v.unit(&mut || SinNumeric::new(9000.0f32)),
        20 => v.unit(&mut || SvfFilter::new(SvfFilterType::Low, 1000.0f32, 1.0, 0.0)),
        21 => v.unit(&mut || SvfFilter::new(SvfFilterType::Bell, 1000.0f32, 1.0, 6.0)),
        22 => v.unit(&mut || Pan2::<f32>::new(0.25)),
        23 => v.unit(&mut copies(WhiteNoise::<f32>::new())),
        24 => v.unit(&mut copies(PinkNoise::<f32>::new())),
        25 => v.unit(&mut copies(BrownNoise::<f32>::new())),
        26 => v.unit(&mut copies(RandomLin::<f32>::new(20000.0))),
        27 => v.unit(&mut || MathUGen::<f32, U2, Add>::new()),
        28 => v.unit(&mut || MathUGen::<f32, U1, Mul>::new()),
        29 => v.unit(&mut || MathUGen::<f32, U2, Sub>::new()),
        30 => v.unit(&mut || MathUGen::<f32, U1, Div>::new()),
        31 => v.unit(&mut || Math1UGen::<f32, Ceil>::new()),
        32 => v.unit(&mut || Math1UGen::<f32, Fract>::new()),
        33 => v.unit(&mut || Math1UGen::<f32, Trunc>::new()),
        34 => v.unit(&mut || buffer(false)),
        35 => v.unit(&mut || buffer(true)),
        36 => v.unit(&mut || closure().wr_mul(0.5)),
        37 => v.unit(&mut || closure().wr_add(0.5).wr_v_sub_gen(2.0)),
        38 => v.unit(&mut || closure().wr_sub(0.5).wr_v_div_gen(2.0)),
        39 => v.unit(&mut || closure().wr_div(3.0).wr_powi(2)),
        40 => v.unit(&mut || closure().wr(|x: f32| x * 3.0)),
        41 => v.unit(&mut || EnvAsr::new(3.0f32 / 48000.0, 2.0 / 48000.0).ar_params()),
        42 => v.unit(&mut || SvfFilter::new(SvfFilterType::Low, 1000.0f32, 1.0, 0.0).smooth_params()),
        43 => v.unit(&mut || Constant::new(3.0f32).precise_timing::<4>()),
        _ => v.unit(&mut || PolyBlep::new(Waveform::Sine, 9000.0f32).smooth_params().ar_params().precise_timing::<4>()),
    }
}
/// One of a few values for a parameter.
pub fn value_for(h: &ParameterHint, n: usize) -> ParameterValue {
    match h {
        ParameterHint::Float(_) => ParameterValue::Float([0.25, 12000.0, 2.0][n]),
        ParameterHint::Trigger => ParameterValue::Trigger,
        ParameterHint::Integer(_) => ParameterValue::Integer(knaster_core::PInteger([1, 5, 0][n])),
        ParameterHint::Bool => ParameterValue::Bool(n == 0),
    }
}
