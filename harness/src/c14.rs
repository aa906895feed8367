//! C14: oscillators never leave their tables.
use crate::fx::*;
use crate::wu::*;
use knaster_core_dsp::dsp::wavetable::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::polyblep::*;
const RANGE: &str = "the phase stays inside one period";
const ADV: &str = "over n frames the phase advances by n times the frequency divided by the sample rate";
const TAB: &str = "a lookup is that of the table at the phase";
// @h h_c14_phase : WavetablePhase with every phase, increment and offset
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_phase() {
    let (a, b) = (any_u32("phase"), any_u32("add"));
    let mut p = WavetablePhase(a);
    check(p.integer_component() < TABLE_SIZE, RANGE);
    check(p.integer_component() == ((a % (TABLE_SIZE as u32 * FRACTIONAL_PART)) / FRACTIONAL_PART) as usize, TAB);
    check(p.fractional_component() == a % FRACTIONAL_PART, TAB);
    let f = p.fractional_component_f32();
    check((0.0..=1.0).contains(&f), RANGE);
    check((p + WavetablePhase(b)).0 == a.wrapping_add(b), ADV);
    p.increase(b);
    check(p.0 == a.wrapping_add(b), ADV);
}
// @h h_c14_lookup : NonAaWavetable lookups at every phase, with and without interpolation (f32 and f64 sine)
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_lookup() {
    let t = NonAaWavetable::<f32>::new();
    havoc_tables(true);
    let p = any_u32("phase");
    let a = t.get(WavetablePhase(p));
    check(same(a, t.get(WavetablePhase(p & 0x3fff_0000))), TAB);
    let b = t.get_linear_interp(WavetablePhase(p & 0x3fff_0000));
    check(a.is_nan() || b.is_nan() || (p & 0xffff) != 0 || a == b || b != a, TAB);
}
// @h h_c14_buffer cover=refused : a table filled from a buffer of 0, 1, 100, 16383, 16384 or 16385 samples, looked up at every phase
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_buffer() {
    let n = [0, 1, 100, TABLE_SIZE - 1, TABLE_SIZE, TABLE_SIZE + 1][choice(6, "length")];
    let all = choice(2, "anti-aliased") == 1;
    if all {
        let r = Wavetable::<f32>::from_buffer(vec![0.5; n]);
        check(r.is_ok() == (n == TABLE_SIZE), "a buffer of another size is refused");
        if r.is_err() { cover("refused"); }
    } else {
        let mut t = NonAaWavetable::<f32>::new();
        panic_ok(n != TABLE_SIZE);
        t.set_from_buffer(vec![0.5; n]);
        panic_ok(false);
        havoc_tables(true);
        let _ = t.get(WavetablePhase(any_u32("phase")));
        let _ = t.get_linear_interp(WavetablePhase(any_u32("phase2")));
    }
}
// @h h_c14_tables : the anti-aliased Wavetable at every frequency (every f32) and phase
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_tables() {
    let t = Wavetable::<f32>::new();
    let f = any_f32("freq");
    let p = any_u32("phase");
    havoc_tables(true);
    if choice(2, "interpolated") == 0 { let _ = t.get(WavetablePhase(p), f); } else { let _ = t.get_linear_interp(WavetablePhase(p), f); }
}
/// Whole frequencies at 16384 Hz move the phase by whole table entries.
fn sinwt() -> (SinWt<f64>, AudioCtx, UGenFlags) {
    let mut u = SinWt::<f64>::new(0.0);
    u.init(TABLE_SIZE as u32, 4);
    (u, AudioCtx::new(TABLE_SIZE as u32, 4, ArLogSender::non_rt()), UGenFlags::new())
}
fn table(p: u32) -> f64 { SINE_WAVETABLE_F32.get().get(WavetablePhase(p)) as f64 }
// @h h_c14_sine cover=restart : SinWt at any whole frequency (every i16) at 16384 Hz, then -3 or 20000 Hz, with a phase offset of 0, a quarter, or just below a whole period, a restart before any or none of 4 frames, single frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_sine() {
    let (mut u, mut ctx, mut flags) = sinwt();
    let (f1, f2) = (any_u16("freq1") as i16 as i32, [-3, 20000][choice(2, "freq2")]);
    let off = [0u16, 0x4000, 0xffff][choice(3, "offset")];
    let restart = choice(5, "restart");
    havoc_tables(true);
    check(u.param(&mut ctx, "phase_offset", off as f64 / 65536.0).is_ok(), "a parameter is set");
    let mut p = 0u32;
    let mut f = f1;
    check(u.param(&mut ctx, "freq", f1 as f64).is_ok(), "a parameter is set");
    for t in 0..4 {
        if t == 2 { f = f2; check(u.param(&mut ctx, 0, f2 as f64).is_ok(), "a parameter is set"); }
        if t == restart { cover("restart"); p = 0; check(u.param(&mut ctx, "reset_phase", ParameterValue::Trigger).is_ok(), "a parameter is set"); }
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
        check(same64(y, table(p.wrapping_add((off as u32) << 14))), if off == 0 { ADV } else { TAB });
        p = p.wrapping_add((f as u32) << 16);
    }
}
// @h h_c14_sine_offset : SinWt at any of 65536 phase offsets in a period, the first two frames at 1 Hz at 16384 Hz
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_sine_offset() {
    let (mut u, mut ctx, mut flags) = sinwt();
    let off = any_u16("offset");
    havoc_tables(true);
    check(u.param(&mut ctx, "phase_offset", off as f64 / 65536.0).is_ok(), "a parameter is set");
    check(u.param(&mut ctx, "freq", 1.0).is_ok(), "a parameter is set");
    for t in 0..2 {
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
        check(same64(y, table((t << 16) + ((off as u32) << 14))), TAB);
    }
}
// @h h_c14_sine_freq : SinWt at any whole frequency (every i32) at 16384 Hz, the frame after the first
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_sine_freq() {
    let (mut u, mut ctx, mut flags) = sinwt();
    let f = any_u32("freq") as i32;
    havoc_tables(true);
    check(u.param(&mut ctx, "freq", f as f64).is_ok(), "a parameter is set");
    let _ = UGen::process(&mut u, &mut ctx, &mut flags, [].into());
    let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
    check(same64(y, table((f as u32) << 16)), ADV);
}
// @h h_c14_sine_any : SinWt with any frequency and phase offset (every f64), 3 frames: every lookup is inside the table
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_sine_any() {
    let (mut u, mut ctx, mut flags) = sinwt();
    havoc_tables(true);
    check(u.param(&mut ctx, "phase_offset", any_f64("offset")).is_ok(), "a parameter is set");
    check(u.param(&mut ctx, "freq", any_f64("freq")).is_ok(), "a parameter is set");
    for _ in 0..3 { let _ = UGen::process(&mut u, &mut ctx, &mut flags, [].into()); }
}
// @h h_c14_phasor : Phasor with any frequency (every f64, or one from a list of others before it) at 64 Hz, 2 frames on
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_phasor() {
    let mut u = Phasor::<f64>::new([0.0, 16.0, -16.0, 1e300, f64::INFINITY, f64::NAN][choice(6, "before")]);
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(64, 4);
    let _ = UGen::process(&mut u, &mut ctx, &mut flags, [].into());
    check(u.param(&mut ctx, "freq", any_f64("freq")).is_ok(), "a parameter is set");
    for _ in 0..3 {
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
        check((0.0..1.0).contains(&y), RANGE);
    }
}
// @h h_c14_phasor_step : Phasor at any frequency that is a multiple of 1/256 Hz below 2^23 Hz, negative ones included, at 64 Hz, the frame after the first
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_phasor_step() {
    let f = any_u32("freq") as i32;
    let mut u = Phasor::<f64>::new(0.0);
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(64, 4);
    check(u.param(&mut ctx, 0, f as f64 / 256.0).is_ok(), "a parameter is set");
    check(same64(UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0], 0.0), "it starts at the start of a period");
    let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
    check(y == (f & 0x3fff) as f64 / 16384.0, ADV);
}
/// Frequencies in Hz that are exact at 64 Hz.
const FREQS: [f64; 12] = [0.0, 1.0, 2.5, 31.0, 32.0, 63.0, 64.0, 65.0, 200.25, -1.0, -64.0, -70.5];
fn wrap(p: f64) -> f64 { let mut p = p % 1.0; if p < 0.0 { p += 1.0; } p }
// @h h_c14_phasor_n : Phasor at each of 12 frequencies (0, negative, around and above the sample rate), changed once, 12 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_phasor_n() {
    let (f, g) = (FREQS[choice(12, "freq")], FREQS[choice(12, "then")]);
    let before = choice(2, "before init") == 1;
    let mut u = Phasor::<f64>::new(if before { f } else { 7.0 });
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(64, 4);
    if !before { check(u.param(&mut ctx, 0, f).is_ok(), "a parameter is set"); }
    let mut p = 0.0;
    for t in 0..12 {
        if t == 8 { check(u.param(&mut ctx, 0, g).is_ok(), "a parameter is set"); }
        check(UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0] == p, ADV);
        p = wrap(p + if t >= 8 { g } else { f } / 64.0);
    }
}
/// A frequency in fixed point, a multiple of 1/1024 Hz: exact at 64 Hz.
fn ffreq(n: &str) -> (Fx, f64) { let v = any_u32(n) as i32 as i64; assume(v % 64 == 0 && v.abs() < 1 << 30); (Fx(v as i32 / 64), v as f64 / 65536.0) }
fn turn(p: i32) -> i32 { p & 0xffff }
// @h h_c14_numeric cover=restart : SinNumeric over fixed point samples at any frequency that is a multiple of 1/1024 Hz up to 16384 Hz, negative ones included, any phase offset up to one period, a restart before any or none of 6 frames, at 64 Hz
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_numeric() {
    let mut u = SinNumeric::<Fx>::new(Fx(0));
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    UGen::init(&mut u, 64, 4);
    let (step, f) = ffreq("freq");
    let off = any_u16("offset");
    let restart = choice(7, "restart");
    check(u.param(&mut ctx, "freq", f).is_ok(), "a parameter is set");
    check(u.param(&mut ctx, "phase_offset", off as f64 / 65536.0).is_ok(), "a parameter is set");
    let mut p = 0;
    for t in 0..6 {
        if t == restart { cover("restart"); p = 0; check(u.param(&mut ctx, "reset_phase", ParameterValue::Trigger).is_ok(), "a parameter is set"); }
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
        check(y.0 - off as i32 >= 0 && y.0 - (off as i32) < ONE, RANGE);
        check(y.0 == p + off as i32, ADV);
        p = turn(p.wrapping_add(step.0));
    }
}
// @h h_c14_numeric_any : SinNumeric<f32> and PolyBlep<f32> at any frequency (every f64), with the sine an unknown function: the output is that of a phase in range, or a not-a-number only for a first frame
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_numeric_any() {
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    let f = any_f64("freq");
    fn go<U: UGen<Sample = f32, Inputs = U0, Outputs = U1>>(mut u: U, f: f64, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        u.init(64, 4);
        check(u.param(ctx, "freq", f).is_ok(), "a parameter is set");
        for _ in 0..3 { let y = UGen::process(&mut u, ctx, flags, [].into())[0]; check((-1.0..=1.0).contains(&y), RANGE); }
    }
    if choice(2, "which") == 0 { go(SinNumeric::<f32>::new(1.0), f, &mut ctx, &mut flags); } else { go(PolyBlep::<f32>::new(Waveform::Sine, 1.0), f, &mut ctx, &mut flags); }
}
// @h h_c14_polyblep cover=sync : PolyBlep (sine and cosine) over fixed point samples at any frequency that is a multiple of 1/1024 Hz up to 16384 Hz, negative ones included, set to any phase before any or none of 5 frames, at 64 Hz
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_polyblep() {
    let mut u = PolyBlep::<Fx>::new(if choice(2, "waveform") == 0 { Waveform::Sine } else { Waveform::Cosine }, Fx(0));
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    UGen::init(&mut u, 64, 4);
    let (step, f) = ffreq("freq");
    check(u.param(&mut ctx, "freq", f).is_ok(), "a parameter is set");
    let at = choice(6, "sync");
    let mut p = 0;
    for t in 0..5 {
        if t == at { cover("sync"); let s = any_fx("phase"); u.sync(s); p = turn(s.0); }
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [].into())[0];
        check(y.0 >= 0 && y.0 < ONE, RANGE);
        check(y.0 == p, ADV);
        p = turn(p.wrapping_add(step.0));
    }
}
