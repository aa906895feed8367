//! C12: delay lines delay by exactly the requested time.
use crate::wu::*;
use crate::w::*;
use knaster_core::Seconds;
use knaster_core_dsp::delay::*;
const OUT: &str = "the output is the input of the requested number of frames ago, and silence before that";
const CAP: &str = "a longer request is limited to the line's capacity";
const BAD: &str = "no request reads or writes outside the line or panics";
fn secs(n: u64, sr: u32) -> f64 { n as f64 / sr as f64 }
fn x(i: usize) -> Z { any_z(INAMES[i]) }
// @h h_c12_sample cover=long,change : SampleDelay holding up to 4 frames at 3 sample rates, any whole delay of 0 to 6 frames or 49, changed once to another; 10 symbolic samples
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_sample() {
    let sr = [64, 44100, 48000][choice(3, "sample rate") as usize];
    let max = choice(5, "capacity") as usize;
    let mut u = SampleDelay::<Z>::new(Seconds::from_samples(max as u64, sr as u64));
    let mut ctx = AudioCtx::new(sr, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(sr, 4);
    let mut n = 0;
    let mut xs = Vec::new();
    let mut ok = true;
    for t in 0..10 {
        if t == 0 || t == 5 {
            let d = [0, 1, 2, 3, 4, 6, 49][choice(7, "delay") as usize];
            n = d.min(max);
            if d > max { cover("long"); }
            if t == 5 { cover("change"); }
            check(u.param(&mut ctx, "delay_time", secs(d as u64, sr)).is_ok(), "a parameter is set");
        }
        xs.push(x(t));
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [xs[t]].into())[0];
        ok &= y == if t >= n { xs[t - n] } else { Z(0) };
    }
    check(ok, if n == max { CAP } else { OUT });
}
// @h h_c12_rates : SampleDelay of 200 frames at 44100 and 48000 Hz set to each whole number of frames from 0 to 199
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_rates() {
    let sr = [44100, 48000][choice(2, "sample rate") as usize];
    let n = choice(200, "delay") as usize;
    let mut u = SampleDelay::<Z>::new(Seconds::from_samples(200, sr as u64));
    let mut ctx = AudioCtx::new(sr, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(sr, 4);
    check(u.param(&mut ctx, 0, secs(n as u64, sr)).is_ok(), "a parameter is set");
    let v = x(0);
    for t in 0..n + 2 {
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [if t == 0 { v } else { Z(0) }].into())[0];
        check(y == if t == n { v } else { Z(0) }, OUT);
    }
}
// @h h_c12_any : SampleDelay, AllpassDelay and AllpassFeedbackDelay holding 0, 1 or 3 frames, set to 0, 1.5 frames, not a number or infinity and then to any delay time (every f64), 4 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_any() {
    let which = choice(3, "which");
    let max = Seconds::from_samples([0, 1, 3][choice(3, "capacity") as usize], 64);
    fn go<U: UGen<Sample = f32, Inputs = U1, Outputs = U1>>(mut u: U) {
        let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
        let mut flags = UGenFlags::new();
        u.init(64, 4);
        for k in 0..2 {
            let t = if k == 0 { [0.0, 1.5 / 64.0, f64::NAN, f64::INFINITY][choice(4, "first") as usize] } else { any_f64("time") };
            check(u.param(&mut ctx, 0, t).is_ok(), BAD);
            for _ in 0..2 { u.process(&mut ctx, &mut flags, [0.0].into()); }
        }
    }
    match which { 0 => go(SampleDelay::<f32>::new(max)), 1 => go(AllpassDelay::<f32>::new(max)), _ => go(AllpassFeedbackDelay::<f32>::new(max)) }
}
// @h h_c12_allpass cover=unset : AllpassDelay holding 1 to 4 frames at 64 Hz, not set, set in seconds or in frames to any whole delay of 0 to 6 frames; 9 symbolic whole samples
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_allpass() {
    let max = 1 + choice(4, "capacity") as usize;
    let mut u = AllpassDelay::<W>::new(Seconds::from_samples(max as u64, 64));
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    UGen::init(&mut u, 64, 4);
    let d = choice(7, "delay") as usize;
    let mut n = d.min(max);
    match choice(3, "set") {
        0 => check(u.param(&mut ctx, "delay_time", secs(d as u64, 64)).is_ok(), "a parameter is set"),
        1 => u.set_delay_in_frames(W(d as i32)),
        _ => { n = max; cover("unset"); }
    }
    let mut xs = Vec::new();
    for t in 0..9 {
        xs.push(any_w(INAMES[t]));
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [xs[t]].into())[0];
        check(y == if t >= n { xs[t - n] } else { W(0) }, OUT);
    }
}
// @h h_c12_readwrite : AllpassDelay holding 2 to 4 frames read before it is written, any whole delay of 2 to 6 frames, set with or without clearing in the middle; 10 symbolic whole samples
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_readwrite() {
    let max = 2 + choice(3, "capacity") as usize;
    let mut u = AllpassDelay::<W>::new(Seconds::from_samples(max as u64, 64));
    UGen::init(&mut u, 64, 4);
    let d = 2 + choice(5, "delay") as usize;
    let n = d.min(max);
    u.set_delay_in_frames(W(d as i32));
    let clear = choice(2, "clear") == 1;
    let mut xs = Vec::new();
    let mut from = 0;
    for t in 0..10 {
        if t == 4 && clear { u.clear(); from = 4; }
        let y = u.read();
        check(y == if t >= n + from { xs[t - n] } else { W(0) }, OUT);
        xs.push(any_w(INAMES[t]));
        u.write_and_advance(xs[t]);
    }
}
// @h h_c12_feedback cover=unset : AllpassFeedbackDelay holding 1 to 4 frames with feedback 0, 1 or -2 and any whole delay of 1 to 6 frames, or unset; 9 symbolic whole samples: y = d - g v with v = x + g d and d = v delayed
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_feedback() {
    let max = 1 + choice(4, "capacity") as usize;
    let mut u = AllpassFeedbackDelay::<W>::new(Seconds::from_samples(max as u64, 64));
    let mut ctx = AudioCtx::new(64, 4, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    u.init(64, 4);
    let d = 1 + choice(6, "delay") as usize;
    let mut n = d.min(max);
    match choice(3, "set") {
        0 => check(u.param(&mut ctx, "delay_time", secs(d as u64, 64)).is_ok(), "a parameter is set"),
        1 => u.set_delay_in_frames(W(d as i32)),
        _ => { n = max; cover("unset"); }
    }
    let g = [0, 1, -2][choice(3, "feedback") as usize];
    check(u.param(&mut ctx, "feedback", g as f64).is_ok(), "a parameter is set");
    let mut vs: Vec<W> = Vec::new();
    for t in 0..9 {
        let xt = any_w(INAMES[t]);
        let y = UGen::process(&mut u, &mut ctx, &mut flags, [xt].into())[0];
        let dl = if t >= n { vs[t - n] } else { W(0) };
        let v = dl * W(g) + xt;
        vs.push(v);
        check(y == dl - W(g) * v, OUT);
    }
}
// @h h_c12_static cover=wrap,change : StaticSampleDelay of 1, 3 or 5 frames, used by single samples or by `process`, in any sequence of 4 of them of 1 to 3 frames each, with a shorter length (0 to 6, as a number or a fraction) set in the middle
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_static() {
    let cap = [1, 3, 5][choice(3, "capacity") as usize];
    let mut u = StaticSampleDelay::<Z>::new(cap);
    let mut n = cap;
    let mut xs: Vec<Z> = Vec::new();
    let mut from = 0;
    let change = choice(2, "change") == 1;
    for k in 0..4 {
        if k == 2 && change {
            let d = [0, 1, 2, 4, 6][choice(5, "length") as usize];
            u.set_delay_length(d);
            n = d.clamp(1, cap);
            from = xs.len();
            cover("change");
        }
        let len = 1 + choice(3, "frames") as usize;
        let s = xs.len();
        for _ in 0..len { let i = xs.len(); xs.push(x(i)); }
        let mut out = [Z(0xbad); 3];
        match choice(2, "how") {
            0 => { for i in 0..len { out[i] = u.read(); u.write_and_advance(xs[s + i]); } }
            _ => u.process(&xs[s..], &mut out[..len], len),
        }
        // after a change of length, what was written before it is not claimed
        for i in 0..len { if s + i >= from + n || from == 0 { check(out[i] == if s + i >= n { xs[s + i - n] } else { Z(0) }, OUT); } }
        if s + len > n { cover("wrap"); }
    }
}
// @h h_c12_blocks : StaticSampleDelay of 3 to 5 frames, its length possibly set to 3, written and read in 4 blocks of 1 to 3 frames, each read before it is written
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_blocks() {
    let cap = 3 + choice(3, "capacity") as usize;
    let mut u = StaticSampleDelay::<Z>::new(cap);
    let mut n = cap;
    if choice(2, "change") == 1 { u.set_delay_length(3); n = 3; }
    let mut xs: Vec<Z> = Vec::new();
    for _ in 0..4 {
        let len = 1 + choice(3, "frames") as usize;
        let s = xs.len();
        for _ in 0..len { let i = xs.len(); xs.push(x(i)); }
        let mut out = [Z(0xbad); 3];
        u.read_block(&mut out[..len]);
        u.write_block_and_advance(&xs[s..]);
        for i in 0..len { check(out[i] == if s + i >= n { xs[s + i - n] } else { Z(0) }, OUT); }
    }
}
// @h h_c12_fraction : StaticSampleDelay of 4 f32 frames set to any fraction (every f32): a length from 1 to 4, that of the fraction rounded down
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_fraction() {
    let mut u = StaticSampleDelay::<f32>::new(4);
    let f = any_f32("fraction");
    u.set_delay_length_fraction(f);
    let n = if f >= 1.0 { 4 } else if f >= 0.75 { 3 } else if f >= 0.5 { 2 } else { 1 };
    for t in 0..6 {
        let y = u.read();
        check(f.is_nan() || y == if t >= n { 1.0 + (t - n) as f32 } else { 0.0 }, OUT);
        u.write_and_advance(1.0 + t as f32);
    }
}
