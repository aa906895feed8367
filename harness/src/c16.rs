//! C16: sample playback never reads outside its buffer.
use crate::wu::*;
use knaster_core::Seconds;
use knaster_core_dsp::{buffer::BufferReader, dsp::buffer::Buffer};
use std::sync::Arc;
const LEN: usize = 3;
const SR: u32 = 48000;
fn samples<const CH: usize>() -> Vec<Z> {
    let mut v = Vec::new();
    for i in 0..LEN * CH { v.push(any_z(INAMES[i])); }
    v
}
fn reader<O: Size>(data: &[Z], ch: usize, sr: f64, rate: f64, looping: bool) -> BufferReader<Z, O> {
    BufferReader::<Z, O>::new(Arc::new(Buffer::from_vec_interleaved(data.to_vec(), ch, sr)), rate, looping)
}
/// The sample at a position of the buffer, as interpolated by definition; silence outside of it.
fn at(data: &[Z], ch: usize, p: f64, c: usize) -> Z {
    if !(p >= 0.0 && p < LEN as f64) || c >= ch { return Z(0); }
    let i = p as usize;
    let mix = <Z as knaster_core::Float>::new(p.fract());
    data[i * ch + c] * (Z(1) - mix) + data[(i + 1) % LEN * ch + c] * mix
}
/// Two blocks (or 4 frames) in one of the ways blocks are produced; the completion marks as frames since the start.
fn play<F: knaster_core::Float, O: Size>(u: &mut BufferReader<F, O>, ctx: &mut AudioCtx, how: usize, n: usize, done: &mut Vec<usize>) -> VecBlock<F> {
    let bs = ctx.block_size();
    let mut out = VecBlock::<F>::new(O::USIZE, n * bs);
    let input = VecBlock::<F>::new(0, bs);
    for b in 0..n {
        let mut flags = UGenFlags::new();
        let mut y = VecBlock::<F>::new(O::USIZE, bs);
        for f in 0..bs { for c in 0..O::USIZE { y.write(F::ONE, c, f); } }
        match how {
            0 => u.process_block(ctx, &mut flags, &input, &mut y),
            1 => { run_part(u, ctx, &mut flags, &input, &mut y, 0, 1); run_part(u, ctx, &mut flags, &input, &mut y, 1, bs - 1); }
            _ => {
                for f in 0..bs {
                    let org = ctx.block;
                    ctx.block = org.make_partial(f, 1);
                    let o = u.process(ctx, &mut flags, Default::default());
                    ctx.block = org;
                    for c in 0..O::USIZE { y.write(o[c], c, f); }
                }
            }
        }
        if let Some(d) = flags.done() { done.push(b * bs + d as usize); }
        for f in 0..bs { for c in 0..O::USIZE { out.write(Block::read(&y, c, f), c, b * bs + f); } }
    }
    out
}
const OUT: &str = "playback gives the interpolated samples at its position, and silence outside the buffer";
const UNIT: &str = "at unit rate the output is the buffer's samples in order, and silence after the end";
const DONE: &str = "completion is reported once, at the frame playback ends";
/// `n` blocks of 2 frames.
fn rate<const CH: usize, O: Size>(r: f64, start: usize, scale: f64, n: usize) {
    let looping = choice(2, "looping") == 1;
    let data = samples::<CH>();
    let mut u = reader::<O>(&data, CH, SR as f64 * scale, r, looping);
    if start > 0 { u = u.start_at(Seconds::from_samples(start as u64, (SR as f64 * scale) as u64)); }
    let mut ctx = AudioCtx::new(SR, 2, ArLogSender::non_rt());
    u.init(SR, 2);
    let mut done = Vec::new();
    let out = play(&mut u, &mut ctx, choice(3, "how") as usize, n, &mut done);
    let (mut p, mut ended, mut end) = (start as f64, false, 99);
    for f in 0..2 * n {
        for c in 0..O::USIZE { check(Block::read(&out, c, f) == if ended { Z(0) } else { at(&data, CH, p, c) }, OUT); }
        if !ended {
            p += scale * r;
            if !(p >= 0.0 && p < LEN as f64) { if looping { p = start as f64; cover("wrap"); } else { ended = true; end = f + 1; cover("end"); } }
        }
    }
    check(if end == 99 { done.is_empty() } else { done.len() == 1 && done[0] == end }, DONE);
}
/// Between the two samples around a position; silence outside of the buffer.
fn near(y: f32, data: &[f32], ch: usize, p: f64, c: usize) -> bool {
    if !(p >= 0.0 && p < LEN as f64) || c >= ch { return y == 0.0; }
    for i in 0..LEN {
        if p < (i + 1) as f64 {
            let (a, b) = (data[i * ch + c], data[(i + 1) % LEN * ch + c]);
            return if p == i as f64 { y == a } else { y >= a.min(b) && y <= a.max(b) };
        }
    }
    false
}
const DATA: [f32; 6] = [1.0, 2.0, 4.0, -8.0, 16.0, 32.0];
// @h h_c16_rate cover=wrap,end : any rate (every f64), buffer of 3 frames of 1 channel at the graph's rate started at frame 0, at half of it started at frame 1, or at double, looping or not, 2 frames whole or frame by frame: between the samples around each position
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_rate() {
    let r = any_f64("rate");
    let (start, scale) = [(0, 1.0), (1, 0.5), (0, 2.0)][choice(3, "start and buffer rate") as usize];
    let looping = choice(2, "looping") == 1;
    let mut u = BufferReader::<f32, U1>::new(Arc::new(Buffer::from_vec(DATA[..LEN].to_vec(), SR as f64 * scale)), r, looping);
    if start > 0 { u = u.start_at(Seconds::from_samples(start as u64, (SR as f64 * scale) as u64)); }
    let mut ctx = AudioCtx::new(SR, 2, ArLogSender::non_rt());
    u.init(SR, 2);
    let mut done = Vec::new();
    let out = play(&mut u, &mut ctx, 2 * choice(2, "how") as usize, 1, &mut done);
    check(Block::read(&out, 0, 0) == DATA[start], OUT);
    let p = start as f64 + scale * r;
    let inside = p >= 0.0 && p < LEN as f64;
    if !inside { if looping { cover("wrap") } else { cover("end") } }
    let y = Block::read(&out, 0, 1);
    check(if inside { near(y, &DATA[..LEN], 1, p, 0) } else { y == if looping { DATA[start] } else { 0.0 } }, OUT);
    if !looping && !inside { check(done.len() == 1 && done[0] == 1, DONE); }
    if looping { check(done.is_empty(), DONE); }
}
// @h h_c16_rates cover=wrap,end : 12 rates (0, positive and negative fractions and whole numbers, subnormal, huge, infinite, not a number), buffer of 3 frames of 2 channels at the graph's rate, half or double, 1, 2 or 3 outputs, started at each frame, looping or not, 6 frames in 3 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_rates() {
    let r = [0.0, 0.3, 0.5, 1.0, 1.5, -0.4, -1.0, 7.0, 5e-324, 1e300, f64::INFINITY, f64::NAN][choice(12, "rate") as usize];
    let (start, scale) = (choice(3, "start") as usize, [1.0, 0.5, 2.0][choice(3, "buffer rate") as usize]);
    match choice(3, "outputs") { 0 => rate::<2, U1>(r, start, scale, 3), 1 => rate::<2, U2>(r, start, scale, 3), _ => rate::<2, U3>(r, start, scale, 3) }
}
// @h h_c16_unit cover=wrap,again : unit rate, buffer of 3 frames at the graph's rate, start at any frame by start_at or start_s, with or without duration_s or end_s of 0 to 4 frames or a negative duration, looping or not, 2 outputs, 2 blocks of 3 frames whole, in parts or frame by frame, then a restart and 2 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_unit() {
    const R: u32 = 64;
    let data = samples::<2>();
    let looping = choice(2, "looping") == 1;
    let mut u = reader::<U2>(&data, 2, R as f64, 1.0, looping);
    let start = choice(3, "start") as usize;
    let by_param = choice(2, "by parameter") == 1;
    if !by_param { u = u.start_at(Seconds::from_samples(start as u64, R as u64)); }
    let mut ctx = AudioCtx::new(R, 3, ArLogSender::non_rt());
    u.init(R, 3);
    let secs = |n: usize| n as f64 / R as f64;
    let mut end = start + LEN;
    if by_param { check(u.param(&mut ctx, "start_s", secs(start)).is_ok() && u.param(&mut ctx, "t_restart", ParameterValue::Trigger).is_ok(), "a parameter is set"); }
    match choice(4, "limit") {
        0 => {}
        1 => { let d = choice(LEN as u32 + 2, "duration") as usize; end = start + d; check(u.param(&mut ctx, "duration_s", secs(d)).is_ok(), "a parameter is set"); }
        2 => { let e = choice(LEN as u32 + 2, "end") as usize; end = e; check(u.param(&mut ctx, "end_s", secs(e)).is_ok(), "a parameter is set"); }
        _ => { check(u.param(&mut ctx, "duration_s", -1.0).is_ok(), "a parameter is set"); }
    }
    let end = end.min(LEN);
    assume(end > start); // something to play
    let how = choice(3, "how") as usize;
    for again in 0..2 {
        let mut done = Vec::new();
        let out = play(&mut u, &mut ctx, how, 2, &mut done);
        let mut ok = true;
        for f in 0..6 {
            let k = if looping { Some(start + (if again == 0 { f } else { f }) % (end - start)) } else if start + f < end { Some(start + f) } else { None };
            for c in 0..2 { ok &= Block::read(&out, c, f) == k.map_or(Z(0), |k| data[k * 2 + c]); }
        }
        check(ok, UNIT);
        check(if looping { cover("wrap"); done.is_empty() } else { done.len() == 1 && done[0] == end - start }, DONE);
        check(u.param(&mut ctx, "t_restart", ParameterValue::Trigger).is_ok(), "a parameter is set");
        cover("again");
    }
}
// @h h_c16_times : start_s, duration_s and end_s each set to 12 values (not a number, infinite, negative, subnormal, huge, just below, at and above the buffer's length), with or without a restart, at rates 1, -1, 0.3, 1e300 and infinity, with or without looping; 4 frames: no panic, no access outside the buffer, and only its samples at unit rate
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_times() {
    let data = samples::<1>();
    let rate = [1.0, -1.0, 0.3, 1e300, f64::INFINITY][choice(5, "rate") as usize];
    let mut u = reader::<U1>(&data, 1, SR as f64, rate, choice(2, "looping") == 1);
    let mut ctx = AudioCtx::new(SR, 2, ArLogSender::non_rt());
    u.init(SR, 2);
    let p = choice(3, "which");
    let l = LEN as f64 / SR as f64;
    let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 5e-324, l * 0.999, l, l * 1.001, 1e9, 5e9, 1e300][choice(12, "seconds") as usize];
    check(u.param(&mut ctx, 2 + p as usize, v).is_ok(), "a parameter is set");
    let mut done = Vec::new();
    if choice(2, "restart") == 1 { check(u.param(&mut ctx, "t_restart", ParameterValue::Trigger).is_ok(), "a parameter is set"); }
    let out = play(&mut u, &mut ctx, 0, 2, &mut done);
    check(done.len() <= 1, DONE);
    if rate == 1.0 && p != 0 { let o = Block::read(&out, 0, 0); check(o == data[0] || o == Z(0), OUT); }
}
// @h h_c16_index : direct reads at any position (every f64) of a buffer of 3 frames of 2 channels, or an empty one made with `new`, for channels 0 to 3: between the samples around the position, or 0 outside
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_index() {
    let c = choice(4, "channel") as usize;
    let p = any_f64("position");
    if choice(2, "new") == 1 {
        let b = Buffer::<f32>::new(LEN, 2, 44100.0);
        check(b.num_frames() == LEN as f64 && b.num_channels() == 2 && b.get_interleaved(LEN - 1).len() == 2, "a new buffer has its number of frames and channels");
        check(b.get_linear_interp_f64(p, c) == 0.0, OUT);
        return;
    }
    let b = Buffer::<f32>::from_vec_interleaved(DATA.to_vec(), 2, 44100.0);
    check(near(b.get_linear_interp_f64(p, c), &DATA, 2, p, c), OUT);
}
// @h h_c16_index32 : as above with f32 positions
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_index32() {
    let c = choice(4, "channel") as usize;
    let b = Buffer::<f32>::from_vec_interleaved(DATA.to_vec(), 2, 44100.0);
    let p = any_f32("position");
    check(near(b.get_linear_interp(p, c), &DATA, 2, p as f64, c), OUT);
}
