//! C35: closures and utility units do what they are given.
use crate::wu::*;
use knaster_core::log::*;
use knaster_core_dsp::closure::*;
use knaster_core_dsp::pan::*;
use knaster_core_dsp::util::*;
const EACH: &str = "a closure is called once per frame with that frame's inputs and context";
const CONST: &str = "a constant is its value";
const DONE: &str = "a trigger acts on exactly its frame";
const GAIN: &str = "the gains of a panning are within zero and one";
const LAW: &str = "the gains of a panning are the cosine and the sine of the position";
const PROBE: &str = "a probe logs one frame out of as many as it says, starting with the first";
const BS: usize = 4;
/// What the closure computes from its call's number, its context and inputs.
fn f(n: u32, offset: u32, frames: u32, clock: u32, sr: u32, ins: &[Z], o: u32) -> Z {
    let mut a = mix(0x4000 + n, mix(offset, mix(frames, mix(clock, sr + o))));
    for x in ins { a = mix(a, x.0); }
    Z(a)
}
fn fc(n: u32, ctx: &AudioCtx, ins: &[Z], o: u32) -> Z { f(n, ctx.block_start_offset() as u32, ctx.frames_to_process() as u32, ctx.frame_clock() as u32, ctx.sample_rate(), ins, o) }
/// Runs a block as a whole, as two partial blocks, or as a partial block and frames, and compares.
fn run<I: Size, O: Size>(mut u: UGenClosure<Z, I, O>) {
    let mut ctx = actx(BS);
    let clock = any_u32("clock") as u64;
    ctx.block.set_frame_clock(clock);
    let mut flags = UGenFlags::new();
    u.init(48000, BS);
    let input = zblock(I::USIZE, BS, &INAMES);
    let mut output = VecBlock::<Z>::new(O::USIZE, BS);
    // frames from `single` on are given one by one
    let mut single = BS;
    match choice(3, "how") {
        0 => { cover("whole"); u.process_block(&mut ctx, &mut flags, &input, &mut output); }
        1 => { cover("parts"); let s = choice(BS as u32 + 1, "split"); if s > 0 { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, s); } if s < BS { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, s, BS - s); } }
        _ => { cover("frames"); single = choice(BS as u32, "split"); if single > 0 { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, single); }
            let org = ctx.block;
            for i in single..BS { ctx.block = org.make_partial(i, 1); run_frames(&mut u, &mut ctx, &mut flags, &input, &mut output, i, 1); }
            ctx.block = org; }
    }
    for i in 0..BS {
        let ins: Vec<Z> = (0..I::USIZE).map(|c| Block::read(&input, c, i)).collect();
        for o in 0..O::USIZE { check(Block::read(&output, o, i) == f(i as u32, i as u32, 1, (clock as u32).wrapping_add(i as u32), 48000, &ins, o as u32), EACH); }
    }
    check(flags.done() == Some(2), "the closure's flags arrive");
}
fn flag(n: u32, ctx: &AudioCtx, flags: &mut UGenFlags) { if n == 2 { flags.mark_done(ctx.block_start_offset() as u32); } }
// @h h_c35_closure cover=whole,parts,frames : closures of 0 to 1, 1 to 1, 2 to 3, 3 to 1 and 8 to 8 channels over an uninterpreted sample type, block of 4 as a whole, in two parts at any place, or frame by frame from any place; any frame clock and inputs
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_closure() {
    match choice(5, "which") {
        0 => { let mut n = 0; run::<U0, U1>(ugen(move |ctx: &mut AudioCtx, fl: &mut UGenFlags| { let r = fc(n, ctx, &[], 0); flag(n, ctx, fl); n += 1; r })) }
        1 => { let mut n = 0; run::<U1, U1>(ugen(move |ctx: &mut AudioCtx, fl: &mut UGenFlags, x: [Z; 1]| { let r = fc(n, ctx, &x, 0); flag(n, ctx, fl); n += 1; [r] })) }
        2 => { let mut n = 0; run::<U2, U3>(ugen(move |ctx: &mut AudioCtx, fl: &mut UGenFlags, x: [Z; 2]| { let r = core::array::from_fn(|o| fc(n, ctx, &x, o as u32)); flag(n, ctx, fl); n += 1; r })) }
        3 => { let mut n = 0; run::<U3, U1>(ugen(move |ctx: &mut AudioCtx, fl: &mut UGenFlags, x: [Z; 3]| { let r = core::array::from_fn(|o| fc(n, ctx, &x, o as u32)); flag(n, ctx, fl); n += 1; r })) }
        _ => { let mut n = 0; run::<U8, U8>(ugen(move |ctx: &mut AudioCtx, fl: &mut UGenFlags, x: [Z; 8]| { let r = core::array::from_fn(|o| fc(n, ctx, &x, o as u32)); flag(n, ctx, fl); n += 1; r })) }
    }
}
// @h h_c35_sink : a closure with an input and no output, any inputs: called once per frame with that frame's input
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_sink() {
    static mut GOT: [Z; 8] = [Z(0); 8];
    static mut N: usize = 0;
    let mut u: UGenClosure<Z, U1, U0> = ugen(|_: &mut AudioCtx, _: &mut UGenFlags, x: Z| unsafe { if N < 8 { GOT[N] = x; } N += 1; });
    let mut ctx = actx(BS);
    let mut flags = UGenFlags::new();
    let input = zblock(1, BS, &INAMES);
    let mut output = VecBlock::<Z>::new(0, BS);
    let s = choice(BS as u32 + 1, "split");
    if s > 0 { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, s); }
    if s < BS { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, s, BS - s); }
    unsafe { check(N == BS, EACH); for i in 0..BS { check(GOT[i] == Block::read(&input, 0, i), EACH); } }
}
// @h h_c35_constant : Constant<f64> with any value, set to any other value before a block, between two parts of it or between frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_constant() {
    let (a, b) = (any_f64("a"), any_f64("b"));
    let mut u = Constant::<f64>::new(a);
    let mut ctx = actx(BS);
    let mut flags = UGenFlags::new();
    u.init(48000, BS);
    let input = VecBlock::<f64>::new(0, BS);
    let mut output = VecBlock::<f64>::new(1, BS);
    let s = choice(BS as u32 + 1, "split");
    let frames = choice(2, "frames") == 1;
    if s > 0 { if frames { run_frames(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, s); } else { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, s); } }
    check(u.param(&mut ctx, "value", b).is_ok(), "a parameter is set");
    if s < BS { run_part(&mut u, &mut ctx, &mut flags, &input, &mut output, s, BS - s); }
    for i in 0..BS { check(same64(Block::read(&output, 0, i), if i < s { a } else { b }), CONST); }
}
// @h h_c35_trigger : DoneOnTrig triggered before, in the middle of or not in each of two blocks (in parts or frame by frame), once or twice
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_trigger() {
    let mut u = DoneOnTrig::<f32>::new();
    let mut ctx = actx(BS);
    u.init(48000, BS);
    let input = VecBlock::<f32>::new(0, BS);
    let mut output = VecBlock::<f32>::new(0, BS);
    for _ in 0..2 {
        let mut flags = UGenFlags::new();
        let s = choice(BS as u32 + 1, "split");
        let times = choice(3, "times");
        let frames = choice(2, "frames") == 1;
        let go = |u: &mut DoneOnTrig<f32>, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: &mut VecBlock<f32>, s: usize, n: usize| {
            if n == 0 { return; }
            if !frames { run_part(u, ctx, flags, &input, output, s, n); return; }
            let org = ctx.block;
            for i in s..s + n { ctx.block = org.make_partial(i, 1); run_frames(u, ctx, flags, &input, output, i, 1); }
            ctx.block = org;
        };
        go(&mut u, &mut ctx, &mut flags, &mut output, 0, s);
        check(flags.done().is_none(), DONE);
        if s < BS { for _ in 0..times { check(u.param(&mut ctx, "t_done", ParameterValue::Trigger).is_ok(), "a parameter is set"); } }
        go(&mut u, &mut ctx, &mut flags, &mut output, s, BS - s);
        check(flags.done() == if times > 0 && s < BS { Some(s as u32) } else { None }, DONE);
    }
}
// @h h_c35_pan cover=inside,outside : Pan2<f32> at any position (every f32): its gains (not a number is left out; see h_c35_pan_law)
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_pan() {
    let pan = any_f32("pan");
    let mut u = Pan2::<f32>::new(0.0);
    let mut ctx = actx(BS);
    let mut flags = UGenFlags::new();
    if choice(2, "how") == 0 { check(u.param(&mut ctx, "pan", pan as f64).is_ok(), "a parameter is set"); } else { u = Pan2::new(pan); }
    if pan.abs() <= 1.0 { cover("inside"); } else { cover("outside"); }
    let g = UGen::process(&mut u, &mut ctx, &mut flags, [1.0].into());
    check(!(g[0] < 0.0 || g[0] > 1.0 || g[1] < 0.0 || g[1] > 1.0), GAIN);
}
// @h h_c35_pan_law : Pan2<f32> at 65 positions from left to right, any finite input: each output is the input times the gain of its side, the gains follow the cosine and the sine within 1/1024, left never grows and right never falls by more than that
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_pan_law() {
    let k = choice(65, "position");
    let pan = k as f32 / 32.0 - 1.0;
    let mut u = Pan2::<f32>::new(if choice(2, "how") == 0 { pan } else { 0.3 });
    let mut ctx = actx(BS);
    let mut flags = UGenFlags::new();
    u.init(48000, BS);
    check(u.param(&mut ctx, 0, pan as f64).is_ok(), "a parameter is set");
    let g = UGen::process(&mut u, &mut ctx, &mut flags, [1.0].into());
    let a = k as f64 / 64.0 * core::f64::consts::FRAC_PI_2;
    check((g[0] as f64 - a.cos()).abs() < 1.0 / 1024.0, LAW);
    check((g[1] as f64 - a.sin()).abs() < 1.0 / 1024.0, LAW);
    if k == 32 { check(g[0] == g[1], "the centre is equal on both sides"); }
    let mut input = VecBlock::<f32>::new(1, 2);
    let mut output = VecBlock::<f32>::new(2, 2);
    let x = [any_f32("x0"), any_f32("x1")];
    for i in 0..2 { input.write(x[i], 0, i); }
    let mut ctx = actx(2);
    u.process_block(&mut ctx, &mut flags, &input, &mut output);
    for i in 0..2 { for c in 0..2 { check(same(Block::read(&output, c, i), x[i] * g[c]), "each side is the input times its gain"); } }
}
// @h h_c35_probe : LogProbe at sample rates 1, 2, 3 and 7 (the frames between logs), 3 blocks of 4 symbolic frames, frame by frame or by blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_probe() {
    let sr = [1, 2, 3, 7][choice(4, "sample rate")];
    let frames = choice(2, "frames") == 1;
    let (s, mut r) = ArLogReceiver::new().sender(64);
    let mut ctx = AudioCtx::new(sr, BS, s);
    let mut flags = UGenFlags::new();
    let mut u = LogProbe::<f32>::new("here");
    UGen::init(&mut u, sr, BS);
    let mut output = VecBlock::<f32>::new(0, BS);
    let mut expect: Vec<f64> = Vec::new();
    for b in 0..3 {
        let mut input = VecBlock::<f32>::new(1, BS);
        for i in 0..BS { let t = b * BS + i; let x = any_f32(INAMES[t]); assume(x == x); input.write(x, 0, i); if t % sr as usize == 0 { expect.push(x as f64); } }
        if frames { run_frames(&mut u, &mut ctx, &mut flags, &input, &mut output, 0, BS); } else { u.process_block(&mut ctx, &mut flags, &input, &mut output); }
    }
    let mut n = 0;
    r.recv(|ms| for m in ms {
        match m {
            ArLogMessage::Float(f) => { check(n < expect.len() && *f == expect[n], PROBE); n += 1; }
            ArLogMessage::Str(s) => check(*s == "here" || *s == "Probe", PROBE),
            _ => (),
        }
    });
    check(n == expect.len(), PROBE);
}
// @h h_c35_probe_rates : LogProbe at 44100, 48000 and 96000 Hz over a little more than two seconds, by blocks of 64 frames, any sample at the frames that are logged
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_probe_rates() {
    let sr = [44100u32, 48000, 96000][choice(3, "sample rate")];
    let (s, mut r) = ArLogReceiver::new().sender(64);
    let mut ctx = AudioCtx::new(sr, 64, s);
    let mut flags = UGenFlags::new();
    let mut u = LogProbe::<f32>::new("here");
    UGen::init(&mut u, sr, 64);
    let mut output = VecBlock::<f32>::new(0, 64);
    let mut expect: Vec<f64> = Vec::new();
    let mut t = 0u32;
    while t < 2 * sr + 64 {
        let mut input = VecBlock::<f32>::new(1, 64);
        for i in 0..64 { if (t + i as u32) % sr == 0 { let x = any_f32(INAMES[expect.len()]); assume(x == x); input.write(x, 0, i); expect.push(x as f64); } }
        u.process_block(&mut ctx, &mut flags, &input, &mut output);
        t += 64;
    }
    let mut n = 0;
    r.recv(|ms| for m in ms { if let ArLogMessage::Float(f) = m { check(n < expect.len() && *f == expect[n], PROBE); n += 1; } });
    check(n == expect.len() && n >= 3, PROBE);
}
