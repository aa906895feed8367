//! C13: envelopes stay in range, finish, and finish once.
use crate::wu::*;
use knaster_core_dsp::envelopes::*;
const VAL: &str = "an envelope has the value of its segment at that time";
const RANGE: &str = "an envelope's output stays between zero and one";
const MONO: &str = "an envelope moves monotonically within each segment";
const DONE: &str = "completion is reported exactly when the envelope has reached its end";
const SR: u32 = 64;
const BS: usize = 4;
/// Produces frames `s..e` of a block whole, in parts or frame by frame.
fn run<F: knaster_core::Float, U: UGen<Sample = F, Inputs = U0, Outputs = U1>>(u: &mut U, ctx: &mut AudioCtx, flags: &mut UGenFlags, out: &mut VecBlock<F>, s: usize, e: usize, how: usize) {
    let input = VecBlock::<F>::new(0, BS);
    match how {
        0 => run_part(u, ctx, flags, &input, out, s, e - s),
        1 => { run_part(u, ctx, flags, &input, out, s, 1); if e > s + 1 { run_part(u, ctx, flags, &input, out, s + 1, e - s - 1); } }
        _ => for f in s..e {
            let org = ctx.block;
            ctx.block = org.make_partial(f, 1);
            let o = u.process(ctx, flags, Default::default());
            ctx.block = org;
            out.write(o[0], 0, f);
        },
    }
}
fn set<U: UGen>(u: &mut U, ctx: &mut AudioCtx, name: &'static str, v: impl Into<ParameterValue>) { check(u.param(ctx, name, v).is_ok(), "a parameter is set"); }
#[derive(Clone, Copy, PartialEq)]
enum S { Stop, Att, Sus, Rel }
/// Reference: `v` linear attack value; in the release `k` of `1` remaining, scaled by `scale`.
struct R { s: S, v: f64, scale: f64, ra: f64, rr: f64, asr: bool }
impl R {
    fn now(&self) -> f64 { match self.s { S::Stop => 0.0, S::Att => self.v, S::Sus => 1.0, S::Rel => self.v * self.v * self.v * self.scale } }
    fn restart(&mut self) { self.v = self.now(); self.s = S::Att; }
    fn release(&mut self) {
        if self.s == S::Att || self.s == S::Sus { self.scale = self.now(); self.v = 1.0; self.s = S::Rel; }
    }
    fn frame(&mut self) -> (f64, bool) {
        let out = self.now();
        let mut done = false;
        match self.s {
            S::Att => { self.v += self.ra; if self.v >= 1.0 { if self.asr { self.s = S::Sus } else { self.s = S::Rel; self.v = 1.0; self.scale = 1.0 } } }
            S::Rel => { self.v -= self.rr; if self.v <= 0.0 { self.s = S::Stop; self.v = 0.0; done = true; } }
            _ => {}
        }
        (out, done)
    }
}
/// Frames that a segment can take, exact in binary; 0 and less take one frame.
fn frames(name: &str) -> (f32, f64) { [(2.0, 0.5), (4.0, 0.25), (0.0, 1.0), (1.0, 1.0), (-3.0, 1.0)][choice(5, name) as usize] }
fn env<U: UGen<Sample = f32, Inputs = U0, Outputs = U1>>(mut u: U, asr: bool, ra: f64, rr: f64, ops: usize) {
    let mut ctx = AudioCtx::new(SR, BS, ArLogSender::non_rt());
    u.init(SR, BS);
    let mut r = R { s: S::Stop, v: 0.0, scale: 1.0, ra, rr, asr };
    let how = choice(3, "how") as usize;
    for b in 0..ops + 2 {
        let mut out = VecBlock::<f32>::new(1, BS);
        let mut flags = UGenFlags::new();
        // one thing happens at some frame of each block: first a start, in the end a release
        let at = if b == 0 { 1 } else if b < ops { choice(BS as u32, "at") as usize } else { 0 };
        let op = if b == 0 { 1 } else if b < ops { choice(if asr { 5 } else { 4 }, "op") } else if asr { 4 } else { 0 };
        let (mut ok, mut done) = (true, None);
        if at > 0 { run(&mut u, &mut ctx, &mut flags, &mut out, 0, at, how); }
        let mut want = [0.0; BS];
        for f in 0..BS {
            if f == at { match op {
                0 => {}
                1 => { set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger); r.restart(); if b > 0 { cover("again"); } }
                2 => { set(&mut u, &mut ctx, "attack_time", 2.0 / SR as f64); r.ra = 0.5; }
                3 => { set(&mut u, &mut ctx, "release_time", 1.0 / SR as f64); r.rr = 1.0; }
                _ => { set(&mut u, &mut ctx, "t_release", ParameterValue::Trigger); r.release(); }
            } }
            let (w, d) = r.frame();
            want[f] = w;
            if d { done = Some(f as u32); cover("done"); }
        }
        run(&mut u, &mut ctx, &mut flags, &mut out, at, BS, how);
        for f in 0..BS { let y = Block::read(&out, 0, f); ok &= y as f64 == want[f]; check(y >= 0.0 && y <= 1.0, RANGE); }
        check(ok, VAL);
        check(flags.done() == done, DONE);
    }
    check(r.s == S::Stop, "an envelope finishes");
}
// @h h_c13_asr cover=again,done : EnvAsr with attack and release of 2, 4, 0, 1 or -3 frames, started, then in each of 2 blocks of 4 frames a restart, release, other attack or release time or nothing at any frame, then a release; blocks whole, in parts or frame by frame
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_asr() {
    let ((a, ra), (l, rr)) = (frames("attack"), frames("release"));
    env(EnvAsr::<f32>::new(a / SR as f32, l / SR as f32), true, ra, rr, 3);
}
// @h h_c13_ar cover=again,done : EnvAr, as above without releases
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_ar() {
    let ((a, ra), (l, rr)) = (frames("attack"), frames("release"));
    env(EnvAr::<f32>::new(a / SR as f32, l / SR as f32), false, ra, rr, 3);
}
/// Any time: in range, monotone and finished after the time or a frame later (rounding).
fn long<U: UGen<Sample = f32, Inputs = U0, Outputs = U1>>(mut u: U, asr: bool, a: usize, l: usize) {
    let mut ctx = AudioCtx::new(48000, BS, ArLogSender::non_rt());
    u.init(48000, BS);
    set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger);
    let mut prev = 0.0;
    let (mut top, mut end) = (None, None);
    let mut ok = true;
    let mut released = false;
    for t in 0..a + l + 8 {
        if asr && !released && top.is_some_and(|p| t >= p + 2) { set(&mut u, &mut ctx, "t_release", ParameterValue::Trigger); released = true; }
        let mut flags = UGenFlags::new();
        let y = u.process(&mut ctx, &mut flags, Default::default())[0];
        ok &= y >= 0.0 && y <= 1.0 && if top.is_none() { y >= prev } else { y <= prev };
        if top.is_none() && y == 1.0 { top = Some(t); }
        if flags.done().is_some() { check(end.is_none(), DONE); end = Some(t); }
        if let Some(e) = end { if t > e { check(y == 0.0, DONE); } else if t < e { check(y > 0.0, DONE); } }
        prev = y;
    }
    check(ok, MONO);
    let top = top.unwrap();
    check(top == a.max(1) || top == a + 1, "an envelope reaches the end of a segment after the configured time");
    let n = end.unwrap() - top - if asr { 2 } else { 0 } + 1;
    check(n == l.max(1) || n == l + 1, "an envelope reaches the end of a segment after the configured time");
}
// @h h_c13_long : EnvAsr and EnvAr at 48 kHz with attack and release of 0 to 40 frames, by constructor or by parameter: monotone, in range, each segment's length as configured (or a frame more, rounding), done once
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_long() {
    let (a, l) = (choice(41, "attack") as usize, [0, 1, 3, 7, 10, 33][choice(6, "release") as usize]);
    let (x, y) = (a as f32 / 48000.0, l as f32 / 48000.0);
    match choice(2, "which") { 0 => long(EnvAsr::<f32>::new(x, y), true, a, l), _ => long(EnvAr::<f32>::new(x, y), false, a, l) }
}
// @h h_c13_times : EnvAsr with any attack time (every f32) at 48 kHz, started, 3 frames, then released: in range and monotone in each part
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_times() {
    let mut u = EnvAsr::<f32>::new(any_f32("attack"), 1.0 / 96000.0);
    let mut ctx = AudioCtx::new(48000, BS, ArLogSender::non_rt());
    UGen::init(&mut u, 48000, BS);
    set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger);
    let mut prev = 0.0;
    let mut flags = UGenFlags::new();
    for t in 0..5 {
        if t == 3 { set(&mut u, &mut ctx, "t_release", ParameterValue::Trigger); prev = 1.0; }
        let y = UGen::process(&mut u, &mut ctx, &mut flags, Default::default())[0];
        check(y >= 0.0 && y <= 1.0, RANGE);
        check(if t < 3 { y >= prev } else { y <= prev }, MONO);
        prev = y;
    }
    check(flags.done().is_some() && prev == 0.0, DONE);
}
/// Segments: (frames, value)
fn segments(n: usize) -> Vec<(usize, f64)> {
    let mut v = Vec::new();
    for i in 0..n { v.push(([0, 1, 2, 3][choice(4, "duration") as usize], [1.0, 0.25, 0.5, 0.0][i])); }
    v
}
fn value(start: f64, segs: &[(usize, f64)], t: f64) -> (f64, bool) {
    let (mut from, mut t) = (start, t);
    for (d, v) in segs {
        if t < *d as f64 { return (from + t / *d as f64 * (v - from), false); }
        t -= *d as f64;
        from = *v;
    }
    (from, true)
}
fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
// @h h_c13_segments cover=done : Envelope of 0 to 3 segments of 0 to 3 frames each, time scale 1, 2 or 0.5, started in the first of 3 blocks of 4 frames (whole, in parts or frame by frame), not looping
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_segments() {
    let segs = segments(choice(4, "segments") as usize);
    let scale = [1.0, 2.0, 0.5][choice(3, "time scale") as usize];
    let start = 0.75;
    let mut u = Envelope::<f64>::new(start, segs.iter().map(|(d, v)| EnvelopeSegment::new(*d as f64 / SR as f64, *v)).collect()).time_scale(scale);
    let mut ctx = AudioCtx::new(SR, BS, ArLogSender::non_rt());
    u.init(SR, BS);
    let how = choice(3, "how") as usize;
    let mut t = 0.0;
    let mut ended = false;
    for b in 0..3 {
        let mut out = VecBlock::<f64>::new(1, BS);
        let mut flags = UGenFlags::new();
        let mut done = None;
        if b == 0 { run(&mut u, &mut ctx, &mut flags, &mut out, 0, 1, how); check(Block::read(&out, 0, 0) == start, VAL); set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger); }
        let s = (b == 0) as usize;
        run(&mut u, &mut ctx, &mut flags, &mut out, s, BS, how);
        for f in s..BS {
            let (w, e) = value(start, &segs, t);
            let y = Block::read(&out, 0, f);
            check(near(y, w), VAL);
            check(y >= 0.0 && y <= 1.0, RANGE);
            if e && !ended { ended = true; done = Some(f as u32); cover("done"); }
            t += scale;
        }
        check(flags.done() == done, DONE);
    }
}
// @h h_c13_ops cover=loop : Envelope of 0 to 2 segments of 0 to 3 frames, looping or not: in each of 2 blocks of 4 frames, at frame 0 or 2, a restart, a stop, a jump to segment 0, 1 or 7, a time scale of 0, 3 or 20, or nothing: in range, held after a stop, done at most once per start, from the start value after a restart
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_ops() {
    let segs = segments(choice(3, "segments") as usize);
    let looping = choice(2, "looping") == 1;
    let start = 0.75;
    let mut u = Envelope::<f64>::new(start, segs.iter().map(|(d, v)| EnvelopeSegment::new(*d as f64 / SR as f64, *v)).collect()).looping(looping);
    let mut ctx = AudioCtx::new(SR, BS, ArLogSender::non_rt());
    u.init(SR, BS);
    set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger);
    let mut done = false;
    for _ in 0..2 {
        let mut flags = UGenFlags::new();
        let at = 2 * choice(2, "at");
        let op = choice(7, "op");
        let (mut prev, mut stopped) = (None, false);
        for f in 0..BS {
            if f == at { match op {
                0 => {}
                1 => { set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger); done = false; }
                2 => { set(&mut u, &mut ctx, "t_stop", ParameterValue::Trigger); stopped = true; prev = None; }
                k @ 3..=4 => { set(&mut u, &mut ctx, "jump_to_segment", ParameterValue::Integer([0usize, 7][k as usize - 3].into())); done = false; }
                k => set(&mut u, &mut ctx, "time_scale", [0.0, 20.0][k as usize - 5]),
            } }
            let mut fl = UGenFlags::new();
            let y = u.process(&mut ctx, &mut fl, Default::default())[0];
            check(y >= 0.0 && y <= 1.0, RANGE);
            if op == 1 && f == at { check(y == value(start, &segs, 0.0).0, VAL); }
            if stopped { check(prev.is_none_or(|p| y == p), "a stopped envelope holds its value"); check(fl.done().is_none(), DONE); }
            if fl.done().is_some() { check(!done && !looping, DONE); done = true; }
            if looping { cover("loop"); }
            prev = Some(y);
        }
        let _ = &mut flags;
    }
}
// @h h_c13_range : Envelope of 1 segment with any start and end value between 0 and 1 (f64) and 3 frames, 4 frames: between the two, starts at the first and ends at the end value
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_range() {
    let (a, b) = (any_f64("start"), any_f64("end"));
    assume(a >= 0.0 && a <= 1.0 && b >= 0.0 && b <= 1.0);
    let mut u = Envelope::<f64>::new(a, vec![EnvelopeSegment::new(3.0 / SR as f64, b)]);
    let mut ctx = AudioCtx::new(SR, BS, ArLogSender::non_rt());
    u.init(SR, BS);
    set(&mut u, &mut ctx, "t_restart", ParameterValue::Trigger);
    for t in 0..4 {
        let mut flags = UGenFlags::new();
        let y = u.process(&mut ctx, &mut flags, Default::default())[0];
        check(y >= 0.0 && y <= 1.0, RANGE);
        check(if a <= b { y >= a && y <= b } else { y <= a && y >= b }, RANGE);
        if t == 0 { check(y == a, VAL); }
        if t == 3 { check(y == b && flags.done().is_some(), DONE); } else { check(flags.done().is_none(), DONE); }
    }
}
