//! C08: sample-accurate parameter changes.
use crate::wu::*;
const OUT: &str = "a delayed change takes effect from its frame on, a change without a delay at once, each in order and exactly once";
struct Ev { par: usize, due: usize, code: u32, seq: usize }
/// What is to come, in frames from the start of the first block.
struct Ref { p: [u32; N], n: u32, evs: Vec<Ev>, seq: usize, kind: usize, sent: usize }
impl Ref {
    fn new() -> Self { Ref { p: [wstart(0), wstart(1), wstart(2)], n: 0, evs: Vec::new(), seq: 0, kind: choice(3, "kind"), sent: 0 } }
    fn add(&mut self, par: usize, due: usize, code: u32) { self.seq += 1; self.evs.push(Ev { par, due, code, seq: self.seq }); }
    /// The parameter words on frame `f`, which are asked for in order.
    fn at(&mut self, f: usize) -> [u32; N] {
        // in the order of due time, those due at the same time in the order they came
        loop {
            let mut k: Option<usize> = None;
            for (i, e) in self.evs.iter().enumerate() { if e.due <= f && k.is_none_or(|k| e.due < self.evs[k].due) { k = Some(i); } }
            match k { None => break, Some(k) => { let e = self.evs.remove(k); self.p[e.par] = fold(self.p[e.par], e.code); } }
        }
        self.p
    }
}
fn value(k: usize) -> ParameterValue {
    match k % 3 { 0 => ParameterValue::Trigger, 1 => ParameterValue::Integer((any_u8("v") as usize).into()), _ => ParameterValue::Float(f64::from_bits(0x4000_0000_0000_0000 | any_u32("v") as u64)) }
}
/// Sends a change, due `due` frames after the start of the current block (`None`: without a delay).
fn send<T: UGen>(u: &mut T, ctx: &mut AudioCtx, r: &mut Ref, base: usize, now: usize, par: usize, due: Option<usize>, kept: bool) {
    let v = value(r.kind + r.sent);
    r.sent += 1;
    if let Some(d) = due { u.set_delay_within_block_for_param(ctx, par, d as u16); }
    u.param_apply(ctx, par, v);
    if kept {
        match due {
            Some(d) if d > 0 => r.add(par, base + d, wcode(v)),
            // at once
            _ => { let _ = now; r.p[par] = fold(r.p[par], wcode(v)); }
        }
    }
}
/// Runs the block in the parts that end at `cuts`, compares frame by frame.
fn part<T: UGen<Sample = Z, Inputs = U1, Outputs = U2>>(u: &mut T, ctx: &mut AudioCtx, r: &mut Ref, input: &VecBlock<Z>, base: usize, s: usize, len: usize, bs: usize) {
    let mut flags = UGenFlags::new();
    let mut out = VecBlock::<Z>::new(2, bs);
    if s == 0 && len == bs { u.process_block(ctx, &mut flags, input, &mut out); } else { run_part(u, ctx, &mut flags, input, &mut out, s, len); }
    let mut ok = true;
    for f in 0..bs {
        if f >= s && f < s + len {
            let p = r.at(base + f);
            for c in 0..2 { ok &= Block::read(&out, c, f) == wout(r.n, &p, 0, &[Block::read(input, 0, f)], c); }
            r.n += 1;
        } else {
            for c in 0..2 { ok &= Block::read(&out, c, f) == Z(0); }
        }
    }
    check(ok, OUT);
    check(ctx.frames_to_process() == bs && ctx.block_start_offset() == 0, "the context is given back as it was");
}
/// A delay; each is explored as its own path.
fn dly(lo: u64, hi: u64) -> usize { lo as usize + choice((hi - lo + 1) as u32, "delay") }
fn due(bs: usize, min: usize) -> Option<usize> { match choice(2, "delayed") { 0 => None, _ => Some(dly(min as u64, bs as u64 - 1)) } }
/// `k` changes of 2 parameters before a block of `bs` frames that is run in `parts` parts.
fn run(bs: usize, k: usize, parts: usize, second: usize) {
    let mut u = WU::<U1, U2>::new().precise_timing::<4>();
    let mut ctx = actx(bs);
    let mut r = Ref::new();
    for _ in 0..k { let par = choice(2, "parameter"); let d = due(bs, 0); send(&mut u, &mut ctx, &mut r, 0, 0, par, d, true); }
    let mut base = 0;
    for b in 0..2 {
        if b == 1 { for _ in 0..second { let par = choice(2, "parameter"); let d = due(bs, 0); send(&mut u, &mut ctx, &mut r, base, base, par, d, true); } }
        let input = zblock(1, bs, &INAMES);
        let mut s = 0;
        for i in 0..parts {
            if s == bs { break; }
            let len = if i + 1 == parts { bs - s } else { 1 + choice((bs - s) as u32, "part") };
            if s + len < bs { cover("split"); }
            part(&mut u, &mut ctx, &mut r, &input, base, s, len, bs);
            s += len;
        }
        base += bs;
    }
}
// @h h_c08_block : 3 changes (trigger, integer, float with symbolic values) of 2 of 3 parameters, each at once or after a symbolic delay within a block of 4 frames run as a whole; a second block
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_block() { run(4, 3, 1, 0); }
// @h h_c08_parts cover=split : 2 changes, blocks of 4 frames run in up to 3 parts
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_parts() { run(4, 2, 3, 0); }
// @h h_c08_two : 2 changes before the first and 1 before the second block of 3 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_two() { run(3, 2, 1, 1); }
// @h h_c08_deep thorough : 4 changes, blocks of 5 frames in up to 2 parts, 1 further change before the second block
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_deep() { run(5, 4, 2, 1); }
// @h h_c08_between : a change before and a change between the two parts of a block of 4 frames (its delay counted from the start of the block), and in the block after
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_between() {
    let bs = 4;
    let mut u = WU::<U1, U2>::new().precise_timing::<4>();
    let mut ctx = actx(bs);
    let mut r = Ref::new();
    let mut base = 0;
    for _ in 0..2 {
        let (par, d) = (choice(2, "parameter"), due(bs, 0));
        send(&mut u, &mut ctx, &mut r, base, base, par, d, true);
        let input = zblock(1, bs, &INAMES);
        let cut = 1 + choice(bs as u32 - 1, "part");
        part(&mut u, &mut ctx, &mut r, &input, base, 0, cut, bs);
        // at the frame the second part starts with, or later
        let (par, d) = (choice(2, "parameter"), Some(dly(cut as u64 + 1, bs as u64 - 1 + (cut + 1 == bs) as u64)));
        if cut + 1 < bs { send(&mut u, &mut ctx, &mut r, base, base + cut, par, d, true); }
        part(&mut u, &mut ctx, &mut r, &input, base, cut, bs - cut, bs);
        base += bs;
    }
}
// @h h_c08_later : changes of 2 parameters with delays of up to two and a half blocks of 2 frames, over 3 blocks; frame by frame parts or whole blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_later() {
    let bs = 2;
    let mut u = WU::<U1, U2>::new().precise_timing::<4>();
    let mut ctx = actx(bs);
    let mut r = Ref::new();
    for _ in 0..2 { let par = choice(2, "parameter"); send(&mut u, &mut ctx, &mut r, 0, 0, par, Some(dly(0, 5)), true); }
    let step = 1 + choice(2, "step");
    for b in 0..3 {
        let input = zblock(1, bs, &INAMES);
        let mut s = 0;
        while s < bs { part(&mut u, &mut ctx, &mut r, &input, b * bs, s, step, bs); s += step; }
    }
}
// @h h_c08_full cover=dropped : room for 2 delayed changes and 3 of them: the first two and undelayed ones are unaffected by the one that is ignored
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_full() {
    let bs = 3;
    let mut u = WU::<U1, U2>::new().precise_timing::<2>();
    let mut ctx = actx(bs);
    let mut r = Ref::new();
    let mut waiting = 0;
    for _ in 0..3 {
        let (par, d) = (choice(2, "parameter"), dly(1, bs as u64 - 1));
        waiting += 1;
        if waiting > 2 { cover("dropped"); }
        send(&mut u, &mut ctx, &mut r, 0, 0, par, Some(d), waiting <= 2);
    }
    let par = choice(2, "parameter");
    send(&mut u, &mut ctx, &mut r, 0, 0, par, None, true);
    let input = zblock(1, bs, &INAMES);
    part(&mut u, &mut ctx, &mut r, &input, 0, 0, bs, bs);
    // there is room again
    let (par, d) = (choice(2, "parameter"), dly(0, bs as u64 - 1));
    send(&mut u, &mut ctx, &mut r, bs, bs, par, Some(d), true);
    part(&mut u, &mut ctx, &mut r, &input, bs, 0, bs, bs);
}
// @h h_c08_one_delay : a delay given for one parameter applies to its next change only, and to no change of another parameter
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_one_delay() {
    let bs = 3;
    let mut u = WU::<U1, U2>::new().precise_timing::<4>();
    let mut ctx = actx(bs);
    let mut r = Ref::new();
    let d = dly(1, bs as u64 - 1);
    u.set_delay_within_block_for_param(&mut ctx, 0, d as u16);
    let v = value(r.kind + 0);
    u.param_apply(&mut ctx, 1, v);
    r.p[1] = fold(r.p[1], wcode(v));
    let e = value(r.kind + 1);
    u.param_apply(&mut ctx, 0, e);
    r.add(0, d, wcode(e));
    let w = value(r.kind + 2);
    u.param_apply(&mut ctx, 0, w);
    r.p[0] = fold(r.p[0], wcode(w));
    let input = zblock(1, bs, &INAMES);
    part(&mut u, &mut ctx, &mut r, &input, 0, 0, bs, bs);
}
