//! C24: the frame clock counts processed frames.
use crate::gr::*;
use knaster_core_dsp::wrappers_core::*;
const RATES: [u32; 6] = [8000, 22050, 44100, 48000, 96000, 192000];
const TPS: u64 = 282_240_000;
/// What a node saw in the block at hand: (frame clock, offset, frames) of each call.
static SEEN: [core::sync::atomic::AtomicU64; 64] = [const { core::sync::atomic::AtomicU64::new(0) }; 64];
static NSEEN: AtomicU32 = AtomicU32::new(0);
fn seen(t: u64, off: usize, n: usize) { let i = NSEEN.fetch_add(1, Relaxed) as usize; if i < 21 { SEEN[3 * i].store(t, Relaxed); SEEN[3 * i + 1].store(off as u64, Relaxed); SEEN[3 * i + 2].store(n as u64, Relaxed); } }
struct Clock;
impl UGen for Clock {
    type Sample = Z;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U1;
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: &I, output: &mut O) where I: BlockRead<Sample = Z> + ?Sized, O: Block<Sample = Z> + ?Sized {
        seen(ctx.frame_clock(), ctx.block_start_offset(), ctx.frames_to_process());
        for f in 0..ctx.frames_to_process() { output.write(Z(0), 0, f); }
    }
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Z, U0>) -> Frame<Z, U1> { [Z(0)].into() }
    fn param_hints() -> NumericArray<ParameterHint, U1> { [ParameterHint::new_float(|h| h)].into() }
    fn param_descriptions() -> NumericArray<&'static str, U1> { ["p"].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// Every call seen since `from` covers the block starting at `t` without gaps, each with its own time.
fn covers(nodes: usize, t: u64, bs: usize, expect: &[&[usize]]) {
    check(NSEEN.load(Relaxed) as usize == expect.iter().map(|e| e.len()).sum::<usize>(), "each unit is called for its parts of the block");
    let _ = nodes;
    let mut i = 0;
    for e in expect {
        let mut off = 0;
        for len in *e {
            let (a, o, n) = (SEEN[3 * i].load(Relaxed), SEEN[3 * i + 1].load(Relaxed), SEEN[3 * i + 2].load(Relaxed));
            check(a == t + off, "a unit sees the time of the first frame it is asked for");
            check(o == off && n == *len as u64, "a unit sees its position in the block");
            off += *len as u64;
            i += 1;
        }
        check(off == bs as u64, "the parts make up the block");
    }
    NSEEN.store(0, Relaxed);
}
/// Exactly `frames` whole sample periods of `sr` (which divides the ticks of a second).
fn is_time(s: Seconds, frames: u64, sr: u32) -> bool { s.to_subsample_tesimals_u64() == frames * (TPS / sr as u64) }

// @h h_c24_clock : any time up to 2^33 frames, 6 sample rates, block sizes 1, 2, 64 and 5, 3 blocks by run or run_without_inputs: the shared clock is the number of frames in all completed blocks, as seen through the graph, a nested graph and handles, and never goes back
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_clock() {
    let sr = RATES[choice(6, "rate")];
    let bs = [1, 2, 64, 5][choice(4, "block size")];
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { block_size: bs, sample_rate: sr, ..opts() });
    #[allow(deprecated)]
    let mut sub = g.subgraph::<U0, U1>(GraphOptions::default());
    #[allow(deprecated)]
    let inner = sub.subgraph::<U0, U1>(GraphOptions::default());
    #[allow(deprecated)]
    let h = g.push(Clock);
    commit(&mut g);
    let clocks = [g.shared_frame_clock(), sub.shared_frame_clock(), inner.shared_frame_clock(), g.inspection().shared_frame_clock];
    for c in &clocks { check(is_time(c.get(), 0, sr), "the clock starts at zero"); }
    let mut t = 0;
    if choice(2, "later") == 1 { t = any_in(0, 1 << 33, "frames so far"); ap.verif_set_frame_clock(t); }
    let mut last = 0;
    for k in 0..3 {
        if k == 1 { ap.run(&[]) } else { ap.run_without_inputs() }
        t += bs as u64;
        let now = g.shared_frame_clock().get();
        check(is_time(now, t, sr), "the clock is the number of processed frames");
        for c in &clocks { check(c.get() == now, "all views of the clock agree"); }
        let ticks = now.to_subsample_tesimals_u64();
        check(ticks > last, "the clock goes forward");
        last = ticks;
        check(h.current_frame_time() == now, "a handle reads the same clock");
    }
}
// @h h_c24_units : a node in the graph, one in a nested graph and one two levels down, from any time up to 2^60 frames, block size 4: each sees the time of the block it produces, whether or not the graph around it was edited
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_units() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { block_size: 4, ..opts() });
    let (mut a, mut b) = (None, None);
    g.edit(|e| {
        e.push(Clock);
        let (_, s) = e.subgraph::<U0, U1>(GraphOptions::default(), |e| {
            e.push(Clock);
            let (_, s) = e.subgraph::<U0, U1>(GraphOptions::default(), |e| { e.push(Clock); });
            b = Some(s);
        });
        a = Some(s);
    });
    let (mut a, mut b) = (a.unwrap(), b.unwrap());
    let mut t = any_in(0, 1 << 60, "frames so far");
    ap.verif_set_frame_clock(t);
    let mut n = 3;
    for _ in 0..3 {
        match choice(4, "edit") { 0 => { g.edit(|g| { g.push(Clock); }); n += 1; } 1 => { a.edit(|g| { g.push(Clock); }); n += 1; } 2 => { b.edit(|g| { g.push(Clock); }); n += 1; } _ => {} }
        ap.run_without_inputs();
        covers(n, t, 4, &vec![&[4usize][..]; n]);
        t += 4;
    }
}
// @h h_c24_partial : a unit under sample-accurate timing, with changes at any two frames of a block of 4: each part of the block is computed with the time of its first frame
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_partial() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { block_size: 4, ..opts() });
    #[allow(deprecated)]
    let id: NodeId = (&g.push(Clock.precise_timing::<3>())).into();
    commit(&mut g);
    let mut t = any_in(0, 1 << 30, "frames so far");
    ap.verif_set_frame_clock(t);
    for _ in 0..2 {
        let (x, y) = (choice(5, "first change"), choice(5, "second change"));
        for d in [x, y] { if d < 4 { check(g.set(id, 0, 1.0, knaster_graph::Time::after(Seconds::from_samples(d as u64, 48000))).is_ok(), "a change is accepted"); } }
        ap.run_without_inputs();
        let mut cuts: Vec<usize> = [x, y].into_iter().filter(|d| *d > 0 && *d < 4).collect();
        cuts.sort();
        cuts.dedup();
        let mut parts = Vec::new();
        let mut p = 0;
        for c in cuts { parts.push(c - p); p = c; }
        parts.push(4 - p);
        covers(1, t, 4, &[&parts]);
        t += 4;
    }
}
