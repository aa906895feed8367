//! C22: scheduled changes take effect at their exact sample.
use crate::ev::*;
const OUT: &str = "a scheduled change takes effect at its frame (with sample-accurate timing) or in the block it falls in, neither earlier nor later";
fn push(g: &mut Graph<Z>, m: &mut EM, precise: bool) -> NodeId {
    let n = m.node(precise);
    #[allow(deprecated)]
    let id: NodeId = if precise { (&g.push(PU::new().precise_timing::<4>())).into() } else { (&g.push(PU::new())).into() };
    for c in 0..2 { check(g.connect2(id, c, 2 * n as u16 + c, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted"); }
    id
}
fn setup(first: (u32, u32), precise: &[bool]) -> (Graph<Z>, AudioProcessor<Z>, knaster_core::log::ArLogReceiver<U1>, EM, Vec<NodeId>, u64) {
    let (mut g, mut ap, l) = AudioProcessor::<Z>::new::<U0, U4>(eopts());
    let mut m = EM::new();
    let ids = precise.iter().map(|p| push(&mut g, &mut m, *p)).collect();
    commit(&mut g);
    let t = first.0 as u64 * SR as u64 + first.1 as u64;
    ap.verif_set_frame_clock(t);
    (g, ap, l, m, ids, t)
}
/// A time in the frame, anywhere in it or at its first (k = 1) or last (k = 0) tick.
fn within(secs: u32, f: u32, k: usize, sym: bool) -> Seconds {
    if sym { time_in(secs, f, ["in frame a", "in frame b"][k]) } else { Seconds::new(secs, f * TPS + if k == 0 { TPS - 1 } else { 0 }) }
}
/// An absolute time from `back` frames before the clock's first value to `ahead` frames after it: (time, frame)
fn absolute(now: (u32, u32), back: u32, ahead: u32, k: usize, sym: bool) -> (Seconds, u64) {
    let name = ["frame of a", "frame of b"][k];
    let back = back.min(if now.0 == 0 { now.1 } else { back });
    let f = now.1 + choice(back + ahead, name) as u32 - back;
    (within(now.0 + f / SR, f % SR, k, sym), now.0 as u64 * SR as u64 + f as u64)
}
// @h h_c22_at : one change with any absolute time (ticks) from 6 frames before to 11 frames after the current block's start, at 4 clock values up to 2^31 frames, with and without sample-accurate timing, sent up to 1 block later
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_at() {
    let now = clock();
    let (g, mut ap, _l, mut m, ids, mut t) = setup(now, &[choice(2, "precise") == 1]);
    let (s, due) = absolute(now, 6, 11, 0, true);
    if choice(2, "a block first") == 1 { m.run(&mut ap, &mut t, OUT); }
    let v = any_z("value");
    check(g.set(ids[0], 1, v.pv(), Time::at(s)).is_ok(), "a change is accepted");
    m.ev(0, 1, v.0, due);
    for _ in 0..3 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c22_after : one change after any duration (ticks) of up to 11 frames, at 4 clock values, with and without sample-accurate timing: it counts from the start of the block that receives it
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_after() {
    let now = clock();
    let (g, mut ap, _l, mut m, ids, mut t) = setup(now, &[choice(2, "precise") == 1]);
    if choice(2, "a block first") == 1 { m.run(&mut ap, &mut t, OUT); }
    let d = choice(12, "delay") as u64;
    let v = any_z("value");
    check(g.set(ids[0], 0, v.pv(), Time::after(time_in(0, d as u32, "in frame"))).is_ok(), "a change is accepted");
    m.ev(0, 0, v.0, t + d);
    for _ in 0..3 { m.run(&mut ap, &mut t, OUT); }
}
/// Sends one of the kinds of change with the Parameter api; `due` as it will be if received in the block starting at `t`.
fn two(n: usize, sym: bool) {
    let now = if sym { clock() } else { (0, 47996) };
    let precise = choice(2, "precise") == 1;
    let (mut g, mut ap, _l, mut m, ids, mut t) = setup(now, &[precise]);
    let mut par = Vec::new();
    let id = ids[0];
    g.edit(|g| { let h = g.handle(id).unwrap(); par = vec![h.param(0), h.param(1)]; });
    let mut last: Option<(usize, u64)> = None;
    for k in 0..n {
        let p = if k == 0 { 0 } else { choice(2, "parameter") };
        let v = any_z(["value a", "value b"][k]);
        let due = match choice(4, "kind") {
            0 => { check(par[p].set(v.pv()).is_ok(), "a change is accepted"); m.ev(0, p, v.0, t); t }
            1 => { let d = choice(6, ["delay a", "delay b"][k]) as u64; check(par[p].set_after(v.pv(), within(0, d as u32, k, sym)).is_ok(), "a change is accepted"); m.ev(0, p, v.0, t + d); t + d }
            2 => { let (s, due) = absolute(now, 2, 6, k, sym); check(par[p].set_at(v.pv(), s).is_ok(), "a change is accepted"); m.ev(0, p, v.0, due); if due < t { t } else { due } }
            _ => { let (s, due) = absolute(now, 2, 6, k, sym); check(par[p].set_time(v.pv(), Time::at(s)).is_ok(), "a change is accepted"); m.ev(0, p, v.0, due); if due < t { t } else { due } }
        };
        // different due times of one parameter in one block have an order only with sample-accurate timing
        if let Some((q, d)) = last { if !precise && q == p { assume(d == due || (d / 4) != (due / 4)); } }
        last = Some((p, due));
        if k + 1 < n && choice(2, "a block between") == 1 { m.run(&mut ap, &mut t, OUT); }
    }
    for _ in 0..3 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c22_two quickonly : two changes to the same or to different parameters through parameter handles (at once, after a duration, at a time, on the first or last tick of a frame), in the same block or not, across a second's boundary
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_two() { two(2, false); }
// @h h_c22_two_ticks thorough : as h_c22_two at 4 clock values and any tick within the frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_two_ticks() { two(2, true); }
// @h h_c22_three thorough : as h_c22_two with three changes
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_three() { two(3, false); }
/// Several changes that wait at the same time, each for its own time.
fn waiting(n: usize, same: bool) {
    let precise = choice(2, "precise") == 1;
    let (g, mut ap, _l, mut m, ids, mut t) = setup((0, 47996), &if same { vec![precise] } else { vec![precise; 2] });
    let mut last: Option<u64> = None;
    for k in 0..n {
        let v = any_z(["value a", "value b", "value c"][k]);
        let node = if same { 0 } else { k % 2 };
        let d = choice(if n == 2 { 4 } else { 3 }, ["blocks a", "blocks b", "blocks c"][k]) as u64 * 4 + [3, 0][choice(2, ["frame a", "frame b", "frame c"][k])];
        let due = t + d;
        let time = if choice(2, ["absolute a", "absolute b", "absolute c"][k]) == 1 { Time::at(within((due / SR as u64) as u32, (due % SR as u64) as u32, k % 2, false)) } else { Time::after(within(0, d as u32, k % 2, false)) };
        let p = if k == 2 { 0 } else { 1 };
        check(g.set(ids[node], p, v.pv(), time).is_ok(), "a change is accepted");
        m.ev(node, p as usize, v.0, due);
        if let Some(l) = last { if !precise && same { assume(l == due || l / 4 != due / 4); } }
        last = Some(due);
    }
    for _ in 0..5 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c22_waiting : two changes (of one parameter or of two nodes) that wait at the same time for up to 4 blocks, each at a time or after a duration
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_waiting() { let same = choice(2, "same") == 1; waiting(2, same); }
// @h h_c22_waiting3 thorough : three changes of two nodes that wait at the same time for up to 3 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_waiting3() { waiting(3, false); }
/// A rate and block size other than those of the rest.
fn at_rate(sr: u32, bs: usize, precise: bool, d: u64, abs: bool, sym: bool) {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { block_size: bs, sample_rate: sr, ..eopts() });
    #[allow(deprecated)]
    let id: NodeId = if precise { (&g.push(PU::new().precise_timing::<2>())).into() } else { (&g.push(PU::new())).into() };
    check(g.connect2(id, 0, 0, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted");
    commit(&mut g);
    let mut t = if choice(2, "start") == 0 { 0 } else { 5 * sr as u64 - bs as u64 };
    ap.verif_set_frame_clock(t);
    let due = t + d;
    let v = any_z("value");
    let tick = 282_240_000 / sr;
    let r = if sym { any_in(0, tick as u64 - 1, "in frame") as u32 } else { [0, tick - 1][choice(2, "tick")] };
    let at = if abs { due } else { d };
    let s = Seconds::new((at / sr as u64) as u32, (at % sr as u64) as u32 * tick + r);
    check(g.set(id, 0, v.pv(), if abs { Time::at(s) } else { Time::after(s) }).is_ok(), "a change is accepted");
    for _ in 0..(d / bs as u64 + 2).min(4) {
        ap.run_without_inputs();
        let mut x = 0;
        for f in 0..bs { x |= rd(ap.output_block(), 0, f).0 ^ if t + f as u64 >= if precise { due } else { due - d % bs as u64 } { fold(start(0), v.0) } else { start(0) }; }
        check(x == 0, OUT);
        t += bs as u64;
    }
}
fn rates(sym: bool) {
    let (sr, bs) = [(8000, 3), (44100, 16), (96000, 1), (192000, 16)][choice(4, "rate")];
    let d = [0, 1, 2, 3, 7, 15, 16, 18][choice(8, "frame")];
    if d / bs as u64 > 3 { return; }
    at_rate(sr, bs, choice(2, "precise") == 1, d, choice(2, "absolute") == 1, sym);
}
// @h h_c22_rates quickonly : sample rates 8000, 44100, 96000, 192000 with block sizes 1, 3, 16: a change at or after a time in any of 8 of the next 19 frames (first or last tick), at the start or around 5 s
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_rates() { rates(false); }
// @h h_c22_rates_ticks thorough : as h_c22_rates at any tick of the frame
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_rates_ticks() { rates(true); }
// @h h_c22_nested : a node in a nested graph (two levels), with and without sample-accurate timing, a change at any of the next 10 frames or after 0 to 9 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_nested() {
    let precise = choice(2, "precise") == 1;
    let now = (0, 47996);
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U2>(eopts());
    let mut m = EM::new();
    m.node(precise);
    let (mut a, mut b, mut id) = (None, None, None);
    g.edit(|e| {
        let (h, s) = e.subgraph::<U0, U2>(GraphOptions::default(), |e| {
            let (h, s) = e.subgraph::<U0, U2>(GraphOptions::default(), |e| {
                if precise { let h = e.push(PU::new().precise_timing::<4>()); id = Some(h.id()); h.to_graph_out(); } else { let h = e.push(PU::new()); id = Some(h.id()); h.to_graph_out(); }
            });
            h.to_graph_out();
            b = Some(s);
        });
        h.to_graph_out();
        a = Some(s);
    });
    let (_a, b) = (a.unwrap(), b.unwrap());
    let mut t = now.0 as u64 * SR as u64 + now.1 as u64;
    ap.verif_set_frame_clock(t);
    if choice(2, "a block first") == 1 { m.run(&mut ap, &mut t, OUT); }
    let v = any_z("value");
    if choice(2, "kind") == 0 {
        let (s, due) = absolute(now, 2, 10, 0, true);
        check(b.set(id.unwrap(), 1, v.pv(), Time::at(s)).is_ok(), "a change is accepted");
        m.ev(0, 1, v.0, due);
    } else {
        let d = choice(10, "delay") as u64;
        check(b.set(id.unwrap(), 1, v.pv(), Time::after(within(0, d as u32, 0, true))).is_ok(), "a change is accepted");
        m.ev(0, 1, v.0, t + d);
    }
    for _ in 0..4 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c22_kinds : every kind of parameter handle call (value, trigger, smoothing; at once, at, after, with a time) with a due frame of 0 to 9, with and without sample-accurate timing
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_kinds() {
    let now = (0, 47996);
    let (mut g, mut ap, _l, mut m, ids, mut t) = setup(now, &[choice(2, "precise") == 1]);
    let mut par = None;
    g.edit(|g| { par = Some(g.handle(ids[0]).unwrap().param(1)); });
    let mut par = par.unwrap();
    let d = choice(10, "frame") as u32;
    let after = within(0, d, 0, false);
    let at = within((now.1 + d) / SR, (now.1 + d) % SR, 0, false);
    let v = any_z("value");
    let sm = knaster_core::ParameterSmoothing::Linear(0.25);
    let (kind, how) = (choice(3, "kind"), choice(5, "how"));
    let (r, c) = match kind {
        0 => (match how { 0 => par.set(v.pv()), 1 => par.set_at(v.pv(), at), 2 => par.set_after(v.pv(), after), 3 => par.set_time(v.pv(), Time::at(at)), _ => par.set_time(v.pv(), Time::after(after)) }, v.0),
        1 => (match how { 0 => par.trig(), 1 => par.trig_at(at), 2 => par.trig_after(after), 3 => par.trig_time(Time::at(at)), _ => par.trig_time(Time::after(after)) }, code(ParameterValue::Trigger)),
        _ => (match how { 0 => par.smooth(sm), 1 => par.smooth_at(sm, at), 2 => par.smooth_after(sm, after), 3 => par.smooth_time(sm, Time::at(at)), _ => par.smooth_time(sm, Time::after(after)) }, code(sm.into())),
    };
    check(r.is_ok(), "a change is accepted");
    m.ev(0, 1, c, if how == 0 { t } else { t + d as u64 });
    for _ in 0..4 { m.run(&mut ap, &mut t, OUT); }
}
