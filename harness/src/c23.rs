//! C23: no accepted parameter change is lost, repeated or reordered.
use crate::ev::*;
const OUT: &str = "every accepted change is applied exactly once, in order, to its own node and to no other";
const T0: u64 = 47996;
fn start_at(ap: &mut AudioProcessor<Z>) -> u64 { ap.verif_set_frame_clock(T0); T0 }
fn push(g: &mut Graph<Z>, m: &mut EM, precise: bool) -> NodeId {
    let n = m.node(precise);
    #[allow(deprecated)]
    let id: NodeId = if precise { (&g.push(PU::new().precise_timing::<8>())).into() } else { (&g.push(PU::new())).into() };
    wire(g, id, n);
    id
}
fn wire(g: &mut Graph<Z>, id: NodeId, n: usize) { for c in 0..2 { check(g.connect2(id, c, 2 * n as u16 + c, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted"); } }
/// The time of the first tick of the frame `d` after T0.
fn at(d: u64) -> Time { let f = (T0 + d) as u32; Time::at(Seconds::new(f / SR, f % SR * TPS)) }
fn after(d: u64) -> Time { Time::after(Seconds::new(0, d as u32 * TPS)) }
/// Sends a change to parameter `p` of node `n` (as asap, at frame `d` from T0 or `d` frames from now).
fn send(g: &Graph<Z>, m: &mut EM, id: NodeId, n: usize, p: usize, kind: usize, d: u64, t: u64) {
    let v = any_z("value");
    let (time, due) = match kind { 0 => (Time::asap(), t), 1 => (at(d), T0 + d), _ => (after(d), t + d) };
    check(g.set(id, p, v.pv(), time).is_ok(), "a change is accepted");
    m.ev(n, p, v.0, due);
}
fn setup() -> (Graph<Z>, AudioProcessor<Z>, EM, u64) {
    let (g, mut ap, l) = AudioProcessor::<Z>::new::<U0, U6>(eopts());
    core::mem::forget(l);
    let t = start_at(&mut ap);
    (g, ap, EM::new(), t)
}
fn order(n: usize) {
    let (mut g, mut ap, mut m, mut t) = setup();
    let ids = [push(&mut g, &mut m, false), push(&mut g, &mut m, true)];
    commit(&mut g);
    let mut last = [[0u64; 2]; 2];
    for k in 0..n {
        let (i, p) = [(0, 0), (1, 0), (1, 1)][choice(if k == 0 { 2 } else { 3 }, "parameter")];
        let (kind, d) = [(0, 0), (1, 6), (2, 6), (1, 1), (2, 9)][choice(5, "kind")];
        send(&g, &mut m, ids[i], i, p, kind, d, t);
        let e = m.evs.last_mut().unwrap();
        // an order is claimed for the same due time; with sample-accurate timing different due times have theirs
        if i == 0 { let due = e.due.max(t); if last[i][p] / 4 == due / 4 && last[i][p] != due { return; } last[i][p] = due; }
        if choice(2, "a block") == 1 { m.run(&mut ap, &mut t, OUT); }
    }
    for _ in 0..4 { m.run(&mut ap, &mut t, OUT); }
    check(m.evs.iter().all(|e| !e.live), "every change became due");
}
// @h h_c23_order : up to three changes (at once, at a time, after a duration; due frames from the past to two blocks ahead, some equal) to three parameters of two nodes, one with sample-accurate timing, with a block between any of them
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_order() { order(3); }
// @h h_c23_order4 thorough : as h_c23_order with four changes
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_order4() { order(4); }
// @h h_c23_edits : a change is pending or sent while the graph is edited in two steps (nodes pushed before or after in the processing order, freed, both, committed or not before the block): it is applied once, to its node only, and nodes that come later do not get changes of freed ones
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_edits() {
    let (mut g, mut ap, mut m, mut t) = setup();
    let ids = [push(&mut g, &mut m, false), push(&mut g, &mut m, true)];
    commit(&mut g);
    if choice(2, "a block first") == 1 { m.run(&mut ap, &mut t, OUT); }
    for i in 0..2 { let (kind, d) = [(0, 0), (1, 5), (2, 7), (1, 14)][choice(4, "kind")]; send(&g, &mut m, ids[i], i, i, kind, d, t); }
    let mut extra: Option<NodeId> = None;
    for k in 0..2 {
        match choice(4, "edit") {
            0 => {}
            1 => { let v = choice(2, "freed"); let id = ids[v];
                if g.edit(|g| g.free_node(id)).is_ok() { m.evs.retain(|e| e.node != v); m.words[v].0 = [0; 2]; } else { check(k == 1, "an existing node can be freed"); }
                check(g.set(id, 0, 1.0, Time::asap()).is_err(), "a change for a freed node is not accepted"); }
            2 => { if extra.is_none() {
                let n = m.node(choice(2, "precise") == 1);
                let precise = m.words[n].1;
                #[allow(deprecated)]
                let id: NodeId = if precise { (&g.push(PU::new().precise_timing::<8>())).into() } else { (&g.push(PU::new())).into() };
                wire(&mut g, id, n);
                extra = Some(id);
                send(&g, &mut m, id, n, 1, 0, 0, t);
                commit(&mut g);
                send(&g, &mut m, id, n, 0, 2, 1, t);
            } }
            _ => { g.edit(|g| { g.push(PU::new()); }); }
        }
        m.run(&mut ap, &mut t, OUT);
    }
    for _ in 0..3 { m.run(&mut ap, &mut t, OUT); commit(&mut g); }
}
// @h h_c23_early : two changes (at once, at a time, after a duration) for a node that is committed 0, 1 or 3 blocks later: each is applied once, when it is due or when the node arrives
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_early() {
    let (mut g, mut ap, mut m, mut t) = setup();
    push(&mut g, &mut m, false);
    commit(&mut g);
    let precise = choice(2, "precise") == 1;
    let wait = [0, 1, 3][choice(3, "blocks")];
    #[allow(deprecated)]
    let id: NodeId = if precise { (&g.push(PU::new().precise_timing::<8>())).into() } else { (&g.push(PU::new())).into() };
    m.node(precise);
    wire(&mut g, id, 1);
    // silent until it is there
    m.words[1].0 = [0; 2];
    let mut dues = Vec::new();
    for k in 0..2 {
        let (kind, d) = [(0, 0), (1, 3), (2, 6), (1, 13)][choice(4, "kind")];
        let v = any_z("value");
        let (time, due) = match kind { 0 => (Time::asap(), t), 1 => (at(d), T0 + d), _ => (after(d), t + d) };
        check(g.set(id, 0, v.pv(), time).is_ok(), "a change is accepted");
        dues.push((v.0, due));
        let _ = k;
    }
    for _ in 0..wait { m.run(&mut ap, &mut t, OUT); }
    m.words[1].0 = [start(0), start(1)];
    // what was due earlier happens at the start of the first block
    let (a, b) = (dues[0].1.max(t), dues[1].1.max(t));
    if !precise && a != b && a / 4 == b / 4 { return; }
    m.ev(1, 0, dues[0].0, a);
    m.ev(1, 0, dues[1].0, b);
    commit(&mut g);
    for _ in 0..4 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c23_full : ring size 2 or 3: up to seven changes, each at once or due one to three blocks ahead, with a block between any of them: one that is accepted is applied once at its time, one that is refused has no effect; there is room again once changes were applied
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_full() {
    let ring = [2, 3][choice(2, "ring")];
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U2>(AudioProcessorOptions { ring_buffer_size: ring, ..eopts() });
    let mut m = EM::new();
    let mut t = start_at(&mut ap);
    let id = push(&mut g, &mut m, true);
    commit(&mut g);
    m.run(&mut ap, &mut t, OUT);
    for k in 0..7 {
        // fill up first, then decide
        let d = if k < 2 { [0, 5][choice(2, "due")] } else { [0, 5, 9][choice(3, "due")] };
        let v = any_z("value");
        let r = g.set(id, 0, v.pv(), after(d));
        if r.is_ok() { m.ev(0, 0, v.0, t + d); } else { cover("refused"); check(m.evs.iter().filter(|e| e.live).count() >= ring, "a change is refused only if as many as the ring buffer holds are waiting"); }
        if k >= 2 && k < 5 && choice(2, "a block") == 1 { m.run(&mut ap, &mut t, OUT); }
    }
    for _ in 0..4 { m.run(&mut ap, &mut t, OUT); }
    check(m.evs.iter().all(|e| !e.live), "every change became due");
    for _ in 0..ring { send(&g, &mut m, id, 0, 1, 0, 0, t); }
    m.run(&mut ap, &mut t, OUT);
}
// @h h_c23_apis : each way of sending a change (graph, edit, several at once, typed handle, type-erased handle, parameter handle), two in a row to the same parameter
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_apis() {
    let (mut g, mut ap, mut m, mut t) = setup();
    let n = m.node(false);
    #[allow(deprecated)]
    let h = g.push(PU::new());
    let id: NodeId = (&h).into();
    wire(&mut g, id, n);
    let other = push(&mut g, &mut m, false);
    commit(&mut g);
    let any = h.clone().into_any();
    let mut par = None;
    g.edit(|g| { par = Some(g.handle(id).unwrap().param("p1")); });
    let mut par = par.unwrap();
    for k in 0..2 {
        let v = any_z(["value a", "value b"][k]);
        let r = match choice(8, "api") {
            0 => g.set(id, "p1", v.pv(), Time::asap()),
            1 => g.edit(|g| g.set(id, 1, v.pv(), Time::asap())),
            2 => { let w = any_z("other"); m.ev(1, 0, w.0, t); g.set_many(&[(other, 0.into(), w.pv().into()), (id, "p1".into(), v.pv().into())], Time::asap()); Ok(()) }
            3 => h.set((1, v.pv())),
            4 => h.set(("p1", v.pv())),
            5 => any.set((1, v.pv())),
            6 => any.set(("p1", v.pv())),
            _ => par.set(v.pv()),
        };
        check(r.is_ok(), "a change is accepted");
        m.ev(0, 1, v.0, t);
        if choice(2, "a block") == 1 { m.run(&mut ap, &mut t, OUT); }
    }
    for _ in 0..2 { m.run(&mut ap, &mut t, OUT); }
}
// @h h_c23_token : two changes, on nodes with and without sample-accurate timing, each with one of two tokens or none, tokens activated after 0 to 2 blocks or never: a change takes effect in the first block after its token was activated, once, and not before
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_token() {
    let (mut g, mut ap, mut m, mut t) = setup();
    let mut hs = Vec::new();
    for k in 0..2 {
        let n = m.node(k == 1);
        #[allow(deprecated)]
        let h = if k == 1 { g.push(PU::new().precise_timing::<8>()).into_any() } else { g.push(PU::new()).into_any() };
        wire(&mut g, (&h).into(), n);
        hs.push(h);
    }
    commit(&mut g);
    let tok = [SchedulingToken::new(), SchedulingToken::default()];
    let on = [choice(4, "token a on") as u64, choice(4, "token b on") as u64];
    for k in 0..3 {
        let (n, v) = (choice(2, "node"), any_z(["a", "b", "c"][k]));
        if k == 2 { check(hs[n].set((1, v.pv())).is_ok(), "a change is accepted"); m.ev(n, 1, v.0, t); continue; }
        let j = choice(2, "token");
        check(hs[n].set((0, v.pv(), tok[j].clone())).is_ok(), "a change is accepted");
        m.ev(n, 0, v.0, if on[j] == 3 { u64::MAX } else { t + on[j] * EB as u64 });
    }
    // changes of one parameter with different tokens apply in the order of their activation
    for b in 0..4 {
        for j in 0..2 { if on[j] == b { check(!tok[j].is_activated(), "a token is inactive until it is activated"); tok[j].clone().activate_inner(); check(tok[j].is_activated(), "a token is active from then on"); } }
        if b == 3 { for e in &mut m.evs { if e.live { e.due = t; } } for k in 0..2 { if on[k] == 3 { tok[k].clone().activate_inner(); } } }
        m.run(&mut ap, &mut t, OUT);
    }
    m.run(&mut ap, &mut t, OUT);
}
// @h h_c23_mid_block : a change is sent by the control side at any moment of a running block (any frame of any of two nodes): it is applied once, in the next block
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_mid_block() {
    let (mut g, mut ap, mut m, mut t) = setup();
    let ids = [push(&mut g, &mut m, false), push(&mut g, &mut m, true)];
    #[allow(deprecated)]
    let _h = g.push(Ticker(0));
    commit(&mut g);
    if choice(2, "pending") == 1 { send(&g, &mut m, ids[1], 1, 0, 2, 5, t); }
    let (i, v) = (choice(2, "node"), any_z("sent inside"));
    let at = choice(4, "frame") as u32;
    let g = std::rc::Rc::new(g);
    let (g2, id) = (g.clone(), ids[i]);
    hook_at(At::Frame(at), 30, move || { check(g2.set(id, 0, v.pv(), Time::asap()).is_ok(), "a change is accepted"); cover("inside"); });
    m.run(&mut ap, &mut t, OUT);
    unhook();
    m.ev(i, 0, v.0, t);
    for _ in 0..3 { m.run(&mut ap, &mut t, OUT); }
}
struct Ticker(u32);
impl UGen for Ticker {
    type Sample = Z;
    type Inputs = U0;
    type Outputs = U0;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Z, U0>) -> Frame<Z, U0> { point(At::Frame(self.0), 30); self.0 += 1; [].into() }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
