//! C21: done actions free exactly what they say, when they say it.
use crate::gr::*;
use knaster_core::Done;
const DONE: [Done; 3] = [Done::None, Done::FreeSelf, Done::FreeParent];
/// Like a `Tag<U1, U1>`, and marks itself done at frame `at` of its life (and at every `every`th one after it, if that is not 0).
/// How: 0: done, 1: asks to be removed itself, 2: asks for the removal of its graph.
struct D { t: Tag<U1, U1>, n: u32, at: u32, every: u32, how: u8 }
impl D { fn new(tag: u32, at: u32) -> D { D { t: Tag::new(tag), n: 0, at, every: 0, how: 0 } } }
impl UGen for D {
    type Sample = Z;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U0;
    fn init(&mut self, sr: u32, bs: usize) { self.t.init(sr, bs) }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Z, U1>) -> Frame<Z, U1> { self.t.process(ctx, flags, input) }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &I, output: &mut O) where I: BlockRead<Sample = Z> + ?Sized, O: Block<Sample = Z> + ?Sized {
        for f in 0..ctx.frames_to_process() {
            if self.n == self.at || (self.every > 0 && self.n > self.at && (self.n - self.at) % self.every == 0) {
                let frame = (ctx.block_start_offset() + f) as u32;
                match self.how { 0 => flags.mark_done(frame), 1 => flags.mark_remove_self(ctx), _ => flags.mark_remove_parent(frame) }
            }
            self.n += 1;
            let r = self.t.process(ctx, flags, [input.read(0, f)].into());
            output.write(r[0], 0, f);
        }
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
fn push_d(g: &mut Graph<Z>, m: &mut M, d: D, action: Done) -> usize {
    let tag = d.t.tag;
    let id = g.edit(|g| g.push_with_done_action(d, action).id());
    m.added(id, tag, 1, 1)
}
const OUT: &str = "a node whose done action removes it is gone, every other node goes on";
// @h h_c21_self : up to two nodes with any done action (none, free self) and a plain node in a chain of three; done at any of 6 frames, again after 2 frames or never; an edit after each of 4 blocks or not: nodes that were done are removed by the next edit, the others stay
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_self() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U3>();
    let mut due = Vec::new();
    for k in 0..2u32 {
        let a = choice(2, ["action a", "action b"][k as usize]);
        let at = [0, 1, 3, 30][choice(if k == 0 { 4 } else { 2 }, ["done a", "done b"][k as usize])];
        let mut d = D::new(k + 1, at);
        if k == 0 { match choice(3, "how a") { 1 => d.every = 2, 2 => d.how = 1, _ => {} } }
        // a node that asks for its own removal is removed if it was pushed with a done action, whatever that is
        due.push(if a == 1 || d.how == 1 { at } else { u32::MAX });
        push_d(&mut g, &mut m, d, DONE[a]);
    }
    m = m.with_tags(3);
    m.push_shape(&mut g, 1);
    m.connect(&mut g, Src::In(0), 0, 0);
    m.connect(&mut g, Src::Node(0, 0), 1, 0);
    m.connect(&mut g, Src::In(0), 2, 0);
    for n in 0..3 { m.connect_out(&mut g, Src::Node(n, 0), n); }
    m.connect_out(&mut g, Src::Node(1, 0), 2);
    commit(&mut g);
    let mut freed_at = [9u32; 2];
    for b in 0..4u32 {
        m.run(&mut ap, OUT);
        if choice(2, "edit") == 1 {
            commit(&mut g);
            for k in 0..2 { if m.nodes[k].alive && (b + 1) * B as u32 > due[k] { m.freed(k); freed_at[k] = b; } }
        }
    }
    commit(&mut g);
    for k in 0..2 { if m.nodes[k].alive && 4 * B as u32 > due[k] { m.freed(k); } }
    m.run(&mut ap, OUT);
    commit(&mut g);
    for (k, n) in m.nodes.iter().enumerate() {
        check(drops(n.tag) == !n.alive as u32, "a removed node is dropped once, a node whose action is none stays");
        check(g.node_data(n.id).is_some() == n.alive, "the graph knows the nodes that are left");
        let _ = k;
    }
}
/// Runs a block whose output is that of `m` up to frame `end` (counted from the start of this block) and silence from it on.
fn run_until(m: &mut M, ap: &mut AudioProcessor<Z>, end: usize, outs: &[usize]) {
    let inp = [[any_z("in0"), any_z("in0b")]];
    let want = m.eval(&inp);
    ap.run(&[&inp[0]]);
    let mut d = 0;
    for (c, w) in want.iter().enumerate() { for f in 0..B { d |= rd(ap.output_block(), c, f).0 ^ if outs.contains(&c) && f >= end { 0 } else { w[f].0 }; } }
    check(d == 0, "a graph that is removed is silent from exactly the frame on at which it is removed, and everything else goes on");
}
/// Two nodes with done actions in the same graph, which is nested in another one or is the outermost one.
fn parent(nested: bool) {
    // outputs 0, 1 come from the graph that is removed, output 2 from a node beside it
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U3>();
    let (mut at, mut act) = ([0u32; 2], [0usize; 2]);
    let mut ds = Vec::new();
    for k in 0..2 {
        act[k] = choice(3, ["action a", "action b"][k]);
        at[k] = [0, 1, 2, 3, 100][choice(5, ["done a", "done b"][k])];
        let mut d = D::new(k as u32 + 1, at[k]);
        if k == 0 { d.how = [0, 0, 2][choice(2, "how") * 2]; if d.how == 2 { act[0] = 2; } }
        ds.push(Some((d, DONE[act[k]])));
    }
    let mut sub = None;
    let mut ids = Vec::new();
    let mut sid = None;
    if nested {
        let id = g.edit(|e| {
            let (h, s) = e.subgraph::<U1, U2>(GraphOptions::default(), |e| {
                for (k, d) in ds.iter_mut().enumerate() {
                    let (d, a) = d.take().unwrap();
                    let n = e.push_with_done_action(d, a);
                    ids.push(n.id());
                    e.from_inputs([0]).unwrap().to(n);
                    n.to_graph_out_channels([k as u16]);
                }
            });
            e.from_inputs([0]).unwrap().to(h);
            h.to_graph_out_channels([0, 1]);
            sub = Some(s);
            sid = Some(h.id());
            let p = e.push(Tag::<U1, U1>::new(3));
            e.from_inputs([0]).unwrap().to(p);
            p.to_graph_out_channels([2]);
            p.id()
        });
        ids.push(id);
    } else {
        g.edit(|e| {
            for (k, d) in ds.iter_mut().enumerate() {
                let (d, a) = d.take().unwrap();
                let n = e.push_with_done_action(d, a);
                ids.push(n.id());
                e.from_inputs([0]).unwrap().to(n);
                n.to_graph_out_channels([k as u16]);
            }
            let p = e.push(Tag::<U1, U1>::new(3));
            e.from_inputs([0]).unwrap().to(p);
            p.to_graph_out_channels([2]);
            ids.push(p.id());
        });
    }
    for (k, id) in ids.iter().enumerate() {
        m.added(*id, k as u32 + 1, 1, 1);
        m.nodes[k].ins[0].push(Src::In(0));
        m.outs[k].push(Src::Node(k, 0));
    }
    // the graph goes at the first frame at which one of them is done and asks for it
    let end = (0..2).filter(|k| act[*k] == 2).map(|k| at[k]).min().unwrap_or(100) as usize;
    let all: &[usize] = if nested { &[0, 1] } else { &[0, 1, 2] };
    let edit_at = choice(4, "edit");
    for b in 0..4usize {
        run_until(&mut m, &mut ap, end.saturating_sub(b * B), all);
        if (b + 1) * B > end && end <= (b * B) + 1 { cover("removed"); }
        if b == edit_at {
            // a removed graph's own handle may still be used
            if choice(2, "edit inside") == 1 { if let Some(s) = &mut sub { s.edit(|e| { e.push(Tag::<U0, U1>::new(5)); }); } }
            // nodes with FreeSelf that are done are removed by an edit of their graph; only look at those that are not
            if (0..2).any(|k| act[k] == 1 && at[k] < 100) { return; }
            commit(&mut g);
        }
    }
    if !nested { return; }
    let gone = end < 100;
    commit(&mut g);
    if (0..2).any(|k| act[k] == 1 && at[k] < 100) { return; }
    run_until(&mut m, &mut ap, 0usize.max(if gone { 0 } else { 100 }), all);
    commit(&mut g);
    check(g.node_data(sid.unwrap()).is_some() == !gone, "exactly a graph that is to be removed is removed");
    check(drops(3) == 0, "a node beside a removed graph stays");
    drop(sub);
    for k in 0..2 { check(drops(k as u32 + 1) == gone as u32, "the nodes in a removed graph are dropped once, others stay"); }
}
// @h h_c21_parent cover=removed : two nodes with any done action, done at any of frames 0 to 3 or never (one may ask for the removal directly), in a nested graph beside another node, 5 blocks, edits in between: the nested graph's outputs are silent from exactly the earliest such frame on and the graph is removed
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_parent() { parent(true); }
// @h h_c21_outer cover=removed : the same with the nodes in the outermost graph
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_outer() { parent(false); }
// @h h_c21_action : the done action of a node in a nested graph is changed through its parameter (any action to any) before, in or after the block in which the node is done once
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_action() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U3>();
    let (a, b) = (choice(3, "from"), choice(3, "to"));
    let (mut id, mut par, mut sid, mut sub) = (None, None, None, None);
    g.edit(|e| {
        let (h, s) = e.subgraph::<U1, U2>(GraphOptions::default(), |e| {
            let n = e.push_with_done_action(D::new(1, 3), DONE[a]);
            id = Some(n.id());
            par = Some(n.param("done_action"));
            e.from_inputs([0]).unwrap().to(n);
            n.to_graph_out_channels([0]);
        });
        e.from_inputs([0]).unwrap().to(h);
        h.to_graph_out_channels([0, 1]);
        sid = Some(h.id());
        sub = Some(s);
    });
    let mut sub = sub.unwrap();
    m.added(id.unwrap(), 1, 1, 1);
    m.nodes[0].ins[0].push(Src::In(0));
    m.outs[0].push(Src::Node(0, 0));
    let when = choice(3, "when");
    let mut par = par.unwrap();
    // done in frame 1 of block 1
    let act = if when < 2 { b } else { a };
    for k in 0..4usize {
        if when == k { check(par.set(DONE[b]).is_ok(), "a change is accepted"); }
        run_until(&mut m, &mut ap, if act == 2 { 3usize.saturating_sub(k * B) } else { 100 }, &[0, 1]);
        if act == 1 && k == 1 { break; }
    }
    commit(&mut g);
    commit(&mut sub);
    if act == 1 { m.freed(0); }
    run_until(&mut m, &mut ap, if act == 2 { 0 } else { 100 }, &[0, 1]);
    commit(&mut sub);
    commit(&mut g);
    check(g.node_data(sid.unwrap()).is_some() == (act != 2), "exactly a graph that is to be removed is removed");
    if act < 2 { check(sub.node_data(id.unwrap()).is_some() == (act == 0) && drops(1) == (act == 1) as u32, "the node is removed exactly if its action says so"); }
}
