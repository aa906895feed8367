//! A reference graph: what the edges mean, written down independently of the graph crate.
pub use crate::util::*;
pub use crate::z::*;
pub use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
pub use knaster_graph::handle::HandleTrait;
pub use knaster_graph::processor::*;
pub use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
pub use knaster_core::{UGen, impl_ugen, numeric_array::NumericArray};

/// Frames per block in the graph harnesses.
pub const B: usize = 2;
pub const MAXN: usize = 8;
static FRAMES: [AtomicU32; 32] = [const { AtomicU32::new(0) }; 32];
static INITS: [AtomicU32; 32] = [const { AtomicU32::new(0) }; 32];
static DROPS: [AtomicU32; 32] = [const { AtomicU32::new(0) }; 32];
pub fn frames(tag: u32) -> u32 { FRAMES[tag as usize].load(Relaxed) }
pub fn inits(tag: u32) -> u32 { INITS[tag as usize].load(Relaxed) }
pub fn drops(tag: u32) -> u32 { DROPS[tag as usize].load(Relaxed) }

struct Hook(core::cell::UnsafeCell<Option<Box<dyn FnMut(At, u32)>>>);
unsafe impl Sync for Hook {}
static HOOK: Hook = Hook(core::cell::UnsafeCell::new(None));
/// Where in a node a hook is called: before it is initialised, before a frame of it, when it is dropped.
#[derive(Clone, Copy, PartialEq)]
pub enum At { Init, Frame(u32), Drop }
/// `f` is called once, at the given point of the node with the given tag: the other thread, at that moment.
pub fn hook_at(at: At, tag: u32, mut f: impl FnMut() + 'static) {
    let mut done = false;
    unsafe { *HOOK.0.get() = Some(Box::new(move |a, t| if !done && a == at && t == tag { done = true; f(); })) };
}
pub fn unhook() { unsafe { *HOOK.0.get() = None } }
pub fn point(at: At, tag: u32) { hook(at, tag) }
fn hook(at: At, tag: u32) {
    // taken out while it runs, so that it is not entered again
    if let Some(mut f) = unsafe { (*HOOK.0.get()).take() } { f(at, tag); unsafe { *HOOK.0.get() = Some(f) }; }
}
/// The value node `tag` gives on output `o` when its inputs are `ins` and it has run `n` frames before.
pub fn node_fn(tag: u32, n: u32, ins: &[Z], o: usize) -> Z {
    let mut a = tag.wrapping_mul(0x01f3_5a7b).wrapping_add(n.wrapping_mul(0x10_0001)).wrapping_add(o as u32 * 0x7001);
    for x in ins { a = crate::ks::mix(a, x.0); }
    Z(a)
}
/// A node with I inputs and O outputs, stateful (counts its frames), counting runs, inits and drops.
pub struct Tag<I: Size, O: Size> { pub tag: u32, n: u32, inited: bool, _p: core::marker::PhantomData<NumericArray<u8, I>>, _q: core::marker::PhantomData<NumericArray<u8, O>> }
impl<I: Size, O: Size> Tag<I, O> {
    pub fn new(tag: u32) -> Self { Tag { tag, n: 0, inited: false, _p: Default::default(), _q: Default::default() } }
}
impl<I: Size, O: Size> Drop for Tag<I, O> { fn drop(&mut self) { hook(At::Drop, self.tag); DROPS[self.tag as usize].fetch_add(1, Relaxed); } }
impl<I: Size, O: Size> UGen for Tag<I, O> {
    type Sample = Z;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn init(&mut self, sr: u32, bs: usize) {
        check(sr == 48000 && bs == B && !self.inited, "a node is initialised with the graph's sample rate and block size");
        hook(At::Init, self.tag);
        INITS[self.tag as usize].fetch_add(1, Relaxed);
        self.inited = true;
    }
    fn process(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<Z, I>) -> Frame<Z, O> {
        let _ = ctx;
        hook(At::Frame(self.n), self.tag);
        check(self.inited, "a node is initialised before it runs");
        FRAMES[self.tag as usize].fetch_add(1, Relaxed);
        let n = self.n;
        self.n = self.n.wrapping_add(1);
        let mut out: Frame<Z, O> = Default::default();
        for o in 0..O::USIZE { out[o] = node_fn(self.tag, n, &input, o); }
        out
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// A node with one input, one output and two float parameters, both of which go into the output.
pub struct PTag { tag: u32, n: u32, inited: bool, p: [Z; 2] }
impl PTag { pub fn new(tag: u32) -> Self { PTag { tag, n: 0, inited: false, p: [Z(0); 2] } } }
impl Drop for PTag { fn drop(&mut self) { DROPS[self.tag as usize].fetch_add(1, Relaxed); } }
impl UGen for PTag {
    type Sample = Z;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U2;
    fn init(&mut self, sr: u32, bs: usize) {
        check(sr == 48000 && bs == B && !self.inited, "a node is initialised with the graph's sample rate and block size");
        INITS[self.tag as usize].fetch_add(1, Relaxed);
        self.inited = true;
    }
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<Z, U1>) -> Frame<Z, U1> {
        check(self.inited, "a node is initialised before it runs");
        FRAMES[self.tag as usize].fetch_add(1, Relaxed);
        let n = self.n;
        self.n = self.n.wrapping_add(1);
        [node_fn(self.tag, n, &[input[0], self.p[0], self.p[1]], 0)].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::new_float(|h| h), ParameterHint::new_float(|h| h)].into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["p0", "p1"].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        if let ParameterValue::Float(f) = v { self.p[i] = Z::new(f); } else { check(false, "a float parameter receives a float"); }
    }
}
/// A signal: graph input, output of a node, the latter over feedback edge number `.2`, or what goes through a port of a nested graph.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src { In(usize), Node(usize, usize), Fb(usize, usize, usize), Port(usize) }
#[derive(Clone)]
pub struct MN { pub par: Option<[Z; 2]>, pub pins: [Vec<Src>; 2],  pub id: NodeId, pub tag: u32, pub ni: usize, pub no: usize, pub n: u32, pub ins: Vec<Vec<Src>>, pub alive: bool, pub val: Vec<[Z; B]> }
/// The reference.
#[derive(Clone)]
pub struct M { pub ports: Vec<(NodeOrGraph, u16, Vec<Src>)>, pub nodes: Vec<MN>, pub outs: Vec<Vec<Src>>, pub nin: usize, next_tag: u32, fbs: Vec<[Z; B]>, sets: Vec<(usize, usize, Z)> }
pub fn opts() -> AudioProcessorOptions { AudioProcessorOptions { block_size: B, sample_rate: 48000, ring_buffer_size: 8, log_channel_capacity: 4 } }
pub fn graph_of<I: Size, O: Size + knaster_core::typenum::NonZero>() -> (Graph<Z>, AudioProcessor<Z>, knaster_core::log::ArLogReceiver<U1>, M) {
    let (g, ap, l) = AudioProcessor::<Z>::new::<I, O>(opts());
    (g, ap, l, M::new(I::USIZE, O::USIZE))
}
impl M {
    pub fn new(nin: usize, nout: usize) -> M { M { ports: Vec::new(), nodes: Vec::new(), outs: vec![Vec::new(); nout], nin, next_tag: 1, fbs: Vec::new(), sets: Vec::new() } }
    pub fn with_tags(mut self, first: u32) -> M { self.next_tag = first; self }
    pub fn added(&mut self, id: NodeId, tag: u32, ni: usize, no: usize) -> usize {
        self.nodes.push(MN { par: None, pins: [Vec::new(), Vec::new()], id, tag, ni, no, n: 0, ins: vec![Vec::new(); ni], alive: true, val: vec![[Z(0); B]; no] });
        self.nodes.len() - 1
    }
    pub fn push<I: Size, O: Size>(&mut self, g: &mut Graph<Z>) -> usize {
        let tag = self.next_tag;
        self.next_tag += 1;
        #[allow(deprecated)]
        let h = g.push(Tag::<I, O>::new(tag));
        self.added((&h).into(), tag, I::USIZE, O::USIZE)
    }
    /// A node with audio rate parameters.
    pub fn push_par(&mut self, g: &mut Graph<Z>) -> usize {
        use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
        let tag = self.next_tag;
        self.next_tag += 1;
        #[allow(deprecated)]
        let h = g.push(PTag::new(tag).ar_params());
        let i = self.added((&h).into(), tag, 1, 1);
        self.nodes[i].par = Some([Z(0); 2]);
        i
    }
    pub fn set(&mut self, g: &mut Graph<Z>, i: usize, k: usize, v: Z) {
        check(g.set(self.nodes[i].id, k, v.pv(), knaster_graph::Time::asap()).is_ok(), "setting an existing parameter is accepted");
        // takes effect at the next block, which has the edges committed by then
        self.sets.push((i, k, v));
    }
    /// A change of parameter `k` of node `i` was sent by other means.
    pub fn set_model(&mut self, i: usize, k: usize, v: Z) { self.sets.push((i, k, v)); }
    pub fn connect_par(&mut self, g: &mut Graph<Z>, s: Src, i: usize, k: usize) {
        let (so, sc) = self.nog(s);
        let NodeOrGraph::Node(so) = so else { unreachable!() };
        check(g.connect_to_parameter(so, sc, k, self.nodes[i].id).is_ok(), "connecting to an existing parameter is accepted");
        self.nodes[i].pins[k].push(s);
    }
    pub fn connect_par_replace(&mut self, g: &mut Graph<Z>, s: Src, i: usize, k: usize) {
        let (so, sc) = self.nog(s);
        let NodeOrGraph::Node(so) = so else { unreachable!() };
        check(g.connect_replace_to_parameter(so, sc, k, self.nodes[i].id).is_ok(), "connecting to an existing parameter is accepted");
        self.nodes[i].pins[k] = vec![s];
    }
    /// Shapes: 0: (0,1) 1: (1,1) 2: (2,1) 3: (1,2) 4: (2,2) 5: (1,0)
    pub fn push_shape(&mut self, g: &mut Graph<Z>, s: usize) -> usize {
        match s { 0 => self.push::<U0, U1>(g), 1 => self.push::<U1, U1>(g), 2 => self.push::<U2, U1>(g), 3 => self.push::<U1, U2>(g), 5 => self.push::<U1, U0>(g), _ => self.push::<U2, U2>(g) }
    }
    pub fn reaches(&self, from: usize, to: usize) -> bool {
        // signal path from node `from` into node `to` (feedback edges do not count)
        from == to || self.nodes[to].ins.iter().chain(&self.nodes[to].pins).flatten().any(|s| matches!(s, Src::Node(j, _) if self.reaches(from, *j)))
    }
    pub fn nog(&self, s: Src) -> (NodeOrGraph, u16) {
        match s { Src::Port(k) => (self.ports[k].0, self.ports[k].1), Src::In(c) => (NodeOrGraph::Graph, c as u16), Src::Node(j, c) | Src::Fb(j, c, _) => (NodeOrGraph::Node(self.nodes[j].id), c as u16) }
    }
    /// Connect to input `ch` of node `i`, in both.
    pub fn connect(&mut self, g: &mut Graph<Z>, s: Src, i: usize, ch: usize) {
        let (so, sc) = self.nog(s);
        let r = g.connect2(so, sc, ch as u16, self.nodes[i].id);
        check(r.is_ok(), "a valid connection is accepted");
        self.nodes[i].ins[ch].push(s);
    }
    pub fn connect_replace(&mut self, g: &mut Graph<Z>, s: Src, i: usize, ch: usize) {
        let (so, sc) = self.nog(s);
        let r = g.connect2_replace(so, sc, ch as u16, NodeOrGraph::Node(self.nodes[i].id));
        check(r.is_ok(), "a valid connection is accepted");
        self.nodes[i].ins[ch] = vec![s];
    }
    pub fn connect_fb(&mut self, g: &mut Graph<Z>, j: usize, c: usize, i: usize, ch: usize) {
        let r = g.connect2_feedback(NodeOrGraph::Node(self.nodes[j].id), c as u16, ch as u16, NodeOrGraph::Node(self.nodes[i].id));
        check(r.is_ok(), "a feedback connection is accepted");
        self.fbs.push([Z(0); B]);
        self.nodes[i].ins[ch].push(Src::Fb(j, c, self.fbs.len() - 1));
    }
    /// A feedback edge that was made by other means.
    pub fn expect_fb(&mut self, j: usize, c: usize, i: usize, ch: usize) {
        self.fbs.push([Z(0); B]);
        self.nodes[i].ins[ch].push(Src::Fb(j, c, self.fbs.len() - 1));
    }
    pub fn connect_fb_replace(&mut self, g: &mut Graph<Z>, j: usize, c: usize, i: usize, ch: usize) {
        let r = g.connect2_feedback_replace(NodeOrGraph::Node(self.nodes[j].id), c as u16, ch as u16, NodeOrGraph::Node(self.nodes[i].id));
        check(r.is_ok(), "a feedback connection is accepted");
        self.fbs.push([Z(0); B]);
        self.nodes[i].ins[ch] = vec![Src::Fb(j, c, self.fbs.len() - 1)];
    }
    pub fn connect_out(&mut self, g: &mut Graph<Z>, s: Src, ch: usize) {
        let (so, sc) = self.nog(s);
        let r = g.connect2(so, sc, ch as u16, NodeOrGraph::Graph);
        check(r.is_ok(), "a valid connection to an output is accepted");
        self.outs[ch].push(s);
    }
    pub fn connect_out_replace(&mut self, g: &mut Graph<Z>, s: Src, ch: usize) {
        let (so, sc) = self.nog(s);
        let r = g.connect2_replace(so, sc, ch as u16, NodeOrGraph::Graph);
        check(r.is_ok(), "a valid connection to an output is accepted");
        self.outs[ch] = vec![s];
    }
    pub fn disconnect_input(&mut self, g: &mut Graph<Z>, i: usize, ch: usize) {
        check(g.disconnect_input_to_sink(ch as u16, self.nodes[i].id).is_ok(), "disconnecting an existing input is accepted");
        self.nodes[i].ins[ch].clear();
    }
    pub fn disconnect_graph_out(&mut self, g: &mut Graph<Z>, ch: usize) {
        check(g.disconnect_input_to_sink(ch as u16, NodeOrGraph::Graph).is_ok(), "disconnecting a graph output is accepted");
        self.outs[ch].clear();
    }
    pub fn disconnect_source(&mut self, g: &mut Graph<Z>, s: Src) {
        let (so, sc) = self.nog(s);
        check(g.disconnect_output_from_source(so, sc).is_ok(), "disconnecting an existing output is accepted");
        self.remove_edges(|e| *e == s || matches!((*e, s), (Src::Fb(j, c, _), Src::Node(k, d)) if j == k && c == d));
    }
    fn remove_edges(&mut self, mut f: impl FnMut(&Src) -> bool) {
        for n in &mut self.nodes { for i in n.ins.iter_mut().chain(&mut n.pins) { i.retain(|e| !f(e)); } }
        for o in &mut self.outs { o.retain(|e| !f(e)); }
        for p in &mut self.ports { p.2.retain(|e| !f(e)); }
    }
    /// Node `i` is gone.
    pub fn freed(&mut self, i: usize) {
        self.nodes[i].alive = false;
        for e in &mut self.nodes[i].ins { e.clear(); }
        for e in &mut self.nodes[i].pins { e.clear(); }
        self.remove_edges(|e| matches!(e, Src::Node(j, _) | Src::Fb(j, _, _) if *j == i));
    }
    pub fn free(&mut self, g: &mut Graph<Z>, i: usize) {
        let id = self.nodes[i].id;
        check(g.edit(|g| g.free_node(id)).is_ok(), "freeing an existing node is accepted");
        self.freed(i);
    }
    fn src(&self, s: Src, f: usize, inp: &[[Z; B]]) -> Z {
        match s { Src::Port(k) => self.sum(&self.ports[k].2, f, inp), Src::In(c) => inp[c][f], Src::Node(j, c) => self.nodes[j].val[c][f], Src::Fb(_, _, k) => self.fbs[k][f] }
    }
    fn ready(&self, s: Src, done: &[bool]) -> bool { match s { Src::Node(j, _) => done[j], Src::Port(k) => self.ports[k].2.iter().all(|s| self.ready(*s, done)), _ => true } }
    fn sum(&self, ss: &[Src], f: usize, inp: &[[Z; B]]) -> Z { let mut a = Z(0); for s in ss { a = a + self.src(*s, f, inp); } a }
    /// One block of the reference.
    pub fn eval(&mut self, inp: &[[Z; B]]) -> Vec<[Z; B]> {
        let mut done = vec![false; self.nodes.len()];
        for (i, k, v) in core::mem::take(&mut self.sets) { let n = &mut self.nodes[i]; if n.alive && n.pins[k].is_empty() { n.par.as_mut().unwrap()[k] = v; } }
        loop {
            let mut progress = false;
            for i in 0..self.nodes.len() {
                if done[i] || !self.nodes[i].alive { continue; }
                if self.nodes[i].ins.iter().chain(&self.nodes[i].pins).flatten().any(|s| !self.ready(*s, &done)) { continue; }
                for f in 0..B {
                    let mut xs: Vec<Z> = self.nodes[i].ins.iter().map(|ss| self.sum(ss, f, inp)).collect();
                    if let Some(mut p) = self.nodes[i].par {
                        for k in 0..2 { if !self.nodes[i].pins[k].is_empty() { p[k] = self.sum(&self.nodes[i].pins[k], f, inp); } }
                        self.nodes[i].par = Some(p);
                        xs.extend(p);
                    }
                    let (tag, n) = (self.nodes[i].tag, self.nodes[i].n);
                    for o in 0..self.nodes[i].no { self.nodes[i].val[o][f] = node_fn(tag, n, &xs, o); }
                    self.nodes[i].n = n.wrapping_add(1);
                }
                done[i] = true;
                progress = true;
            }
            if !progress { break; }
        }
        for n in &self.nodes { for e in n.ins.iter().flatten() { if let Src::Fb(j, c, k) = *e { self.fbs[k] = self.nodes[j].val[c]; } } }
        self.outs.iter().map(|ss| { let mut o = [Z(0); B]; for f in 0..B { o[f] = self.sum(ss, f, inp); } o }).collect()
    }
    /// Node states as they are in `from`, which has the same nodes or fewer.
    pub fn adopt(&mut self, from: &M) {
        for (a, b) in self.nodes.iter_mut().zip(&from.nodes) { a.n = b.n; a.val = b.val.clone(); a.par = b.par; }
        for (a, b) in self.fbs.iter_mut().zip(&from.fbs) { *a = *b; }
        self.sets.clear();
    }
    /// Runs one block of both on fresh symbolic input and compares outputs and run counts.
    pub fn run(&mut self, ap: &mut AudioProcessor<Z>, what: &str) {
        let mut inp: Vec<[Z; B]> = Vec::new();
        for c in 0..self.nin { inp.push([any_z(["in0", "in1", "in2", "in3"][c]), any_z(["in0b", "in1b", "in2b", "in3b"][c])]); }
        self.run_with(ap, &inp, what)
    }
    pub fn run_with(&mut self, ap: &mut AudioProcessor<Z>, inp: &[[Z; B]], what: &str) {
        let before: Vec<u32> = self.nodes.iter().map(|n| frames(n.tag)).collect();
        let refs: Vec<&[Z]> = inp.iter().map(|x| &x[..]).collect();
        audio(|| ap.run(&refs));
        let want = self.eval(inp);
        let mut d = 0u32;
        for (c, w) in want.iter().enumerate() { for f in 0..B { d |= rd(ap.output_block(), c, f).0 ^ w[f].0; } }
        check(d == 0, what);
        let mut ok = true;
        for (n, b) in self.nodes.iter().zip(before) { ok &= frames(n.tag) == b + if n.alive { B as u32 } else { 0 }; }
        check(ok, "every node in the graph runs exactly once per block, no other node runs");
    }
}
/// Set where what the audio side does with the heap is examined.
pub static RT: AtomicU32 = AtomicU32::new(0);
/// What the audio side does.
pub fn audio<R>(f: impl FnOnce() -> R) -> R {
    let on = RT.load(Relaxed) != 0;
    if on { rt(true); }
    let r = f();
    if on { rt(false); }
    r
}
/// Picks a source for an input of node `i` (or a graph output, i == usize::MAX) that does not close a cycle.
pub fn pick(m: &M, i: usize, none: bool, ins: usize) -> Option<Src> {
    let mut c: Vec<Option<Src>> = Vec::new();
    if none { c.push(None); }
    for k in 0..ins { c.push(Some(Src::In(k))); }
    for j in 0..m.nodes.len() {
        if !m.nodes[j].alive || (i != usize::MAX && m.reaches(i, j)) { continue; }
        for o in 0..m.nodes[j].no { c.push(Some(Src::Node(j, o))); }
    }
    if c.is_empty() { return None; }
    c[choice(c.len() as u32, "source")]
}
pub fn commit(g: &mut Graph<Z>) { g.edit(|_| {}); }
