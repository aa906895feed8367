//! C04: parameters are addressed consistently.
use crate::gr::{AudioProcessor, AudioProcessorOptions, NodeId, NodeOrGraph};
use knaster_graph::graph::GraphError;
use crate::wu::*;
use knaster_core::{Param, ParameterError};
use knaster_graph::Time;
use knaster_graph::handle::HandleTrait;
const BS: usize = 3;
type Un = WU<U1, U2>;
/// How a parameter is addressed, and which parameter that is. Also any index that does not exist and any name of up to three letters that is not listed.
fn address(names: &[&'static str]) -> (Param, Option<usize>) {
    let n = names.len();
    let k = choice(n as u32 + 1, "parameter");
    let named = choice(2, "named") == 1;
    if k < n { return (if named { names[k].into() } else { k.into() }, Some(k)); }
    if named {
        let len = choice(4, "letters");
        let s: &'static mut [u8] = Vec::leak(vec![0u8; len]);
        for b in s.iter_mut() { *b = any_in(1, 127, "letter") as u8; }
        let s: &'static str = unsafe { core::str::from_utf8_unchecked(s) };
        for x in names { assume(!same_str(x, s)); }
        cover("unlisted");
        (s.into(), None)
    } else {
        cover("outside");
        ((any_in(n as u64, u64::MAX, "index") as usize).into(), None)
    }
}
fn same_str(a: &str, b: &str) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0;
    for i in 0..a.len() { d |= a.as_bytes()[i] ^ b.as_bytes()[i]; }
    d == 0
}
const SAME: &str = "setting a parameter by name has the effect of setting it by its index, and what is refused has none";
fn unit<T: UGen<Sample = Z, Inputs = U1, Outputs = U2>>(mut mk: impl FnMut() -> T, floats: bool) {
    let (mut a, mut b) = (mk(), mk());
    let mut ctx = actx(BS);
    a.init(48000, BS);
    b.init(48000, BS);
    let names: Vec<&'static str> = T::param_descriptions().iter().copied().collect();
    for i in 0..names.len() { for j in 0..i { check(names[i] != names[j], "no name is listed twice"); } }
    for _ in 0..2 {
        let (p, want) = address(&names);
        let v = if !floats && choice(2, "value") == 1 { ParameterValue::Integer(knaster_core::PInteger(any_u64("integer") as usize)) } else { ParameterValue::Float(any_z("v").pv()) };
        let r = b.param(&mut ctx, p, v);
        match want {
            Some(i) => { check(r.is_ok(), "a parameter can be set by its index and by its name"); a.param_apply(&mut ctx, i, v); }
            None => match p {
                Param::Index(_) => check(matches!(r, Err(ParameterError::ParameterIndexOutOfBounds)), "an index out of range is an error"),
                Param::Desc(_) => check(matches!(r, Err(ParameterError::DescriptionNotFound(_))), "an unknown name is an error"),
            },
        }
    }
    let input = zblock(1, BS, &INAMES);
    let (mut x, mut y) = (VecBlock::<Z>::new(2, BS), VecBlock::<Z>::new(2, BS));
    let (mut fa, mut fb) = (UGenFlags::new(), UGenFlags::new());
    if choice(2, "how") == 0 {
        a.process_block(&mut ctx, &mut fa, &input, &mut x);
        b.process_block(&mut ctx, &mut fb, &input, &mut y);
    } else {
        run_frames(&mut a, &mut ctx, &mut fa, &input, &mut x, 0, BS);
        run_frames(&mut b, &mut ctx, &mut fb, &input, &mut y, 0, BS);
    }
    let mut d = 0;
    for f in 0..BS { for c in 0..2 { d |= Block::read(&x, c, f).0 ^ Block::read(&y, c, f).0; } }
    check(d == 0, SAME);
}
// @h h_c04_unit cover=unlisted,outside : a recording unit with 3 parameters alone, in 8 wrappers and two nestings of three; two changes, each by index or name, of any parameter, any index that does not exist, any name of up to 3 letters that is not listed; any values; 3 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_unit() {
    let v = Z(77);
    match choice(11, "wrapper") {
        0 => unit(|| Un::new(), false),
        1 => unit(|| Un::new().ar_params(), false),
        2 => unit(|| Un::new().precise_timing::<4>(), false),
        3 => unit(|| Un::new().smooth_params(), true),
        4 => unit(|| Un::new().wr(|x: Z| x), false),
        5 => unit(|| Un::new().wr_mul(v), true),
        6 => unit(|| Un::new().wr_v_sub_gen(v), true),
        7 => unit(|| Un::new().wr_div(v), true),
        8 => unit(|| Un::new().wr_powi(2), true),
        9 => unit(|| Un::new().wr_add(v).smooth_params().precise_timing::<4>(), true),
        _ => unit(|| Un::new().smooth_params().ar_params().precise_timing::<4>(), true),
    }
}
fn gopts() -> AudioProcessorOptions { AudioProcessorOptions { block_size: BS, sample_rate: 48000, ring_buffer_size: 8, log_channel_capacity: 4 } }
fn refused(r: Result<(), GraphError>, want: Option<usize>) { check(r.is_ok() == want.is_some(), "a change is accepted if the parameter is there, and refused otherwise"); }
fn graph<T: UGen<Sample = Z, Inputs = U1, Outputs = U2> + 'static>(mut mk: impl FnMut() -> T) {
    let (mut g, mut ap, l) = AudioProcessor::<Z>::new::<U1, U4>(gopts());
    core::mem::forget(l);
    #[allow(deprecated)]
    let (h, o) = (g.push(mk()), g.push(mk()));
    let (id, other): (NodeId, NodeId) = ((&h).into(), (&o).into());
    for (n, i) in [(id, 0), (other, 2)] {
        check(g.connect2(NodeOrGraph::Graph, 0, 0, n).is_ok(), "a valid connection is accepted");
        for c in 0..2 { check(g.connect2(n, c, c + i, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted"); }
    }
    g.edit(|_| {});
    let names: Vec<&'static str> = T::param_descriptions().iter().copied().collect();
    check(h.parameters().len() == names.len() && h.parameters().iter().zip(&names).all(|(a, b)| a == b), "a handle lists the parameters of the unit in order");
    check(h.hints().len() == names.len() && h.inputs() == 1 && h.outputs() == 2 && h.node_id() == id, "a handle tells what the unit is");
    let (mut a, mut b) = (mk(), mk());
    let mut ctx = actx(BS);
    a.init(48000, BS);
    b.init(48000, BS);
    let (p, want) = address(&names);
    let v = ParameterValue::Float(any_z("v").pv());
    match choice(7, "way") {
        0 => refused(g.set(id, p, v, Time::asap()), want),
        1 => refused(h.set((p, v)), want),
        2 => { let h = h.into_any();
            check(h.parameters().iter().zip(&names).all(|(a, b)| a == b) && h.hints().len() == names.len() && h.inputs() == 1 && h.outputs() == 2, "a type-erased handle tells what the unit is");
            refused(h.set((p, v)), want); }
        3 => { let mut n = 0; for h in g.inspection().node_handles() { if h.node_id() == id { n += 1; refused(h.set((p, v)), want); } } check(n == 1, "a node is listed once"); }
        4 => { let (new, r) = g.edit(|g| { let s = g.push(mk()); let id = s.id(); (id, s.try_param(p).map(|mut x| x.set(v))) });
            // that was for another node, which is never heard
            check(r.is_some() == want.is_some() && r.is_none_or(|r| r.is_ok()) && new != id, "a parameter is found if it is there");
            ap.run(&[&[Z(0); BS]]);
            let i = zconst(); for u in [&mut a, &mut b] { let mut f = UGenFlags::new(); u.process_block(&mut ctx, &mut f, &i, &mut VecBlock::<Z>::new(2, BS)); }
            if want.is_some() { ap.run(&[&[Z(0); BS]]); for u in [&mut a, &mut b] { let mut f = UGenFlags::new(); u.process_block(&mut ctx, &mut f, &i, &mut VecBlock::<Z>::new(2, BS)); } }
            refused(g.edit(|g| g.handle(id).unwrap().try_param(p).map_or(Err(GraphError::NodeNotFound), |mut x| x.set(v))), want); }
        5 => { let r = g.edit(|g| g.handle(id).unwrap().try_param(p).map(|mut x| x.set(v))); check(r.is_some() == want.is_some() && r.is_none_or(|r| r.is_ok()), "a parameter is found if it is there"); }
        // what is refused does not keep the others from being set
        _ => g.set_many(&[(other, Param::Desc("none"), v), (id, p, v), (other, Param::Index(99), v)], Time::asap()),
    }
    if let Some(i) = want { a.param_apply(&mut ctx, i, v); }
    for _ in 0..2 {
        let input = zblock(1, BS, &INAMES);
        let ch: Vec<Z> = (0..BS).map(|f| Block::read(&input, 0, f)).collect();
        ap.run(&[&ch]);
        let mut d = 0;
        for (u, o) in [(&mut a, 0), (&mut b, 2)] {
            let mut x = VecBlock::<Z>::new(2, BS);
            let mut fl = UGenFlags::new();
            u.process_block(&mut ctx, &mut fl, &input, &mut x);
            for f in 0..BS { for c in 0..2 { d |= Block::read(&x, c, f).0 ^ Block::read(ap.output_block(), c + o, f).0; } }
        }
        check(d == 0, SAME);
    }
}
fn zconst() -> VecBlock<Z> { let mut b = VecBlock::<Z>::new(1, BS); for f in 0..BS { b.write(Z(0), 0, f); } b }
// @h h_c04_graph cover=unlisted,outside : two nodes of a recording unit (alone, smoothed, and in three wrappers) in a running graph; one is set through the graph, a typed handle, a type-erased one (converted or from an inspection), a parameter from the graph editor, or as one of several changes; by index or name as above; any values and inputs; 2 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_graph() {
    match choice(3, "wrapper") {
        0 => graph(|| Un::new()),
        1 => graph(|| Un::new().smooth_params()),
        _ => graph(|| Un::new().smooth_params().ar_params().precise_timing::<4>()),
    }
}
// @h h_c04_link cover=unlisted,outside : a signal connected to a parameter of a running node with audio-rate parameters (added or in place of one that is there, through the graph or a handle), by index or name as above: the named parameter takes the signal's value in each frame, and what is refused changes nothing; 2 blocks, any inputs
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_link() {
    let (mut g, mut ap, l) = AudioProcessor::<Z>::new::<U2, U2>(gopts());
    core::mem::forget(l);
    #[allow(deprecated)]
    let (h, s, s2) = (g.push(Un::new().ar_params()), g.push(Pass), g.push(Pass));
    let (id, s, s2): (NodeId, NodeId, NodeId) = ((&h).into(), (&s).into(), (&s2).into());
    check(g.connect2(NodeOrGraph::Graph, 0, 0, s).is_ok() && g.connect2(NodeOrGraph::Graph, 1, 0, s2).is_ok() && g.connect2(NodeOrGraph::Graph, 0, 0, id).is_ok(), "a valid connection is accepted");
    for c in 0..2 { check(g.connect2(id, c, c, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted"); }
    // one parameter may have a signal before
    let there = choice(2, "there") == 1;
    if there { check(g.connect_to_parameter(s2, 0, 1usize, id).is_ok(), "a valid connection is accepted"); }
    g.edit(|_| {});
    let names: Vec<&'static str> = Un::param_descriptions().iter().copied().collect();
    let (p, want) = address(&names);
    let replace = match choice(3, "way") {
        0 => { refused(g.connect_to_parameter(s, 0, p, id), want); false }
        1 => { refused(g.connect_replace_to_parameter(s, 0, p, id), want); true }
        _ => { g.edit(|g| { let h = g.handle(id).unwrap(); h.link(p, g.push(Two)); }); true }
    };
    let two = replace && core::hint::black_box(TWO.load(core::sync::atomic::Ordering::Relaxed)) != 0;
    g.edit(|_| {});
    let mut u = Un::new();
    let mut ctx = actx(BS);
    u.init(48000, BS);
    for _ in 0..2 {
        let input = zblock(2, BS, &INAMES);
        let ch: Vec<Vec<Z>> = (0..2).map(|c| (0..BS).map(|f| Block::read(&input, c, f)).collect()).collect();
        ap.run(&[&ch[0], &ch[1]]);
        let mut d = 0;
        for f in 0..BS {
            let new = if two { Z(2) } else { ch[0][f] };
            let mut sig: [Option<Z>; N] = [None; N];
            if there { sig[1] = Some(ch[1][f]); }
            if let Some(i) = want { sig[i] = Some(match sig[i] { Some(o) if !replace => o + new, _ => new }); }
            for i in 0..N { if let Some(z) = sig[i] { u.param_apply(&mut ctx, i, ParameterValue::Float(z.pv())); } }
            let mut fl = UGenFlags::new();
            let o = u.process(&mut ctx, &mut fl, [ch[0][f]].into());
            for c in 0..2 { d |= o[c].0 ^ Block::read(ap.output_block(), c, f).0; }
        }
        check(d == 0, "a signal reaches the parameter it was connected to by index or name, and no other");
    }
}
/// Its input.
struct Pass;
impl UGen for Pass {
    type Sample = Z;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<Z, U1>) -> Frame<Z, U1> { i }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
static TWO: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
/// A constant.
struct Two;
impl UGen for Two {
    type Sample = Z;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn init(&mut self, _: u32, _: usize) { TWO.store(1, core::sync::atomic::Ordering::Relaxed); }
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Z, U0>) -> Frame<Z, U1> { [Z(2)].into() }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
