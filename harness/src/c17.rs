//! C17: the graph computes the dataflow its edges describe.
use crate::gr::*;

const FLOW: &str = "the outputs carry the dataflow the edges describe";
const FLOW2: &str = "the outputs carry the dataflow the edges describe (later block)";

// @h h_c17_two : 2 nodes of every shape (0-2 inputs, 1-2 outputs), 1 graph input, 2 graph outputs, every acyclic set of at most one edge per destination channel, 2 blocks of 2 arbitrary frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_two() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U2>();
    let a = m.push_shape(&mut g, choice(5, "shape"));
    let b = m.push_shape(&mut g, choice(5, "shape"));
    for i in [a, b] { for ch in 0..m.nodes[i].ni { if let Some(s) = pick(&m, i, true, 1) { m.connect(&mut g, s, i, ch); } } }
    for ch in 0..2 { if let Some(s) = pick(&m, usize::MAX, true, 1) { m.connect_out(&mut g, s, ch); } }
    commit(&mut g);
    m.run(&mut ap, FLOW);
    m.run(&mut ap, FLOW2);
}
// @h h_c17_three : 3 nodes (one with 2 inputs, one with 2 outputs), no graph input, 2 graph outputs, every acyclic set of at most one edge per destination channel
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_three() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U2>();
    let a = m.push_shape(&mut g, 1);
    let b = m.push_shape(&mut g, 2);
    let c = m.push_shape(&mut g, 3);
    for i in [a, b, c] { for ch in 0..m.nodes[i].ni { if let Some(s) = pick(&m, i, ch == 0, 0) { m.connect(&mut g, s, i, ch); } } }
    for ch in 0..2 { if let Some(s) = pick(&m, usize::MAX, false, 0) { m.connect_out(&mut g, s, ch); } }
    commit(&mut g);
    m.run(&mut ap, FLOW);
}

// @h h_c17_sinks : a node with no outputs pushed before, between and after 2 nodes it may read from; 1 graph input, 1 graph output, every acyclic set of at most one edge per destination channel
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_sinks() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U1>();
    let at = choice(3, "position");
    for k in 0..3 { if at == k { m.push_shape(&mut g, 5); } else { m.push_shape(&mut g, 1 + choice(2, "shape")); } }
    for i in 0..3 { for ch in 0..m.nodes[i].ni { if let Some(s) = pick(&m, i, true, 1) { m.connect(&mut g, s, i, ch); } } }
    if let Some(s) = pick(&m, usize::MAX, true, 0) { m.connect_out(&mut g, s, 0); }
    commit(&mut g);
    m.run(&mut ap, FLOW);
    m.run(&mut ap, FLOW2);
}
// @h h_c17_sums : 2 nodes (1 in 1 out; 2 in 2 out), 2 graph inputs, 2 graph outputs, 2 to 4 signals (repetitions allowed) added to one node input or one graph output, with one more arbitrary edge per other destination
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_sums() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U2, U2>();
    let a = m.push_shape(&mut g, 1);
    let b = m.push_shape(&mut g, 4);
    if choice(2, "target") == 0 {
        // into an input of b
        let ch = choice(2, "ch");
        let n = 2 + choice(3, "n");
        for _ in 0..n { let s = [Src::In(0), Src::In(1), Src::Node(a, 0)][choice(3, "summand")]; m.connect(&mut g, s, b, ch); }
        m.connect(&mut g, Src::In(1), b, 1 - ch);
        m.connect(&mut g, Src::In(0), a, 0);
        m.connect_out(&mut g, Src::Node(b, 0), 0);
        m.connect_out(&mut g, Src::Node(b, 1), 1);
    } else {
        m.connect(&mut g, Src::In(0), a, 0);
        m.connect(&mut g, Src::Node(a, 0), b, 1);
        let ch = choice(2, "ch");
        let n = 2 + choice(2, "n");
        for _ in 0..n { let s = [Src::In(0), Src::In(1), Src::Node(a, 0), Src::Node(b, 0), Src::Node(b, 1)][choice(5, "summand")]; m.connect_out(&mut g, s, ch); }
        if choice(2, "other") == 1 { m.connect_out(&mut g, Src::Node(a, 0), 1 - ch); }
    }
    commit(&mut g);
    m.run(&mut ap, FLOW);
    m.run(&mut ap, FLOW2);
}
// @h h_c17_wide : 4 nodes in every push order of a diamond with a long arm, sources read by several nodes and outputs; every choice of which 2 of the 6 signals feed the 2 graph outputs
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_wide() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U2>();
    // push order is a permutation of the roles
    let mut left = vec![0usize, 1, 2, 3];
    let mut at = [0usize; 4];
    for _ in 0..4 { let r = left.remove(choice(left.len() as u32, "role")); at[r] = m.push_shape(&mut g, [1, 3, 1, 2][r]); }
    let [a, b, c, d] = at;
    m.connect(&mut g, Src::In(0), a, 0);
    m.connect(&mut g, Src::Node(a, 0), b, 0);
    m.connect(&mut g, Src::Node(b, choice(2, "ch")), c, 0);
    let s = [Src::Node(a, 0), Src::Node(b, 0), Src::Node(b, 1)][choice(3, "skip")];
    m.connect(&mut g, s, d, 0);
    m.connect(&mut g, Src::Node(c, 0), d, 1);
    for ch in 0..2 { let s = [Src::In(0), Src::Node(a, 0), Src::Node(b, 0), Src::Node(b, 1), Src::Node(c, 0), Src::Node(d, 0)][choice(6, "out")]; m.connect_out(&mut g, s, ch); }
    commit(&mut g);
    m.run(&mut ap, FLOW);
    m.run(&mut ap, FLOW2);
}
/// y = x with the sign bit and low bits moved around: exact on bit patterns.
struct Bits { k: u32 }
impl UGen for Bits {
    type Sample = f32; type Inputs = U2; type Outputs = U1; type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<f32, U2>) -> Frame<f32, U1> { [f32::from_bits(i[0].to_bits().rotate_left(3) ^ self.k.wrapping_add(i[1].to_bits()))].into() }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
// @h h_c17_f32 : f32 samples: 2 nodes, sum of two arbitrary floats into a node and into a graph output
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_f32() {
    let (mut g, mut ap, _l) = AudioProcessor::<f32>::new::<U2, U2>(opts());
    #[allow(deprecated)]
    let (a, b) = (g.push(Bits { k: 5 }), g.push(Bits { k: 77 }));
    let (a, b): (NodeId, NodeId) = ((&a).into(), (&b).into());
    let f = |i0: f32, i1: f32, k: u32| f32::from_bits(i0.to_bits().rotate_left(3) ^ k.wrapping_add(i1.to_bits()));
    check(g.connect2(NodeOrGraph::Graph, 0, 0, a).is_ok() && g.connect2(NodeOrGraph::Graph, 1, 0, a).is_ok(), "accepted");
    check(g.connect2(a, 0, 1, b).is_ok(), "accepted");
    check(g.connect2(a, 0, 0, NodeOrGraph::Graph).is_ok() && g.connect2(b, 0, 1, NodeOrGraph::Graph).is_ok(), "accepted");
    let both = choice(2, "sum at output") == 1;
    if both { check(g.connect2(NodeOrGraph::Graph, 0, 1, NodeOrGraph::Graph).is_ok(), "accepted"); }
    g.edit(|_| {});
    let x = [[any_f32("x0"), any_f32("x1")], [any_f32("y0"), any_f32("y1")]];
    ap.run(&[&x[0], &x[1]]);
    for k in 0..2 {
        let ya = f(x[0][k] + x[1][k], 0.0, 5);
        let yb = f(0.0, ya, 77);
        check(same(rd(ap.output_block(), 0, k), ya), "node a");
        let want = if both { yb + x[0][k] } else { yb };
        check(same(rd(ap.output_block(), 1, k), want), "node b");
        note_f32(rd(ap.output_block(), 1, k));
    }
}
