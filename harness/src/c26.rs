//! C26: a feedback connection delivers the previous block.
use crate::gr::*;
const OUT: &str = "a feedback edge delivers exactly the previous block of its source";

fn base(topo: usize) -> (Graph<Z>, AudioProcessor<Z>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U1, U2>();
    let a = m.push_shape(&mut g, 1);
    let b = m.push_shape(&mut g, 4);
    let c = m.push_shape(&mut g, 3);
    m.connect(&mut g, Src::In(0), b, 1);
    match topo {
        0 => {}
        1 => { m.connect(&mut g, Src::Node(a, 0), b, 0); m.connect(&mut g, Src::Node(b, 1), c, 0); }
        2 => { m.connect(&mut g, Src::Node(c, 1), b, 0); m.connect(&mut g, Src::Node(b, 0), a, 0); }
        _ => { m.connect(&mut g, Src::Node(c, 1), a, 0); m.connect(&mut g, Src::Node(c, 1), b, 1); }
    }
    (g, ap, m)
}
fn outs(g: &mut Graph<Z>, m: &mut M) {
    m.connect_out(g, Src::Node(1, 0), 0);
    m.connect_out(g, Src::Node(2, 1), 1);
    m.connect_out(g, Src::Node(0, 0), 1);
}
const PORTS: [(usize, usize); 5] = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1)];
const SINKS: [(usize, usize); 4] = [(0, 0), (1, 0), (1, 1), (2, 0)];
fn fb(g: &mut Graph<Z>, m: &mut M) {
    let (j, c) = PORTS[choice(5, "feedback source")];
    let (i, ch) = SINKS[choice(4, "feedback sink")];
    m.connect_fb(g, j, c, i, ch);
}
// @h h_c26_two : 3 nodes (5 output and 4 input channels), 4 topologies of ordinary edges, every pair of feedback edges (including onto the same node), 3 blocks of 2 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_two() {
    let (mut g, mut ap, mut m) = base(choice(4, "topology"));
    fb(&mut g, &mut m);
    fb(&mut g, &mut m);
    outs(&mut g, &mut m);
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
}
// @h h_c26_later : as above with one feedback edge, made before or after the graph outputs and before or after a block has run; then an edit elsewhere, or the removal of the feedback edge by disconnecting its sink or source or replacing it, or the freeing of its source, and 2 more blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_later() {
    let (mut g, mut ap, mut m) = base(choice(4, "topology"));
    let when = choice(3, "when");
    if when == 0 { fb(&mut g, &mut m); }
    outs(&mut g, &mut m);
    if when == 2 { commit(&mut g); m.run(&mut ap, OUT); }
    if when > 0 { fb(&mut g, &mut m); }
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    let mut fbs = Vec::new();
    for (i, n) in m.nodes.iter().enumerate() { for (ch, e) in n.ins.iter().enumerate() { for s in e { if let Src::Fb(j, c, _) = *s { fbs.push((i, ch, j, c)); } } } }
    let (i, ch, j, c) = fbs[0];
    match choice(6, "edit") {
        0 => { let d = m.push_shape(&mut g, 0); m.connect_out_replace(&mut g, Src::Node(d, 0), 0); }
        1 => { m.disconnect_input(&mut g, i, ch); }
        2 => { m.disconnect_source(&mut g, Src::Node(j, c)); }
        3 => { m.connect_replace(&mut g, Src::In(0), i, ch); }
        4 => { m.free(&mut g, j); }
        _ => { m.connect(&mut g, Src::In(0), i, ch); }
    }
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
}
// @h h_c26_replace : a feedback connection made by connect2_feedback_replace, over no edge, an ordinary edge or another feedback edge, 3 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_replace() {
    let (mut g, mut ap, mut m) = base(choice(4, "topology"));
    outs(&mut g, &mut m);
    if choice(2, "first") == 1 { fb(&mut g, &mut m); }
    let (j, c) = PORTS[choice(5, "feedback source")];
    let (i, ch) = SINKS[choice(4, "feedback sink")];
    m.connect_fb_replace(&mut g, j, c, i, ch);
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
}
