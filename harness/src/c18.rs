//! C18: edits change exactly the edges they name.
use crate::gr::*;
const OUT: &str = "after an edit every edge it does not name still carries its signal";

/// One arbitrary edit of an existing destination or source channel.
fn edit(m: &mut M, g: &mut Graph<Z>, ops: usize) {
    // all (node, input channel) and output pairs
    let mut ins: Vec<(usize, usize)> = Vec::new();
    for i in 0..m.nodes.len() { if m.nodes[i].alive { for ch in 0..m.nodes[i].ni { ins.push((i, ch)); } } }
    match choice(ops as u32, "op") {
        0 => { let ch = choice(m.outs.len() as u32, "out"); m.disconnect_graph_out(g, ch); }
        1 => { let (i, ch) = ins[choice(ins.len() as u32, "in")]; m.disconnect_input(g, i, ch); }
        2 => { let s = pick(m, usize::MAX, false, m.nin).unwrap(); m.disconnect_source(g, s); }
        3 => { let ch = choice(m.outs.len() as u32, "out"); let s = pick(m, usize::MAX, false, 1).unwrap(); m.connect_out_replace(g, s, ch); }
        4 => { let (i, ch) = ins[choice(ins.len() as u32, "in")]; if let Some(s) = pick(m, i, false, 1) { m.connect_replace(g, s, i, ch); } }
        5 => { let ch = choice(m.outs.len() as u32, "out"); let s = pick(m, usize::MAX, false, 1).unwrap(); m.connect_out(g, s, ch); }
        _ => { let (i, ch) = ins[choice(ins.len() as u32, "in")]; if let Some(s) = pick(m, i, false, 1) { m.connect(g, s, i, ch); } }
    }
}
/// Three nodes, a summed output and a summed input.
fn base() -> (Graph<Z>, AudioProcessor<Z>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U2, U2>();
    let a = m.push_shape(&mut g, 1);
    let b = m.push_shape(&mut g, 3);
    let c = m.push_shape(&mut g, 2);
    m.connect(&mut g, Src::In(0), a, 0);
    m.connect(&mut g, Src::Node(a, 0), b, 0);
    m.connect(&mut g, Src::In(1), b, 0);
    m.connect(&mut g, Src::Node(b, 1), c, 0);
    m.connect(&mut g, Src::Node(a, 0), c, 1);
    m.connect_out(&mut g, Src::Node(c, 0), 0);
    match choice(3, "second output") {
        0 => { m.connect_out(&mut g, Src::Node(b, 0), 0); m.connect_out(&mut g, Src::Node(a, 0), 1); }
        1 => { m.connect_out(&mut g, Src::In(1), 0); m.connect_out(&mut g, Src::Node(b, 0), 0); }
        _ => { m.connect_out(&mut g, Src::In(0), 1); }
    }
    (g, ap, m)
}
// @h h_c18_two : 3 nodes with summed inputs and outputs, then every pair of edits (7 kinds, every channel), committed together, 2 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c18_two() {
    let (mut g, mut ap, mut m) = base();
    commit(&mut g);
    m.run(&mut ap, "before the edit");
    edit(&mut m, &mut g, 7);
    edit(&mut m, &mut g, 3);
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
}
// @h h_c18_committed : 3 nodes with summed inputs and outputs, then every pair of edits (7 kinds, every channel), each committed and followed by a block
#[unsafe(no_mangle)]
pub extern "C" fn h_c18_committed() {
    let (mut g, mut ap, mut m) = base();
    commit(&mut g);
    edit(&mut m, &mut g, 7);
    commit(&mut g);
    m.run(&mut ap, OUT);
    edit(&mut m, &mut g, 7);
    commit(&mut g);
    m.run(&mut ap, OUT);
}
