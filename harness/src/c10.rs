//! C10: a signal routed to a parameter drives it frame by frame.
use crate::gr::*;
const OUT: &str = "a parameter follows the signal connected to it frame by frame, and plain values otherwise";

/// Nodes: 0 source (0,1); 1 source (1,2), reads the graph input; 2, 3 with two parameters each, 2 reads the input, 3 reads 2.
fn world() -> (Graph<Z>, AudioProcessor<Z>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U1, U2>();
    let order = choice(2, "pushed first");
    if order == 1 { m.push_par(&mut g); m.push_par(&mut g); }
    m.push_shape(&mut g, 0);
    m.push_shape(&mut g, 3);
    if order == 0 { m.push_par(&mut g); m.push_par(&mut g); }
    // bring the reference into the same numbering
    if order == 1 { let a = m.nodes.remove(0); let b = m.nodes.remove(0); m.nodes.push(a); m.nodes.push(b); }
    m.connect(&mut g, Src::In(0), 1, 0);
    m.connect(&mut g, Src::In(0), 2, 0);
    (g, ap, m)
}
fn outs(g: &mut Graph<Z>, m: &mut M) {
    m.connect_out(g, Src::Node(2, 0), 0);
    m.connect_out(g, Src::Node(3, 0), 1);
}
fn src(m: &M, i: usize) -> Src {
    let mut c = vec![Src::Node(0, 0), Src::Node(1, 0), Src::Node(1, 1)];
    if i == 3 { c.push(Src::Node(2, 0)); }
    c.retain(|s| matches!(s, Src::Node(j, _) if m.nodes[*j].alive));
    c[choice(c.len() as u32, "parameter source")]
}
fn par(g: &mut Graph<Z>, m: &mut M, i: usize, replace: bool) -> usize {
    let k = choice(2, "parameter");
    let s = src(m, i);
    if replace { m.connect_par_replace(g, s, i, k); } else { m.connect_par(g, s, i, k); }
    k
}
// @h h_c10_route : 2 nodes with 2 audio rate parameters each, 3 further signals, pushed in either order; plain values for some parameters; a signal each for one parameter of both nodes, and a second one for the first node added to or replacing or beside the first one; 3 blocks of 2 frames with further plain values in between
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_route() {
    let (mut g, mut ap, mut m) = world();
    let early = choice(2, "early");
    if early == 1 { outs(&mut g, &mut m); }
    par(&mut g, &mut m, 2, false);
    let rep = choice(2, "replace") == 1;
    par(&mut g, &mut m, 2, rep);
    par(&mut g, &mut m, 3, false);
    if early == 0 { outs(&mut g, &mut m); }
    commit(&mut g);
    m.set(&mut g, 2, 0, any_z("v0"));
    m.set(&mut g, 2, 1, any_z("v1"));
    m.set(&mut g, 3, 0, any_z("v2"));
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    m.set(&mut g, 2, 1, any_z("v3"));
    m.run(&mut ap, OUT);
}
// @h h_c10_release : as above with one signal for a parameter of the first node, possibly a second one added to it, and then disconnecting the source's output, freeing a source, freeing the target, replacing the signal, or nothing, with plain values sent before or after; another edit; 5 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_release() {
    let (mut g, mut ap, mut m) = world();
    outs(&mut g, &mut m);
    let k = par(&mut g, &mut m, 2, false);
    if choice(2, "two") == 1 { let s = src(&m, 2); m.connect_par(&mut g, s, 2, k); }
    commit(&mut g);
    m.run(&mut ap, OUT);
    m.set(&mut g, 2, k, any_z("v0"));
    m.run(&mut ap, OUT);
    match choice(5, "edit") {
        0 => { let s = src(&m, 2); m.disconnect_source(&mut g, s); }
        1 => { m.free(&mut g, 0); }
        2 => { m.free(&mut g, 1); }
        3 => { m.free(&mut g, 2); }
        _ => { let s = src(&m, 2); m.connect_par_replace(&mut g, s, 2, k); }
    }
    commit(&mut g);
    let now = choice(2, "value now") == 1 && m.nodes[2].alive;
    if now { m.set(&mut g, 2, k, any_z("v1")); }
    m.run(&mut ap, OUT);
    // reuse of the freed slot
    let n = m.push_shape(&mut g, 0);
    m.connect_out_replace(&mut g, Src::Node(n, 0), 1);
    commit(&mut g);
    m.run(&mut ap, OUT);
    if m.nodes[2].alive { m.set(&mut g, 2, k, any_z("v2")); m.set(&mut g, 2, 1 - k, any_z("v3")); }
    m.run(&mut ap, OUT);
}
