//! C20: edits do not disturb the nodes that survive them.
use crate::gr::*;
const OUT: &str = "a node that survives an edit goes on from its state";

fn start() -> (Graph<Z>, AudioProcessor<Z>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U1, U2>();
    m.push_shape(&mut g, 1);
    m.push_par(&mut g);
    m.push_shape(&mut g, 4);
    m.connect(&mut g, Src::In(0), 0, 0);
    m.connect(&mut g, Src::Node(0, 0), 1, 0);
    m.connect_par(&mut g, Src::Node(0, 0), 1, 1);
    m.connect(&mut g, Src::Node(1, 0), 2, 1);
    m.connect_fb(&mut g, 2, 0, 2, 0);
    m.connect_out(&mut g, Src::Node(2, 1), 0);
    m.connect_out(&mut g, Src::Node(0, 0), 1);
    commit(&mut g);
    (g, ap, m)
}
fn once(m: &M) {
    let mut ok = true;
    for n in &m.nodes { ok &= inits(n.tag) == 1; }
    check(ok, "every node is initialised exactly once");
}
fn edit(g: &mut Graph<Z>, m: &mut M) {
    match choice(7, "edit") {
        0 => { let n = m.push_shape(g, 1); m.connect(g, Src::In(0), n, 0); m.connect_out(g, Src::Node(n, 0), 0); }
        1 => { if let Some(i) = (0..m.nodes.len()).find(|i| m.nodes[*i].alive) { m.free(g, i); } }
        2 => { if let Some(i) = (0..m.nodes.len()).rev().find(|i| m.nodes[*i].alive) { m.free(g, i); } }
        3 => { if m.nodes[1].alive { m.set(g, 1, 0, any_z("p")); } }
        4 => { if m.nodes[2].alive { m.connect_replace(g, Src::In(0), 2, 1); } }
        5 => { let n = m.push_shape(g, 0); if m.nodes[0].alive { m.connect(g, Src::Node(n, 0), 0, 0); } if m.nodes[1].alive { m.connect_par_replace(g, Src::Node(n, 0), 1, 1); } }
        _ => {}
    }
    commit(g);
}
fn edits(n: usize) {
    let (mut g, mut ap, mut m) = start();
    if choice(2, "run first") == 1 { m.run(&mut ap, OUT); }
    for _ in 0..n {
        edit(&mut g, &mut m);
        if choice(2, "run") == 1 { m.run(&mut ap, OUT); }
    }
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    once(&m);
}
// @h h_c20_edits : a graph of 3 stateful nodes with a parameter signal and a feedback edge; every sequence of 3 edits (push, free oldest/newest, set, reconnect, add to an input and a parameter, nothing), each committed, with or without a block in between (several commits may reach the audio side at once)
#[unsafe(no_mangle)]
pub extern "C" fn h_c20_edits() { edits(3); }
// @h h_c20_edits_deep thorough : as above, 5 edits
#[unsafe(no_mangle)]
pub extern "C" fn h_c20_edits_deep() { edits(5); }
// @h h_c20_full : a channel to the audio side of 1 or 2 entries and 1 to 3 commits between blocks: the edits that did not fit stay in the graph and reach the audio side with the next commit
#[unsafe(no_mangle)]
pub extern "C" fn h_c20_full() {
    let ring = 1 + choice(2, "ring");
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { ring_buffer_size: ring, ..opts() });
    let mut m = M::new(0, 1);
    m.push_shape(&mut g, 0);
    m.connect_out(&mut g, Src::Node(0, 0), 0);
    commit(&mut g);
    if choice(2, "run first") == 1 { m.run(&mut ap, OUT); }
    let mut room = if m.nodes[0].n > 0 { ring } else { ring - 1 };
    let count = 1 + choice(3, "commits");
    let mut late: Vec<(NodeId, u32, bool)> = Vec::new();
    for i in 0..count {
        let tag = 10 + i as u32;
        #[allow(deprecated)]
        let id: NodeId = (&g.push(Tag::<U1, U1>::new(tag))).into();
        let replace = choice(2, "replace") == 1;
        let r = if replace { g.connect2_replace(NodeOrGraph::Node(id), 0, 0, NodeOrGraph::Graph) } else { g.connect2(id, 0, 0, NodeOrGraph::Graph) };
        check(r.is_ok(), "a valid connection is accepted");
        commit(&mut g);
        late.push((id, tag, replace));
        if room > 0 { room -= 1; for (id, tag, rep) in late.drain(..) { let n = m.added(id, tag, 1, 1); if rep { m.outs[0].clear(); } m.outs[0].push(Src::Node(n, 0)); } }
    }
    m.run(&mut ap, OUT);
    commit(&mut g);
    for (id, tag, rep) in late.drain(..) { let n = m.added(id, tag, 1, 1); if rep { m.outs[0].clear(); } m.outs[0].push(Src::Node(n, 0)); }
    m.run(&mut ap, OUT);
    m.run(&mut ap, OUT);
    once(&m);
}
