//! C19: freeing nodes is memory safe and exactly once. Every access of every step is checked by
//! the executor itself (bounds, use after free, double free, uninitialised reads).
use crate::gr::*;
const OUT: &str = "a freed node stops contributing, all other nodes keep their identity";

fn start() -> (Option<Graph<Z>>, Option<AudioProcessor<Z>>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U1, U2>();
    m.push_shape(&mut g, 1);
    m.push_par(&mut g);
    m.connect(&mut g, Src::In(0), 0, 0);
    m.connect(&mut g, Src::Node(0, 0), 1, 0);
    m.connect_out(&mut g, Src::Node(1, 0), 0);
    m.connect_out(&mut g, Src::Node(0, 0), 1);
    commit(&mut g);
    (Some(g), Some(ap), m)
}
fn alive(m: &M, last: bool) -> Option<usize> {
    let mut it = (0..m.nodes.len()).filter(|i| m.nodes[*i].alive);
    if last { it.last() } else { it.next() }
}
fn step(g: &mut Option<Graph<Z>>, ap: &mut Option<AudioProcessor<Z>>, m: &mut M, runs: &mut bool) {
    let mut ops: Vec<u32> = Vec::new();
    if g.is_some() { ops.extend([0, 1, 2, 3, 5]); if m.nodes.len() >= 5 { ops.remove(0); } }
    if ap.is_some() { ops.extend([4, 6]); }
    if ops.is_empty() { return; }
    match ops[choice(ops.len() as u32, "op")] {
        0 => {
            let g = g.as_mut().unwrap();
            // a node that reads the newest one, drives the parameter of the oldest one with parameters, and is heard
            let n = m.push_shape(g, 4);
            if let Some(j) = (0..n).filter(|i| m.nodes[*i].alive).last() { let o = m.nodes[j].no - 1; m.connect(g, Src::Node(j, 0), n, 0); m.connect(g, Src::Node(j, o), n, 1); }
            match choice(3, "kind") {
                0 => { m.connect_out(g, Src::Node(n, 0), 0); m.connect_out_replace(g, Src::Node(n, 1), 1); }
                1 => { if m.nodes[1].alive && !m.reaches(1, n) { m.connect_par(g, Src::Node(n, 0), 1, 0); } else { m.connect_out_replace(g, Src::Node(n, 0), 0); } }
                _ => { if m.nodes[0].alive { m.connect_fb(g, n, 0, 0, 0); } else { m.connect_out_replace(g, Src::Node(n, 0), 0); } }
            }
            commit(g);
        }
        1 => { if let Some(i) = alive(m, false) { m.free(g.as_mut().unwrap(), i); } }
        2 => { if let Some(i) = alive(m, true) { m.free(g.as_mut().unwrap(), i); } }
        3 => { commit(g.as_mut().unwrap()); }
        4 => {
            m.run(ap.as_mut().unwrap(), OUT);
            *runs = true;
        }
        5 => { *g = None; }
        _ => { *ap = None; }
    }
    // no node that is in the graph is dropped while anything can run it, none is dropped twice
    let mut ok = true;
    for n in &m.nodes {
        let d = drops(n.tag);
        ok &= d <= 1 && (d == 0 || !n.alive || ap.is_none());
    }
    check(ok, "no node is dropped while it is in the graph, and none twice");
}
fn finish(g: Option<Graph<Z>>, ap: Option<AudioProcessor<Z>>, m: &M) {
    if choice(2, "dropped first") == 0 { drop(g); drop(ap); } else { drop(ap); drop(g); }
    let mut ok = true;
    for n in &m.nodes { ok &= drops(n.tag) == 1; }
    check(ok, "every node is dropped exactly once");
}
fn collected(g: &mut Option<Graph<Z>>, ap: &mut Option<AudioProcessor<Z>>, m: &mut M) {
    if let (Some(g), Some(ap)) = (g.as_mut(), ap.as_mut()) {
        commit(g);
        m.run(ap, OUT);
        commit(g);
        let mut ok = true;
        for n in &m.nodes { ok &= n.alive || drops(n.tag) == 1; }
        check(ok, "a freed node is collected once the audio side has moved on");
    }
}
fn ops(n: usize) {
    let (mut g, mut ap, mut m) = start();
    let mut runs = false;
    for _ in 0..n { step(&mut g, &mut ap, &mut m, &mut runs); }
    collected(&mut g, &mut ap, &mut m);
    finish(g, ap, &m);
}
// @h h_c19_ops : every sequence of 4 operations: push (reading the newest node on both inputs; heard on both outputs, driving a parameter, or over a feedback edge), free the oldest or newest node, commit, run a block, drop the graph, drop the audio processor; then collection and dropping in either order
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_ops() { ops(4); }
// @h h_c19_ops_deep thorough : as above, 6 operations
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_ops_deep() { ops(6); }

/// Edits without a commit, several frees in one edit, and rings of size 1 or 2 that overflow; only memory and drop counts are judged.
fn raw(n: usize) {
    let ring = 1 + choice(2, "ring");
    let (g, ap, _l) = AudioProcessor::<Z>::new::<U1, U1>(AudioProcessorOptions { ring_buffer_size: ring, ..opts() });
    let (mut g, mut ap) = (Some(g), Some(ap));
    let mut ids: Vec<NodeId> = Vec::new();
    let mut live: Vec<bool> = Vec::new();
    let inp = [any_z("in"), any_z("in")];
    for _ in 0..n {
        let mut o: Vec<u32> = Vec::new();
        if g.is_some() { o.extend([0, 1, 2, 3, 5]); }
        if ap.is_some() { o.extend([4, 6]); }
        if o.is_empty() { break; }
        match o[choice(o.len() as u32, "op")] {
            0 => {
                let g = g.as_mut().unwrap();
                #[allow(deprecated)]
                let id: NodeId = (&g.push(Tag::<U1, U1>::new(ids.len() as u32))).into();
                if let Some(j) = live.iter().rposition(|l| *l) { check(g.connect2(ids[j], 0, 0, id).is_ok(), "valid"); }
                check(g.connect2(id, 0, 0, NodeOrGraph::Graph).is_ok(), "valid");
                ids.push(id);
                live.push(true);
            }
            1 => { if let Some(j) = live.iter().position(|l| *l) { let id = ids[j]; live[j] = false; check(g.as_mut().unwrap().edit(|g| g.free_node(id)).is_ok(), "valid"); } }
            2 => {
                // all but the newest, in one edit
                let v: Vec<NodeId> = (0..ids.len().saturating_sub(1)).filter(|j| live[*j]).map(|j| ids[j]).collect();
                for j in 0..ids.len().saturating_sub(1) { live[j] = false; }
                g.as_mut().unwrap().edit(|g| for id in v { check(g.free_node(id).is_ok(), "valid"); });
            }
            3 => { commit(g.as_mut().unwrap()); }
            4 => { ap.as_mut().unwrap().run(&[&inp]); }
            5 => { g = None; }
            _ => { ap = None; }
        }
        let mut ok = true;
        for j in 0..ids.len() { let d = drops(j as u32); ok &= d <= 1 && (d == 0 || !live[j] || ap.is_none()); }
        check(ok, "no node is dropped while it is in the graph, and none twice");
    }
    if choice(2, "dropped first") == 0 { drop(g); drop(ap); } else { drop(ap); drop(g); }
    let mut ok = true;
    for j in 0..ids.len() { ok &= drops(j as u32) == 1; }
    check(ok, "every node is dropped exactly once");
}
// @h h_c19_raw : every sequence of 5 of: push without commit, free the oldest, free all but the newest in one edit, commit, run, drop either side; ring buffers of 1 or 2 entries, so that commits find the channel full
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_raw() { raw(5); }
// @h h_c19_raw_deep thorough : as above, 6 operations
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_raw_deep() { raw(6); }
