//! C31: graph inspection reports the graph as it is.
use crate::gr::*;
use knaster_graph::graph::NodeKey;
use knaster_graph::inspection::*;
const EDGES: &str = "the inspected edges are the edges of the graph";

/// The source of an input as the inspection tells it, with the additions the graph makes for sums taken apart.
fn expand(i: &GraphInspection, s: &EdgeSource, ch: u16, m: &M, out: &mut Vec<Src>, depth: usize) {
    match s {
        EdgeSource::Graph => out.push(Src::In(ch as usize)),
        EdgeSource::Node(k) => {
            if let Some(j) = m.nodes.iter().position(|n| n.alive && n.id.key() == *k) { out.push(Src::Node(j, ch as usize)); return; }
            let n = i.nodes.iter().find(|n| n.key == *k);
            check(n.is_some(), "an edge comes from a node that is listed");
            check(depth > 0 && ch == 0, "a node that was not pushed adds two signals");
            for e in &n.unwrap().input_edges { expand(i, &e.source, e.from_index, m, out, depth - 1); }
        }
    }
}
fn key(s: &Src) -> u32 { match s { Src::In(c) => *c as u32, Src::Node(j, c) => 100 + 10 * *j as u32 + *c as u32, Src::Fb(j, c, _) => 1000 + 10 * *j as u32 + *c as u32, Src::Port(_) => 9999 } }
fn same_edges(mut a: Vec<Src>, b: &[Src]) -> bool {
    let mut b = b.to_vec();
    a.sort_by_key(key);
    b.sort_by_key(key);
    a == b
}
pub fn inspect(g: &Graph<Z>, m: &M, extra: &[NodeId]) {
    let i = g.inspection();
    check(i.num_inputs as usize == m.nin && i.num_outputs as usize == m.outs.len() && i.graph_id == g.graph_id(), "the inspection has the graph's inputs, outputs and id");
    for (j, n) in m.nodes.iter().enumerate() {
        let found: Vec<&NodeInspection> = i.nodes.iter().filter(|x| x.key == n.id.key()).collect();
        check(found.len() == n.alive as usize, "every node of the graph is listed exactly once and no freed one is");
        if !n.alive { continue; }
        let x = found[0];
        check(x.inputs as usize == n.ni && x.outputs as usize == n.no && x.is_graph.is_none(), "a node is listed with its channels");
        check(x.parameter_descriptions.len() == if n.par.is_some() { 2 } else { 0 } && x.parameter_hints.len() == x.parameter_descriptions.len(), "a node is listed with its parameters");
        if n.par.is_some() { check(x.parameter_descriptions[0] == "p0" && x.parameter_descriptions[1] == "p1", "parameters are listed in order"); }
        for ch in 0..n.ni {
            let mut s = Vec::new();
            for e in x.input_edges.iter().filter(|e| e.to_index as usize == ch) { expand(&i, &e.source, e.from_index, m, &mut s, 4); }
            check(same_edges(s, &n.ins[ch]), EDGES);
            check(x.input_edges.iter().filter(|e| e.to_index as usize == ch).count() <= 1, "an input has one edge");
        }
        check(x.input_edges.iter().all(|e| (e.to_index as usize) < n.ni), EDGES);
        // connected: some path to a graph output
        let c = m.outs.iter().flatten().any(|s| matches!(s, Src::Node(k, _) if m.reaches(j, *k)));
        check(x.unconnected != c, "a node is unconnected if nothing leads from it to an output");
    }
    for id in extra { check(i.nodes.iter().filter(|x| x.key == id.key()).count() == 1, "every node of the graph is listed exactly once"); }
    for x in &i.nodes {
        let known = m.nodes.iter().any(|n| n.id.key() == x.key) || extra.iter().any(|e| e.key() == x.key);
        check(known || (x.inputs == 2 && x.outputs == 1 && x.name.contains("MathUGen")), "nothing is listed that is not in the graph");
    }
    for (c, o) in m.outs.iter().enumerate() {
        let mut s = Vec::new();
        for e in i.graph_output_edges.iter().filter(|e| e.to_index as usize == c) { expand(&i, &e.source, e.from_index, m, &mut s, 4); }
        check(same_edges(s, o), "the inspected graph outputs are the ones connected");
    }
    check(i.graph_output_edges.iter().all(|e| (e.to_index as usize) < m.outs.len()), EDGES);
    let h = i.node_handles();
    check(h.len() == i.nodes.len(), "one handle per node");
    for (h, n) in h.iter().zip(&i.nodes) {
        check(h.node_id().key() == n.key && m.nodes.iter().all(|x| x.id.key() != n.key || x.id == h.node_id()) && h.inputs() == n.inputs && h.outputs() == n.outputs, "a handle addresses the node it was made for");
    }
}
fn edit(g: &mut Graph<Z>, m: &mut M) {
    match choice(9, "edit") {
        0 => { let s = choice(3, "shape"); m.push_shape(g, s); }
        1 => { let i = m.nodes.len() - 1; if m.nodes[i].alive && m.nodes[i].ni > 0 { if let Some(s) = pick(m, i, false, 2) { m.connect(g, s, i, 0); } } }
        2 => { if let Some(s) = pick(m, usize::MAX, false, 2) { m.connect_out(g, s, 0); } }
        3 => { if let Some(s) = pick(m, usize::MAX, false, 1) { m.connect_out_replace(g, s, 1); } }
        4 => { if let Some(i) = (0..m.nodes.len()).find(|i| m.nodes[*i].alive) { m.free(g, i); } }
        5 => { m.disconnect_graph_out(g, 0); }
        6 => { if let Some(i) = (0..m.nodes.len()).rev().find(|i| m.nodes[*i].alive && m.nodes[*i].ni > 0) { m.disconnect_input(g, i, 0); } }
        7 => { if let Some(i) = (0..m.nodes.len()).find(|i| m.nodes[*i].alive) { m.disconnect_source(g, Src::Node(i, 0)); } }
        _ => { m.push_par(g); }
    }
}
fn edits(n: usize) {
    let (mut g, mut ap, _l, mut m) = graph_of::<U2, U2>();
    m.push_shape(&mut g, 0);
    m.push_shape(&mut g, 2);
    m.push_shape(&mut g, 3);
    m.connect(&mut g, Src::Node(0, 0), 1, 0);
    m.connect(&mut g, Src::In(1), 1, 0);
    m.connect(&mut g, Src::In(0), 1, 1);
    m.connect(&mut g, Src::Node(1, 0), 2, 0);
    m.connect_out(&mut g, Src::Node(2, 1), 0);
    commit(&mut g);
    inspect(&g, &m, &[]);
    for _ in 0..n {
        edit(&mut g, &mut m);
        if choice(2, "run first") == 1 { ap.run(&[&[Z(3); B], &[Z(4); B]]); }
        commit(&mut g);
        inspect(&g, &m, &[]);
    }
}
// @h h_c31_edits : 2 edits from a graph with a sum, a fan-out node and a graph input (push, connect with every source, connect or replace an output, free, disconnect), the audio side behind or up to date: after each commit the inspection lists every node once with its channels, parameters and edges
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_edits() { edits(2); }
// @h h_c31_edits3 thorough : 3 edits
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_edits3() { edits(3); }
// @h h_c31_wiring : 2 nodes (1 input and 2 outputs; 3 inputs), 2 graph inputs, a chosen graph output: every set of at most one edge per destination channel, listed before and after an input is disconnected or connected again
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_wiring() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U2, U2>();
    let a = m.push_shape(&mut g, 3);
    let b = m.push::<U3, U1>(&mut g);
    m.connect(&mut g, Src::In(1), a, 0);
    for ch in 0..3 { if let Some(s) = pick(&m, b, false, 2) { m.connect(&mut g, s, b, ch); } }
    let o = choice(2, "output");
    if let Some(s) = pick(&m, usize::MAX, false, 2) { m.connect_out(&mut g, s, o); }
    commit(&mut g);
    inspect(&g, &m, &[]);
    ap.run(&[&[Z(3); B], &[Z(4); B]]);
    if choice(2, "then") == 0 { m.disconnect_input(&mut g, b, 0); } else { m.connect(&mut g, Src::Node(a, 1), b, 1); }
    commit(&mut g);
    inspect(&g, &m, &[]);
}
// @h h_c31_nested : nested graphs are listed with their graph's id and channels, other nodes without; named nodes are listed under their name
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_nested() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U2, U2>();
    m.push_shape(&mut g, 1);
    let mut r = None;
    let name = choice(2, "named") == 1;
    g.edit(|e| {
        let (h, s) = e.subgraph::<U1, U2>(GraphOptions::default(), |e| { e.push(Tag::<U1, U1>::new(9)); });
        if name { let _ = h.name("inner graph"); }
        r = Some((h.id(), s));
    });
    let (id, sub) = r.unwrap();
    m.connect(&mut g, Src::In(1), 0, 0);
    check(g.connect2(m.nodes[0].id, 0, 0, id).is_ok() && g.connect2(id, 1, 0, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted");
    commit(&mut g);
    if choice(2, "run") == 1 { ap.run(&[&[Z(1); B], &[Z(2); B]]); }
    let i = g.inspection();
    check(i.nodes.len() == 2, "every node of the graph is listed exactly once");
    for n in &i.nodes {
        if n.key == id.key() {
            check(n.is_graph == Some(sub.graph_id()) && n.inputs == 1 && n.outputs == 2, "a nested graph is listed with its graph id and channels");
            check(n.input_edges.len() == 1 && matches!(n.input_edges[0].source, EdgeSource::Node(k) if k == m.nodes[0].id.key()) && n.input_edges[0].from_index == 0 && n.input_edges[0].to_index == 0, EDGES);
            if name { check(n.name == "inner graph", "a node is listed under its name"); }
        } else { check(n.is_graph.is_none() && n.key == m.nodes[0].id.key(), "a node that is not a graph has no graph id"); }
    }
    check(i.graph_output_edges.len() == 1 && matches!(i.graph_output_edges[0].source, EdgeSource::Node(k) if k == id.key()) && i.graph_output_edges[0].from_index == 1 && i.graph_output_edges[0].to_index == 0, EDGES);
    let s = sub.inspection();
    check(s.nodes.len() == 1 && s.num_inputs == 1 && s.num_outputs == 2 && s.graph_id == sub.graph_id() && s.graph_id != i.graph_id, "a nested graph's own inspection lists its nodes");
}
// @h h_c31_handles : the handles of an inspection set the parameters of the node they stand for, by index and by name, and refuse others
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_handles() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U2>();
    m.push_par(&mut g);
    m.push_par(&mut g);
    m.connect_out(&mut g, Src::Node(0, 0), 0);
    m.connect_out(&mut g, Src::Node(1, 0), 1);
    commit(&mut g);
    if choice(2, "run first") == 1 { m.run(&mut ap, "outputs"); }
    let hs = g.inspection().node_handles();
    let (n, k) = (choice(2, "node"), choice(2, "parameter"));
    let h = hs.iter().find(|h| h.node_id() == m.nodes[n].id);
    check(h.is_some(), "there is a handle for the node");
    let v = any_z("value");
    let h = h.unwrap();
    let r = if choice(2, "by name") == 1 { h.set((["p0", "p1"][k], v.pv())) } else { h.set((k, v.pv())) };
    check(r.is_ok(), "the handle accepts the parameter");
    m.set_model(n, k, v);
    check(h.set(("p2", 1.0)).is_err(), "an unknown name is an error");
    m.run(&mut ap, "a handle of the inspection sets the parameter of its node and no other");
    m.run(&mut ap, "a handle of the inspection sets the parameter of its node and no other");
}
