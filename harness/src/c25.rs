//! C25: invalid edits are rejected without side effects.
use crate::gr::*;
use knaster_graph::Time;
use knaster_graph::inspection::{EdgeSource, GraphInspection};

/// What the inspection says about the structure.
fn snap(i: &GraphInspection) -> Vec<(usize, u32, u16, u16)> {
    let mut v = Vec::new();
    let pos = |s: &EdgeSource| match s { EdgeSource::Graph => u32::MAX, EdgeSource::Node(k) => i.nodes.iter().position(|n| n.key == *k).unwrap_or(9999) as u32 };
    for (x, n) in i.nodes.iter().enumerate() { for e in &n.input_edges { v.push((x, pos(&e.source), e.from_index, e.to_index)); } }
    for e in &i.graph_output_edges { v.push((usize::MAX, pos(&e.source), e.from_index, e.to_index)); }
    v
}
fn unchanged(a: &GraphInspection, b: &GraphInspection) -> bool {
    a.nodes.len() == b.nodes.len() && a.nodes.iter().zip(&b.nodes).all(|(x, y)| x.key == y.key && x.name == y.name) && snap(a) == snap(b)
}
struct W { g: Graph<Z>, ap: AudioProcessor<Z>, m: M, other: NodeId, _og: Graph<Z>, _oap: AudioProcessor<Z> }
/// Nodes: 0 (1,1) -> 1 (2,2) -> 2 with parameters (1,1); 3 freed, the audio side has not seen it yet; 4 removed (its slot may be reused by 6); 5 (0,1); 7 (1,0).
fn world() -> W {
    let (mut g, mut ap, _l, mut m) = graph_of::<U1, U2>();
    let a = m.push_shape(&mut g, 1);
    let b = m.push_shape(&mut g, 4);
    let c = m.push_par(&mut g);
    let d = m.push_shape(&mut g, 1);
    let e = m.push_shape(&mut g, 1);
    m.connect(&mut g, Src::In(0), a, 0);
    // the path 0 -> 1 -> 2 runs through the first or the last input, sums, or parameters
    let by = choice(4, "path");
    let side = m.push_shape(&mut g, 0);
    match by {
        0 => { m.connect(&mut g, Src::Node(a, 0), b, 1); m.connect(&mut g, Src::Node(b, 1), c, 0); }
        1 => { m.connect(&mut g, Src::Node(side, 0), b, 0); m.connect(&mut g, Src::Node(a, 0), b, 1); m.connect_par(&mut g, Src::Node(side, 0), c, 0); m.connect_par(&mut g, Src::Node(b, 1), c, 1); }
        2 => { m.connect(&mut g, Src::Node(a, 0), b, 0); m.connect(&mut g, Src::Node(side, 0), b, 0); m.connect_par(&mut g, Src::Node(b, 1), c, 0); m.connect_par(&mut g, Src::Node(side, 0), c, 0); m.connect(&mut g, Src::In(0), c, 0); }
        _ => { m.connect(&mut g, Src::In(0), b, 0); m.connect(&mut g, Src::Node(side, 0), b, 1); m.connect(&mut g, Src::Node(a, 0), b, 1); m.connect(&mut g, Src::Node(side, 0), c, 0); m.connect_par(&mut g, Src::Node(side, 0), c, 1); m.connect(&mut g, Src::Node(b, 0), c, 0); }
    }
    m.connect(&mut g, Src::Node(d, 0), b, 0);
    m.connect_out(&mut g, Src::Node(c, 0), 0);
    m.connect_out(&mut g, Src::Node(b, 0), 1);
    commit(&mut g);
    m.run(&mut ap, "the graph computes its edges");
    m.free(&mut g, e);
    commit(&mut g);
    m.run(&mut ap, "the graph computes its edges");
    // its slot is reused here
    commit(&mut g);
    m.push_shape(&mut g, 1);
    m.push_shape(&mut g, 5);
    m.free(&mut g, d);
    commit(&mut g);
    let (mut og, oap, _ol) = AudioProcessor::<Z>::new::<U1, U1>(opts());
    #[allow(deprecated)]
    let mut o: NodeId = (&og.push(Tag::<U2, U2>::new(20))).into();
    // the node of the other graph that has the key of node 0 here
    if choice(2, "other") == 1 { #[allow(deprecated)] { o = (&og.push(Tag::<U2, U2>::new(21))).into(); } }
    W { g, ap, m, other: o, _og: og, _oap: oap }
}
const FOREIGN: usize = 8;
const NEVER: usize = 9;
const GRAPH: usize = 10;
impl W {
    fn id(&self, k: usize) -> NodeOrGraph {
        match k { GRAPH => NodeOrGraph::Graph, NEVER => NodeOrGraph::Node(NodeId::invalid()), FOREIGN => NodeOrGraph::Node(self.other), k => NodeOrGraph::Node(self.m.nodes[k].id) }
    }
    fn nid(&self, k: usize) -> NodeId { let NodeOrGraph::Node(n) = self.id(k) else { unreachable!() }; n }
    fn exists(&self, k: usize) -> bool { k == GRAPH || k < FOREIGN && self.m.nodes[k].alive }
    fn outs(&self, k: usize) -> u16 { if k == GRAPH { 1 } else if !self.exists(k) { u16::MAX } else { self.m.nodes[k].no as u16 } }
    fn ins(&self, k: usize) -> u16 { if k == GRAPH { 2 } else if !self.exists(k) { u16::MAX } else { self.m.nodes[k].ni as u16 } }
    fn cyclic(&self, so: usize, si: usize) -> bool { so < FOREIGN && si < FOREIGN && self.exists(so) && self.exists(si) && self.m.reaches(si, so) }
    fn rejected(&mut self, before: GraphInspection, err: bool) {
        check(err, "an invalid edit returns an error");
        check(unchanged(&before, &self.g.inspection()), "a rejected edit leaves the graph as it was");
        self.m.run(&mut self.ap, "a rejected edit changes no signal");
        commit(&mut self.g);
        check(unchanged(&before, &self.g.inspection()), "a rejected edit leaves the graph as it was");
        self.m.run(&mut self.ap, "a rejected edit changes no signal");
        // the graph can still be edited
        let n = self.m.push_shape(&mut self.g, 0);
        self.m.connect(&mut self.g, Src::Node(n, 0), 0, 0);
        commit(&mut self.g);
        self.m.run(&mut self.ap, "the graph can be edited after a rejected edit");
    }
}
// @h h_c25_connect : every pair of source and sink among 6 live nodes (connected in 4 ways), a freed node, a removed one, one of another graph (same or other key), the invalid id and the graph itself, every u16 channel number, by connect2 / _replace / _feedback / _feedback_replace, where the edit is invalid (something missing, channel out of range, cycle without feedback)
#[unsafe(no_mangle)]
pub extern "C" fn h_c25_connect() {
    let mut w = world();
    let so = choice(11, "source");
    let si = choice(11, "sink");
    let how = choice(4, "how");
    // feedback to or from the graph's own ports is documented to be made without feedback
    let (sc, kc) = (any_u16("source channel"), any_u16("sink channel"));
    let bad = !w.exists(so) || !w.exists(si) || (how < 2 && w.cyclic(so, si));
    if !bad { assume(sc >= w.outs(so) || kc >= w.ins(si)); }
    let before = w.g.inspection();
    let (s, k) = (w.id(so), w.id(si));
    let r = match how { 0 => w.g.connect2(s, sc, kc, k), 1 => w.g.connect2_replace(s, sc, kc, k), 2 => w.g.connect2_feedback(s, sc, kc, k), _ => w.g.connect2_feedback_replace(s, sc, kc, k) };
    let e = r.is_err();
    w.rejected(before, e);
}
const NAMES: [&str; 3] = ["p0", "p1", "nope"];
// @h h_c25_param : connecting to a parameter (adding and replacing) and setting one, by every usize index or by name, all pairs of nodes as above, every u16 source channel
#[unsafe(no_mangle)]
pub extern "C" fn h_c25_param() {
    let mut w = world();
    let how = choice(3, "how");
    let so = if how < 2 { choice(10, "source") } else { 0 };
    let si = choice(10, "sink");
    let sc = if how < 2 { any_u16("source channel") } else { 0 };
    let name = choice(4, "name");
    let index = any_u64("index") as usize;
    let np = if si == 2 { 2 } else { 0 };
    let mut bad = !w.exists(so) || !w.exists(si) || (how < 2 && w.cyclic(so, si));
    if name < 3 { bad |= np == 0 || name == 2; }
    if !bad { assume(sc >= w.outs(so) || (name == 3 && index >= np)); }
    let p: Param = if name == 3 { index.into() } else { NAMES[name].into() };
    let before = w.g.inspection();
    let (s, k) = (w.nid(so), w.nid(si));
    let r = match how { 0 => w.g.connect_to_parameter(s, sc, p, k), 1 => w.g.connect_replace_to_parameter(s, sc, p, k), _ => w.g.set(k, p, 1.5f64, Time::asap()) };
    let e = r.is_err();
    w.rejected(before, e);
}
// @h h_c25_other : disconnecting, freeing, looking up, naming and changing the mortality of things that do not exist, every u16 channel; freeing a node made immortal
#[unsafe(no_mangle)]
pub extern "C" fn h_c25_other() {
    let mut w = world();
    let n = choice(11, "node");
    let ch = any_u16("channel");
    let how = choice(6, "how");
    if n == GRAPH { assume(how < 2); }
    if how >= 2 && how != 5 { assume(!w.exists(n)); }
    if how == 5 { assume(w.exists(n)); check(w.g.set_mortality(w.m.nodes[n].id, false).is_ok(), "an existing node can be made immortal"); }
    if how == 0 && w.exists(n) { assume(ch >= w.outs(n)); }
    if how == 1 && w.exists(n) { assume(ch >= w.ins(n)); }
    let before = w.g.inspection();
    let id = w.id(n);
    let err = match how {
        0 => w.g.disconnect_output_from_source(id, ch).is_err(),
        1 => w.g.disconnect_input_to_sink(ch, id).is_err(),
        2 | 5 => { let id = w.nid(n); w.g.edit(|g| g.free_node(id)).is_err() }
        3 => { let id = w.nid(n); w.g.set_mortality(id, true).is_err() }
        _ => { let id = w.nid(n); let none = w.g.edit(|g| g.handle(id).is_none()); w.g.set_name(id, "other".into()); none && w.g.node_data(id).is_none() }
    };
    w.rejected(before, err);
}
