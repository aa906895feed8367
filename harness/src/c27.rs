//! C27: a nested graph behaves like its contents, wired directly.
use crate::gr::*;
const WHAT: &str = "a graph with a nested graph gives what its contents give when wired directly";

/// Input ports of the nested graph are ports 0 and 1 of the model, its outputs ports 2 and 3.
struct T { g: Graph<Z>, sub: Option<Graph<Z>>, ap: AudioProcessor<Z>, m: M, id: NodeId, gone: bool, late: bool, inner: Vec<usize> }
const P0: Src = Src::Port(0);
const P1: Src = Src::Port(1);
const S0: Src = Src::Port(2);
const S1: Src = Src::Port(3);
fn graph_options() -> GraphOptions { GraphOptions { name: Default::default(), ring_buffer_size: 8 } }
impl T {
    fn new(edit_api: bool) -> T {
        let (mut g, ap, _l, mut m) = graph_of::<U2, U2>();
        // nodes 0, 1 in the parent
        m.push_shape(&mut g, 1);
        m.push_shape(&mut g, 1);
        let (sub, id);
        if edit_api {
            let mut r = None;
            g.edit(|e| {
                let mut ids: Vec<NodeId> = Vec::new();
                let (h, s) = e.subgraph::<U2, U2>(graph_options(), |e| { ids.push(e.push(Tag::<U2, U1>::new(5)).id()); ids.push(e.push(Tag::<U1, U2>::new(6)).id()); });
                r = Some((s, h.id(), ids));
            });
            let (s, i, ids) = r.unwrap();
            m.added(ids[0], 5, 2, 1);
            m.added(ids[1], 6, 1, 2);
            (sub, id) = (s, i);
        } else {
            #[allow(deprecated)]
            let mut s = g.subgraph::<U2, U2>(graph_options());
            id = s.id();
            m = m.with_tags(5);
            m.push_shape(&mut s, 2);
            m.push_shape(&mut s, 3);
            sub = s;
        }
        m = m.with_tags(10);
        for k in 0..4 { m.ports.push(if k < 2 { (NodeOrGraph::Graph, k as u16, Vec::new()) } else { (NodeOrGraph::Node(id), k as u16 - 2, Vec::new()) }); }
        T { g, sub: Some(sub), ap, m, id, gone: false, late: false, inner: vec![2, 3] }
    }
    /// Connect to input port `p` of the nested graph, in the parent.
    fn port_in(&mut self, s: Src, p: usize) {
        let (so, sc) = self.m.nog(s);
        check(self.g.connect2(so, sc, p as u16, self.id).is_ok(), "a valid connection is accepted");
        self.m.ports[p].2.push(s);
    }
    fn port_in_replace(&mut self, s: Src, p: usize) {
        let (so, sc) = self.m.nog(s);
        check(self.g.connect2_replace(so, sc, p as u16, NodeOrGraph::Node(self.id)).is_ok(), "a valid connection is accepted");
        self.m.ports[p].2 = vec![s];
    }
    fn port_in_disconnect(&mut self, p: usize) {
        check(self.g.disconnect_input_to_sink(p as u16, self.id).is_ok(), "disconnecting an existing input is accepted");
        self.m.ports[p].2.clear();
    }
    /// Connect to output `o` of the nested graph, inside it.
    fn port_out(&mut self, s: Src, o: usize) {
        let (so, sc) = self.m.nog(s);
        check(self.sub.as_mut().unwrap().connect2(so, sc, o as u16, NodeOrGraph::Graph).is_ok(), "a valid connection to an output is accepted");
        self.m.ports[2 + o].2.push(s);
    }
    fn port_out_replace(&mut self, s: Src, o: usize) {
        let (so, sc) = self.m.nog(s);
        check(self.sub.as_mut().unwrap().connect2_replace(so, sc, o as u16, NodeOrGraph::Graph).is_ok(), "a valid connection to an output is accepted");
        self.m.ports[2 + o].2 = vec![s];
    }
    fn commit_both(&mut self, parent_first: bool) {
        if parent_first { commit(&mut self.g); }
        if let Some(s) = &mut self.sub { commit(s); }
        if !parent_first { commit(&mut self.g); }
    }
    fn free_sub(&mut self) {
        let id = self.id;
        check(self.g.edit(|g| g.free_node(id)).is_ok(), "freeing an existing node is accepted");
        self.gone = true;
        for n in self.inner.clone() { self.m.freed(n); }
        for p in 0..4 { self.m.ports[p].2.clear(); }
    }
    fn run(&mut self) { self.m.run(&mut self.ap, WHAT); }
    fn sub(&mut self) -> &mut Graph<Z> { self.sub.as_mut().unwrap() }
}
fn one(s: &[Src], name: &str) -> Option<Src> { let k = choice(s.len() as u32 + 1, name); if k == 0 { None } else { Some(s[k - 1]) } }

// @h h_c27_wiring : a parent with 2 inputs, 2 outputs and 2 nodes and a nested graph with 2 inputs, 2 outputs and 2 nodes (created either way): every choice of what its input ports, its nodes' inputs and its outputs are connected to, with sums at ports, both orders of committing
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_wiring() {
    let mut t = T::new(choice(2, "how it is created") == 0);
    let (a, b, x, y) = (0, 1, 2, 3);
    t.m.connect(&mut t.g, Src::In(0), a, 0);
    if let Some(s) = one(&[Src::In(0), Src::Node(a, 0)], "port 0") { t.port_in(s, 0); }
    match choice(3, "port 1") { 1 => t.port_in(Src::In(1), 1), 2 => { t.port_in(Src::In(1), 1); t.port_in(Src::Node(a, 0), 1); } _ => {} }
    let s = one(&[P0, P1], "input of x").unwrap_or(P0);
    t.m.connect(t.sub.as_mut().unwrap(), s, x, 0);
    t.m.connect(t.sub.as_mut().unwrap(), P1, x, 1);
    if let Some(s) = one(&[P1, Src::Node(x, 0)], "input of y") { t.m.connect(t.sub.as_mut().unwrap(), s, y, 0); }
    if let Some(s) = one(&[P1, Src::Node(x, 0), Src::Node(y, 1)], "output 0") { t.port_out(s, 0); }
    match choice(3, "output 1") { 0 => t.port_out(Src::Node(y, 0), 1), 1 => { t.port_out(P0, 1); t.port_out(Src::Node(x, 0), 1); } _ => {} }
    t.m.connect(&mut t.g, S1, b, 0);
    t.m.connect_out(&mut t.g, S0, 0);
    t.m.connect_out(&mut t.g, Src::Node(b, 0), 1);
    t.commit_both(choice(2, "parent first") == 1);
    for _ in 0..2 { t.run(); }
}
fn edit(t: &mut T, deep: bool) {
    let (a, x, y) = (0, 2, 3);
    let n = if deep { 13 } else { 11 };
    match choice(n, "edit") {
        0 => if !t.gone { t.port_in_replace(Src::Node(a, 0), 0); },
        1 => if !t.gone { t.port_in_disconnect(1); },
        2 => if !t.gone { t.port_in(Src::In(0), 1); },
        3 => t.m.disconnect_graph_out(&mut t.g, 0),
        4 => if !t.gone && t.m.nodes[x].alive { t.m.free(t.sub.as_mut().unwrap(), x); },
        5 => if !t.gone { let s = if t.m.nodes[y].alive { Src::Node(y, 1) } else { P0 }; t.port_out_replace(s, 0); },
        6 => if !t.gone { t.port_out(P1, 1); },
        7 => if !t.gone { let n = t.m.push_shape(t.sub.as_mut().unwrap(), 1); t.inner.push(n); t.m.connect(t.sub.as_mut().unwrap(), P0, n, 0); t.port_out(Src::Node(n, 0), 0); },
        8 => if !t.gone { t.free_sub(); },
        9 => { let n = t.m.push_shape(&mut t.g, 1); t.m.connect(&mut t.g, Src::In(1), n, 0); t.m.connect_out(&mut t.g, Src::Node(n, 0), 1); },
        11 => if !t.gone && t.m.nodes[x].alive { t.m.connect_fb(t.sub.as_mut().unwrap(), x, 0, x, 1); },
        12 => if t.gone { t.sub = None; },
        _ => {}
    }
    // each graph's edits are committed on their own
    match choice(3, "commit") {
        0 => t.commit_both(true),
        1 => t.commit_both(false),
        _ => { t.late = true; }
    }
}
fn start() -> T {
    let mut t = T::new(true);
    let (a, b, x, y) = (0, 1, 2, 3);
    t.m.connect(&mut t.g, Src::In(0), a, 0);
    t.port_in(Src::In(0), 0);
    t.port_in(Src::Node(a, 0), 1);
    t.m.connect(t.sub.as_mut().unwrap(), P0, x, 0);
    t.m.connect(t.sub.as_mut().unwrap(), P1, x, 1);
    t.m.connect(t.sub.as_mut().unwrap(), Src::Node(x, 0), y, 0);
    t.port_out(Src::Node(x, 0), 0);
    t.port_out(Src::Node(y, 0), 1);
    t.m.connect(&mut t.g, S1, b, 0);
    t.m.connect_out(&mut t.g, S0, 0);
    t.m.connect_out(&mut t.g, Src::Node(b, 0), 1);
    t.commit_both(false);
    t
}
fn edits(n: usize, deep: bool) {
    let mut t = start();
    if choice(2, "run first") == 1 { t.run(); }
    for _ in 0..n {
        edit(&mut t, deep);
        if t.late { t.late = false; t.commit_both(true); }
        t.run();
    }
    t.run();
}
// @h h_c27_edits : from a wired parent and nested graph, 2 edits to either graph (ports reconnected, summed, disconnected; nodes added and freed inside; the nested graph freed; the parent edited), committed in either order
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_edits() { edits(2, false); }
// @h h_c27_edits3 thorough : 3 edits, also feedback inside the nested graph and dropping its control side after it was freed
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_edits3() { edits(3, true); }

// @h h_c27_independent : an edit of one graph takes effect when that graph is committed, whether or not the other one is (1 uncommitted edit in the other graph)
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_independent() {
    let mut t = start();
    t.run();
    let mut kept = false;
    if choice(2, "edited graph") == 0 {
        // pending in the nested graph, committed in the parent
        let id = t.m.nodes[3].id;
        check(t.sub().connect2_replace(NodeOrGraph::Node(id), 1, 0, NodeOrGraph::Graph).is_ok(), "a valid connection to an output is accepted");
        if choice(2, "which") == 0 { t.port_in_replace(Src::In(1), 0); } else { t.m.connect_out_replace(&mut t.g, S0, 1); }
        commit(&mut t.g);
        kept = true;
    } else {
        // pending in the parent, committed in the nested graph
        check(t.g.connect2_replace(NodeOrGraph::Graph, 1, 0, NodeOrGraph::Graph).is_ok(), "a valid connection to an output is accepted");
        t.port_out_replace(Src::Node(3, 1), 0);
        commit(t.sub());
    }
    t.run();
    if kept { t.m.ports[2].2 = vec![Src::Node(3, 1)]; } else { t.m.outs[0] = vec![Src::In(1)]; }
    t.commit_both(choice(2, "parent first") == 1);
    t.run();
}
// @h h_c27_deep : two levels of nesting: inputs pass through both, an edit at any level or at all of them takes effect, freeing the outer or the inner graph silences it alone
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_deep() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U2, U2>();
    let (mut s1, mut s2) = (None, None);
    let mut ids = [NodeId::invalid(); 2];
    let mut tags: Vec<NodeId> = Vec::new();
    g.edit(|e| {
        let (h, s) = e.subgraph::<U2, U2>(graph_options(), |e| {
            tags.push(e.push(Tag::<U1, U1>::new(1)).id());
            let (h, s) = e.subgraph::<U2, U2>(graph_options(), |e| { tags.push(e.push(Tag::<U2, U2>::new(2)).id()); });
            ids[1] = h.id();
            s2 = Some(s);
        });
        ids[0] = h.id();
        s1 = Some(s);
    });
    let (mut s1, mut s2) = (s1.unwrap(), s2.unwrap());
    let (o, i) = (m.added(tags[0], 1, 1, 1), m.added(tags[1], 2, 2, 2));
    // ports 0, 1: into the outer one; 2, 3: into the inner; 4, 5: out of the inner; 6, 7: out of the outer
    for k in 0..8u16 { m.ports.push((match k / 2 { 0 | 1 => NodeOrGraph::Graph, 2 => NodeOrGraph::Node(ids[1]), _ => NodeOrGraph::Node(ids[0]) }, k % 2, Vec::new())); }
    let ok = |r: bool| check(r, "a valid connection is accepted");
    let swap = choice(2, "swapped") as u16;
    ok(g.connect2(NodeOrGraph::Graph, 0, swap, ids[0]).is_ok() && g.connect2(NodeOrGraph::Graph, 1, 1 - swap, ids[0]).is_ok());
    m.ports[swap as usize].2 = vec![Src::In(0)];
    m.ports[1 - swap as usize].2 = vec![Src::In(1)];
    m.connect(&mut s1, Src::Port(0), o, 0);
    ok(s1.connect2(NodeOrGraph::Node(tags[0]), 0, 0, ids[1]).is_ok() && s1.connect2(NodeOrGraph::Graph, 1, 1, ids[1]).is_ok());
    m.ports[2].2 = vec![Src::Node(o, 0)];
    m.ports[3].2 = vec![Src::Port(1)];
    m.connect(&mut s2, Src::Port(2), i, 0);
    m.connect(&mut s2, Src::Port(3), i, 1);
    ok(s2.connect2(NodeOrGraph::Node(tags[1]), 0, 0, NodeOrGraph::Graph).is_ok() && s2.connect2(NodeOrGraph::Graph, 1, 1, NodeOrGraph::Graph).is_ok());
    m.ports[4].2 = vec![Src::Node(i, 0)];
    m.ports[5].2 = vec![Src::Port(3)];
    ok(s1.connect2(NodeOrGraph::Node(ids[1]), 0, 0, NodeOrGraph::Graph).is_ok() && s1.connect2(NodeOrGraph::Node(ids[1]), 1, 1, NodeOrGraph::Graph).is_ok());
    m.ports[6].2 = vec![Src::Port(4)];
    m.ports[7].2 = vec![Src::Port(5)];
    m.connect_out(&mut g, Src::Port(6), 0);
    m.connect_out(&mut g, Src::Port(7), 1);
    let order = choice(3, "order");
    let all = |g: &mut Graph<Z>, a: &mut Graph<Z>, b: &mut Graph<Z>| match order { 0 => { commit(g); commit(a); commit(b); } 1 => { commit(b); commit(a); commit(g); } _ => { commit(a); commit(g); commit(b); } };
    all(&mut g, &mut s1, &mut s2);
    m.run(&mut ap, WHAT);
    if choice(2, "edit inner") == 1 { ok(s2.connect2_replace(NodeOrGraph::Node(tags[1]), 1, 1, NodeOrGraph::Graph).is_ok()); m.ports[5].2 = vec![Src::Node(i, 1)]; }
    if choice(2, "edit middle") == 1 { ok(s1.connect2_replace(NodeOrGraph::Graph, 0, 1, NodeOrGraph::Node(ids[1])).is_ok()); m.ports[3].2 = vec![Src::Port(0)]; }
    match choice(3, "free") {
        0 => { ok(s1.edit(|e| e.free_node(ids[1])).is_ok()); m.freed(i); m.ports[4].2.clear(); m.ports[5].2.clear(); }
        1 => { ok(g.edit(|e| e.free_node(ids[0])).is_ok()); m.freed(i); m.freed(o); for p in 0..8 { m.ports[p].2.clear(); } }
        _ => {}
    }
    all(&mut g, &mut s1, &mut s2);
    m.run(&mut ap, WHAT);
    all(&mut g, &mut s1, &mut s2);
    m.run(&mut ap, WHAT);
}
