//! C36: hand-over between the control side and the audio side, which run interleaved: the other
//! side acts at any callback in the middle of a block or in the middle of a commit.
use crate::gr::*;
const OUT: &str = "an edit becomes visible to the audio side as a whole, from a block after its commit";
type Shared<T> = std::rc::Rc<std::cell::RefCell<T>>;
fn shared<T>(t: T) -> Shared<T> { std::rc::Rc::new(std::cell::RefCell::new(t)) }
fn input() -> Vec<[Z; B]> { vec![[any_z("in0"), any_z("in0b")]] }

/// In -> n0 -> n1 (2 in) -> out 0, n2 -> n1, n0 -> out 1
fn base() -> (Graph<Z>, AudioProcessor<Z>, M) {
    let (mut g, ap, _l, mut m) = graph_of::<U1, U2>();
    m.push_shape(&mut g, 1);
    m.push_shape(&mut g, 2);
    m.push_shape(&mut g, 0);
    m.connect(&mut g, Src::In(0), 0, 0);
    m.connect(&mut g, Src::Node(0, 0), 1, 0);
    m.connect(&mut g, Src::Node(2, 0), 1, 1);
    m.connect_out(&mut g, Src::Node(1, 0), 0);
    m.connect_out(&mut g, Src::Node(0, 0), 1);
    commit(&mut g);
    (g, ap, m)
}
fn edit(g: &mut Graph<Z>, m: &mut M, big: bool) {
    match choice(if big { 8 } else { 6 }, "edit") {
        0 => { let n = m.push_shape(g, 4); m.connect(g, Src::In(0), n, 0); m.connect_out_replace(g, Src::Node(n, 1), 1); }
        1 => { if m.nodes[0].alive { m.free(g, 0); } }
        2 => { if m.nodes[2].alive { m.free(g, 2); } }
        3 => { m.connect_out(g, Src::In(0), 1); }
        4 => { if m.nodes[0].alive && m.nodes[1].alive { m.disconnect_input(g, 1, 0); m.connect(g, Src::Node(0, 0), 1, 1); } }
        5 => { if m.nodes[0].alive && m.nodes[1].alive { m.connect_fb(g, 1, 0, 0, 0); } }
        6 => { let n = m.push_par(g); m.connect(g, Src::In(0), n, 0); if m.nodes[0].alive { m.connect_par(g, Src::Node(0, 0), n, 0); } m.connect_out_replace(g, Src::Node(n, 0), 0); }
        // enough nodes that the buffers are allocated anew
        _ => { for _ in 0..3 { if m.nodes.len() >= 8 { break; } let n = m.push_shape(g, 4); if m.nodes[n - 1].alive { m.connect(g, Src::Node(n - 1, 0), n, 0); } m.connect_out(g, Src::Node(n, 1), 0); } }
    }
}
/// Runs a block; the outputs must be those of `m`, which is left in the state after the block.
fn block(ap: &mut AudioProcessor<Z>, m: &mut M, inp: &[[Z; B]]) -> u32 {
    let want = m.eval(inp);
    ap.run(&[&inp[0]]);
    let mut d = 0u32;
    for (c, w) in want.iter().enumerate() { for f in 0..B { d |= rd(ap.output_block(), c, f).0 ^ w[f].0; } }
    d
}
fn mid_block(before: usize, inside: usize) {
    let (mut g, mut ap, mut m) = base();
    if choice(2, "run first") == 1 { m.run(&mut ap, OUT); }
    for _ in 0..before { edit(&mut g, &mut m, true); commit(&mut g); }
    let inp = input();
    // a node that is in the graph, and its frame in this block
    let alive: Vec<usize> = (0..m.nodes.len()).filter(|i| m.nodes[*i].alive && m.nodes[*i].par.is_none()).collect();
    let at = alive[choice(alive.len() as u32, "node")];
    let frame = m.nodes[at].n + choice(B as u32, "frame") as u32;
    let tag = m.nodes[at].tag;
    let want = m.eval(&inp);
    let s = shared((g, m));
    let s2 = s.clone();
    hook_at(At::Frame(frame), tag, move || {
        let (g, m) = &mut *s2.borrow_mut();
        for _ in 0..inside {
            edit(g, m, true);
            if choice(2, "commit inside") == 1 { commit(g); }
        }
        cover("inside");
    });
    ap.run(&[&inp[0]]);
    unhook();
    let mut d = 0u32;
    for (c, w) in want.iter().enumerate() { for f in 0..B { d |= rd(ap.output_block(), c, f).0 ^ w[f].0; } }
    check(d == 0, "an edit made while a block is processed leaves that block as it was");
    let (g, m) = &mut *s.borrow_mut();
    commit(g);
    m.run(&mut ap, OUT);
    commit(g);
    m.run(&mut ap, OUT);
    let mut ok = true;
    for n in &m.nodes { ok &= drops(n.tag) == !n.alive as u32; }
    check(ok, "freed nodes are collected, others are not");
}
// @h h_c36_mid_block cover=inside : an edit (8 kinds: push, free, connect, disconnect, feedback, parameter edges, growing buffers), committed or not, at any frame of any node of a running block, with a committed edit the audio side has not seen yet: the block is that of the graph before, the following ones that of the graph after
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_mid_block() { mid_block(1, 1); }
// @h h_c36_mid_block2 thorough : as h_c36_mid_block with two edits before and two inside, each committed or not
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_mid_block2() { mid_block(choice(3, "edits before"), 2); }

fn mid_commit(n: usize) {
    let (mut g, mut ap, mut m) = base();
    m.run(&mut ap, OUT);
    // the edit whose nodes are dropped, or none
    let victim = [0usize, 2][choice(2, "freed first")];
    m.free(&mut g, victim);
    commit(&mut g);
    m.run(&mut ap, OUT);
    let mut old = m;
    let mut new = old.clone();
    for _ in 0..n { edit(&mut g, &mut new, false); }
    let (ap, inp) = (shared(ap), input());
    let (ap2, inp2) = (ap.clone(), inp.clone());
    hook_at(At::Drop, old.nodes[victim].tag, move || { ap2.borrow_mut().run(&[&inp2[0]]); cover("inside"); });
    let before: Vec<u32> = new.nodes.iter().map(|n| frames(n.tag)).collect();
    commit(&mut g);
    unhook();
    let ap = &mut *ap.borrow_mut();
    // the block that ran inside saw the graph before the commit or the one after it
    let ran = new.nodes.iter().zip(&before).any(|(n, b)| n.alive && frames(n.tag) != *b);
    if ran {
        let mut seen = new.clone();
        let (a, b) = (old.eval(&inp), seen.eval(&inp));
        let (mut da, mut db) = (0u32, 0u32);
        for c in 0..2 { for f in 0..B { let o = rd(ap.output_block(), c, f).0; da |= o ^ a[c][f].0; db |= o ^ b[c][f].0; } }
        check(da == 0 || db == 0, "a block that runs while an edit is committed is that of the graph before or after the edit");
        if da == 0 { new.adopt(&old); } else { new = seen; }
    }
    new.run(ap, OUT);
    commit(&mut g);
    new.run(ap, OUT);
}
// @h h_c36_mid_commit cover=inside : a block that runs while freed nodes are dropped in the commit of one further edit: it is that of the graph before or after, and the blocks that follow that of the graph after
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_mid_commit() { mid_commit(1); }
// @h h_c36_mid_commit2 thorough : as h_c36_mid_commit with two edits
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_mid_commit2() { mid_commit(2); }
// @h h_c36_mid_edit : a block that runs between any two operations of an edit, or while a node of it is initialised, is that of the graph before the edit
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_mid_edit() {
    let (mut g, ap, mut m) = base();
    let ap = shared(ap);
    m.run(&mut ap.borrow_mut(), OUT);
    let mut old = m.clone();
    let inp = input();
    let at = choice(5, "block at");
    let run = |old: &mut M| { let d = block(&mut ap.borrow_mut(), old, &inp); check(d == 0, "a block that runs before an edit is committed is that of the graph before"); };
    if at == 0 {
        let (ap2, inp2) = (ap.clone(), inp.clone());
        hook_at(At::Init, 4, move || ap2.borrow_mut().run(&[&inp2[0]]));
    }
    let t = Tag::<U1, U1>::new(4);
    g.edit(|e| {
        let h = e.push(t);
        let n = m.added(h.id(), 4, 1, 1);
        if at == 1 { run(&mut old); }
        h.out([0]).to_graph_out_channels_replace([1]);
        m.outs[1] = vec![Src::Node(n, 0)];
        if at == 2 { run(&mut old); }
        let _ = e.free_node(m.nodes[2].id);
        m.freed(2);
        if at == 3 { run(&mut old); }
    });
    unhook();
    if at == 0 { old.eval(&inp); }
    if at < 4 { m.adopt(&old); }
    let ap = &mut *ap.borrow_mut();
    m.run(ap, OUT);
    commit(&mut g);
    m.run(ap, OUT);
}
