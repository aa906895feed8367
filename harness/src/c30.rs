//! C30: selecting, stacking and connecting channels keeps them in order.
use crate::gr::*;
use knaster_graph::graph_edit::*;
const WHAT: &str = "the i-th source channel is connected to the i-th destination and nothing else is connected";

/// What the graph outputs are, as sums of named source channels, evaluated.
fn compare(ap: &mut AudioProcessor<Z>, inp: &[[Z; B]], outs: &[Vec<Ch>], what: &str) {
    let refs: Vec<&[Z]> = inp.iter().map(|x| &x[..]).collect();
    for block in 0..2u32 {
        ap.run(&refs);
        let mut d = 0;
        for (c, o) in outs.iter().enumerate() { for f in 0..B {
            let mut want = Z(0);
            for s in o { want = want + s.val(inp, block * B as u32 + f as u32, f); }
            d |= rd(ap.output_block(), c, f).0 ^ want.0;
        } }
        check(d == 0, what);
    }
}
/// A source channel: graph input or channel of node `tag` whose inputs are sums of other channels.
#[derive(Clone)]
enum Ch { In(usize), Out(u32, Vec<Vec<Ch>>, usize) }
impl Ch { fn val(&self, inp: &[[Z; B]], n: u32, f: usize) -> Z { match self {
    Ch::In(c) => inp[*c][f],
    Ch::Out(tag, ins, o) => { let xs: Vec<Z> = ins.iter().map(|i| { let mut a = Z(0); for s in i { a = a + s.val(inp, n, f); } a }).collect(); node_fn(*tag, n, &xs, *o) }
} } }
fn inputs() -> [[Z; B]; 3] { [[any_z("a0"), any_z("a1")], [any_z("b0"), any_z("b1")], [any_z("c0"), any_z("c1")]] }
fn src(tag: u32, n: usize) -> Vec<Ch> { (0..n).map(|o| Ch::Out(tag, vec![], o)).collect() }

// @h h_c30_select : two of the three channels of a node or of the graph inputs, chosen arbitrarily (also twice the same), as typed or erased handle, connected to a two input node or to two arbitrary graph outputs, plain or replacing
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_select() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U3>(opts());
    let inp = inputs();
    let (i, j, form) = (choice(3, "first") as u16, choice(3, "second") as u16, choice(3, "source"));
    let mut outs: Vec<Vec<Ch>> = vec![Vec::new(); 3];
    let ins: Vec<Ch> = if form < 2 { src(1, 3) } else { vec![Ch::In(0), Ch::In(1), Ch::In(2)] };
    let sel = vec![ins[i as usize].clone(), ins[j as usize].clone()];
    g.edit(|g| {
        // something is connected to every output to start with
        g.from_inputs([0, 1, 2]).unwrap().to_graph_out();
        for c in 0..3 { outs[c].push(Ch::In(c)); }
        macro_rules! go { ($h:expr) => { match choice(4, "sink") {
            0 => {
                let t = g.push(Tag::<U2, U2>::new(2));
                let prev = choice(2, "already connected") == 1;
                if prev { let _ = g.from_inputs([2, 1]).unwrap().to(t); }
                let replace = choice(2, "replace") == 1;
                let extra = |c: usize| if prev && !replace { vec![Ch::In(2 - c)] } else { vec![] };
                let mut n: Vec<Vec<Ch>> = vec![extra(0), extra(1)];
                n[0].push(sel[0].clone());
                n[1].push(sel[1].clone());
                for c in 0..2 { outs[c] = vec![Ch::Out(2, n.clone(), c)]; }
                if replace { $h.dynamic().to_replace(t.dynamic()).to_graph_out_replace(); } else { $h.dynamic().to(t.dynamic()).to_graph_out_replace(); }
            }
            1 => { for c in 0..2 { outs[c].push(sel[c].clone()); } $h.to_graph_out(); }
            2 => {
                let (x, y) = (choice(3, "out 0") as u16, choice(3, "out 1") as u16);
                outs[x as usize].push(sel[0].clone());
                outs[y as usize].push(sel[1].clone());
                $h.to_graph_out_channels([x, y]);
            }
            _ => {
                let (x, y) = (choice(3, "out 0") as u16, choice(3, "out 1") as u16);
                outs[x as usize] = vec![sel[0].clone()];
                outs[y as usize] = vec![sel[1].clone()];
                $h.to_graph_out_channels_replace([x, y]);
            }
        } } }
        match form {
            0 => { let n = g.push(Tag::<U0, U3>::new(1)); go!(n.out([i, j])) }
            1 => { let n = g.push(Tag::<U0, U3>::new(1)).dynamic(); go!(n.out([i, j])) }
            _ => { let h = g.from_inputs([i, j]).unwrap(); go!(h) }
        }
    });
    compare(&mut ap, &inp, &outs, WHAT);
}
// @h h_c30_stack : stacks of sources (1+2 or 2+1 channels, nested, with selected channels) into stacks of sinks (1+2, 2+1 and 1+1+1 inputs), by to, >>, to_replace, as typed and as erased handles, and mixed
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_stack() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U3>(opts());
    let inp = inputs();
    let (l, r) = (choice(4, "sources"), choice(3, "sinks"));
    let how = choice(6, "how");
    let s: Vec<Ch> = match l {
        0 => vec![src(1, 1)[0].clone(), src(2, 2)[0].clone(), src(2, 2)[1].clone()],
        1 => vec![src(2, 2)[1].clone(), src(2, 2)[0].clone(), src(1, 1)[0].clone()],
        2 => vec![Ch::In(2), src(1, 1)[0].clone(), Ch::In(0)],
        _ => vec![src(1, 1)[0].clone(), src(1, 1)[0].clone(), Ch::In(1)],
    };
    let one = |x: &Ch| vec![vec![x.clone()]];
    let two = |x: &Ch, y: &Ch| vec![vec![x.clone()], vec![y.clone()]];
    let outs: Vec<Vec<Ch>> = match r {
        0 => vec![vec![Ch::Out(5, one(&s[0]), 0)], vec![Ch::Out(6, two(&s[1], &s[2]), 0)], vec![Ch::Out(6, two(&s[1], &s[2]), 1)]],
        1 => vec![vec![Ch::Out(6, two(&s[0], &s[1]), 0)], vec![Ch::Out(6, two(&s[0], &s[1]), 1)], vec![Ch::Out(5, one(&s[2]), 0)]],
        _ => vec![vec![Ch::Out(5, one(&s[0]), 0)], vec![Ch::Out(7, one(&s[1]), 0)], vec![Ch::Out(8, one(&s[2]), 0)]],
    };
    g.edit(|g| {
        macro_rules! sinks { ($id:ident, $body:expr) => { match r {
            0 => { let $id = g.push(Tag::<U1, U1>::new(5)) | g.push(Tag::<U2, U2>::new(6)); $body }
            1 => { let $id = g.push(Tag::<U2, U2>::new(6)).stack(g.push(Tag::<U1, U1>::new(5))); $body }
            _ => { let $id = g.push(Tag::<U1, U1>::new(5)) | g.push(Tag::<U1, U1>::new(7)) | g.push(Tag::<U1, U1>::new(8)); $body }
        } } }
        macro_rules! sources { ($id:ident, $body:expr) => { match l {
            0 => { let $id = g.push(Tag::<U0, U1>::new(1)) | g.push(Tag::<U0, U2>::new(2)); $body }
            1 => { let $id = g.push(Tag::<U0, U2>::new(2)).out([1, 0]) | g.push(Tag::<U0, U1>::new(1)); $body }
            2 => { let $id = g.from_inputs([2]).unwrap() | (g.push(Tag::<U0, U1>::new(1)) | g.from_inputs([0]).unwrap()); $body }
            _ => { let n = g.push(Tag::<U0, U1>::new(1)); let $id = (n | n) | g.from_inputs([1]).unwrap(); $body }
        } } }
        sources!(a, sinks!(b, match how {
            0 => a.to(b).to_graph_out(),
            1 => (a >> b).to_graph_out(),
            2 => a.to_replace(b).to_graph_out_replace(),
            3 => a.dynamic().to(b.dynamic()).to_graph_out(),
            4 => (a >> b.dynamic()).to_graph_out(),
            _ => { let d = a.dynamic().try_to(b.dynamic()); check(d.is_ok(), "valid connections are accepted"); d.unwrap().to_graph_out() }
        }));
    });
    compare(&mut ap, &inp, &outs, WHAT);
}
// @h h_c30_mixed : stacks of typed and erased handles, erased channel handles as source and sink, and disconnecting one of their channels
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_mixed() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U3>(opts());
    let inp = inputs();
    let (form, cut) = (choice(4, "form"), choice(7, "disconnect"));
    let s = [Ch::Out(1, vec![], 0), Ch::Out(2, vec![], 0), Ch::Out(2, vec![], 1)];
    let mut ins: Vec<Vec<Ch>> = (0..3).map(|c| vec![s[c].clone()]).collect();
    g.edit(|g| {
        let (a, b) = (g.push(Tag::<U0, U1>::new(1)), g.push(Tag::<U0, U2>::new(2)));
        let (c, d) = (g.push(Tag::<U1, U1>::new(3)), g.push(Tag::<U2, U2>::new(4)));
        let src = match form { 0 => a.dynamic() | b.dynamic(), 1 => a | b.dynamic(), 2 => a.dynamic() | b, _ => a.dynamic().to_channels_handle().stack(b.dynamic()) };
        let snk = match form { 0 => c.dynamic() | d, 1 => c.dynamic() | d.dynamic(), 2 => c.dynamic().to_channels_handle() | d, _ => c | d.dynamic() };
        let _ = src.clone() >> snk.clone();
        match cut {
            0..3 => { src.disconnect_output(cut as u16); ins[cut].clear(); }
            3..6 => { snk.disconnect_input(cut as u16 - 3); ins[cut - 3].clear(); }
            _ => {}
        }
        snk.to_graph_out();
    });
    let two = vec![ins[1].clone(), ins[2].clone()];
    let outs = vec![vec![Ch::Out(3, vec![ins[0].clone()], 0)], vec![Ch::Out(4, two.clone(), 0)], vec![Ch::Out(4, two, 1)]];
    compare(&mut ap, &inp, &outs, WHAT);
}
// @h h_c30_feedback : a stack of two sources into a two input node by feedback edges (typed and erased, plain and replacing): one block later, in order
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_feedback() {
    let (mut g, mut ap, _l, mut m) = graph_of::<U0, U2>();
    let how = choice(4, "how");
    g.edit(|g| {
        let (a, b, t) = (g.push(Tag::<U0, U1>::new(1)), g.push(Tag::<U0, U2>::new(2)), g.push(Tag::<U2, U2>::new(3)));
        m.added(a.id(), 1, 0, 1); m.added(b.id(), 2, 0, 2); m.added(t.id(), 3, 2, 2);
        let src = b.out([1]) | a;
        match how {
            0 => { src.to_feedback(t); }
            1 => { src.to_feedback_replace(t); }
            2 => { src.dynamic().to_feedback(t.dynamic()); }
            _ => { src.dynamic().to_feedback_replace(t.dynamic()); }
        }
        t.to_graph_out();
    });
    m.expect_fb(1, 1, 2, 0);
    m.expect_fb(0, 0, 2, 1);
    m.outs = vec![vec![Src::Node(2, 0)], vec![Src::Node(2, 1)]];
    for _ in 0..3 { m.run(&mut ap, WHAT); }
}
