//! C29: arithmetic on handles builds the expression that is written.
use crate::gr::*;
use knaster_graph::graph_edit::*;
const WHAT: &str = "each output channel is the expression that was written, on the matching channels";

fn op(k: usize, a: Z, b: Z) -> Z {
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => zdiv(a, b), _ => zpow(a, b) }
}
macro_rules! bin { ($k:expr, $a:expr, $b:expr) => { match $k {
    0 => ($a + $b).dynamic().to_graph_out(),
    1 => ($a - $b).dynamic().to_graph_out(),
    2 => ($a * $b).dynamic().to_graph_out(),
    _ => ($a / $b).dynamic().to_graph_out(),
} } }
macro_rules! binp { ($k:expr, $a:expr, $b:expr) => { match $k { 4 => ($a).pow($b).dynamic().to_graph_out(), k => bin!(k, $a, $b) } } }
macro_rules! dbin { ($k:expr, $a:expr, $b:expr) => { match $k { 0 => $a + $b, 1 => $a - $b, 2 => $a * $b, _ => $a / $b } } }

fn compare(ap: &mut AudioProcessor<Z>, inp: &[[Z; B]], want: impl Fn(usize, usize) -> Z, channels: usize) {
    let refs: Vec<&[Z]> = inp.iter().map(|x| &x[..]).collect();
    for block in 0..2 {
        ap.run(&refs);
        let mut d = 0;
        for c in 0..channels { for f in 0..B { d |= rd(ap.output_block(), c, f).0 ^ want(c, block * B + f).0; } }
        check(d == 0, WHAT);
    }
}
fn inputs() -> [[Z; B]; 3] { [[any_z("a0"), any_z("a1")], [any_z("b0"), any_z("b1")], [any_z("c0"), any_z("c1")]] }

// @h h_c29_handles : two operands of 2 channels each out of {a node, its channels swapped, graph inputs, a stack of two nodes}, as typed or type-erased handles in every combination, all of + - * / and power
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_handles() {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U2>(opts());
    let inp = inputs();
    let (k, form) = (choice(5, "operator"), choice(4, "typed or erased"));
    let (l, r) = (choice(4, "left"), choice(4, "right"));
    if form == 1 || form == 2 { assume(k != 4); }
    let val = |which: usize, side: u32, c: usize, n: usize| -> Z { match which {
        0 => node_fn(1 + side, n as u32, &[], c),
        1 => node_fn(1 + side, n as u32, &[], 1 - c),
        2 => inp[2 * (1 - c)][n % B],
        _ => node_fn(3 + 2 * side + c as u32, n as u32, &[], 0),
    } };
    g.edit(|g| {
        macro_rules! operand { ($which:expr, $side:expr, $id:ident, $body:expr) => { match $which {
            0 => { let $id = g.push(Tag::<U0, U2>::new(1 + $side)); $body }
            1 => { let $id = g.push(Tag::<U0, U2>::new(1 + $side)).out([1, 0]); $body }
            2 => { let $id = g.from_inputs([2, 0]).unwrap(); $body }
            _ => { let $id = g.push(Tag::<U0, U1>::new(3 + 2 * $side)) | g.push(Tag::<U0, U1>::new(4 + 2 * $side)); $body }
        } } }
        operand!(l, 0, a, operand!(r, 1, b, match form {
            0 => binp!(k, a, b),
            1 => bin!(k, a, b.dynamic()),
            2 => bin!(k, a.dynamic(), b),
            _ => binp!(k, a.dynamic(), b.dynamic()),
        }));
    });
    compare(&mut ap, &inp, |c, n| op(k, val(l, 0, c, n), val(r, 1, c, n)), 2);
}
// @h h_c29_const : a constant (every f64, f32 and i32; a usize) on either side of + - * / with a typed or an erased handle of two graph inputs, at f64: the result is the operator applied to the two numbers
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_const() {
    let (mut g, mut ap, _l) = AudioProcessor::<f64>::new::<U2, U2>(opts());
    let inp = [[any_f64("a0"), any_f64("a1")], [any_f64("b0"), any_f64("b1")]];
    let (k, ty, left, erased) = (choice(4, "operator"), choice(4, "type"), choice(2, "side") == 0, choice(2, "erased") == 1);
    let mut v = 0.0f64;
    g.edit(|g| {
        let h = g.from_inputs([1, 0]).unwrap();
        macro_rules! with { ($c:expr) => { match (left, erased) {
            (true, false) => bin!(k, $c, h),
            (true, true) => bin!(k, $c, h.dynamic()),
            (false, false) => bin!(k, h, $c),
            (false, true) => bin!(k, h.dynamic(), $c),
        } } }
        match ty {
            0 => { let c = any_f64("c"); v = c; with!(c) }
            1 => { let c = any_f32("c"); v = c as f64; with!(c) }
            2 => { let c = any_u32("c") as i32; v = c as f64; with!(c) }
            _ => { let c = 1usize << choice(20, "c"); v = c as f64; with!(c) }
        }
    });
    for _ in 0..2 {
        ap.run(&[&inp[0], &inp[1]]);
        for c in 0..2 { for f in 0..B {
            let x = inp[1 - c][f];
            let (a, b) = if left { (v, x) } else { (x, v) };
            let want = match k { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b };
            // a + b and b + a are the same number
            let flip = match k { 0 => b + a, 2 => b * a, _ => want };
            let got = rd(ap.output_block(), c, f);
            check(same64(got, want) || same64(got, flip), "arithmetic with a constant applies the operator to the two numbers in the written order");
        } }
    }
}
fn expr(n: usize) {
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U1>(opts());
    let inp = inputs();
    let mut want: Vec<[Z; B]> = inp.to_vec();
    g.edit(|g| {
        let mut hs: Vec<DH<'_, '_, Z, DynamicChannelsHandle>> = vec![g.from_inputs([0]).unwrap().dynamic(), g.from_inputs([1]).unwrap().dynamic(), g.from_inputs([2]).unwrap().dynamic()];
        for _ in 0..n {
            let (k, i) = (choice(4, "operator"), choice(2, "left"));
            let c = any_z("constant");
            // the newest expression takes part, on either side, with an older one, itself or a constant
            let (a, b) = (hs.len() - 1, match choice(3, "right") { 0 => Some(hs.len() - 2), 1 => Some(hs.len() - 1), _ => None });
            let f = |x: Z, y: Z| op(k, x, y);
            let (h, w) = match (b, i) {
                (Some(b), 0) => (dbin!(k, hs[a].clone(), hs[b].clone()), [f(want[a][0], want[b][0]), f(want[a][1], want[b][1])]),
                (Some(b), _) => (dbin!(k, hs[b].clone(), hs[a].clone()), [f(want[b][0], want[a][0]), f(want[b][1], want[a][1])]),
                (None, 0) => (dbin!(k, hs[a].clone(), c.pv()), [f(want[a][0], c), f(want[a][1], c)]),
                (None, _) => (dbin!(k, c.pv(), hs[a].clone()), [f(c, want[a][0]), f(c, want[a][1])]),
            };
            hs.push(h);
            want.push(w);
        }
        hs.last().unwrap().clone().to_graph_out();
    });
    let w = *want.last().unwrap();
    compare(&mut ap, &inp, |_, n| w[n % B], 1);
}
// @h h_c29_expr : expressions of 2 operators (each with an older expression, itself or an arbitrary constant on either side) over graph inputs
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_expr() { expr(2); }
// @h h_c29_expr3 : 3 operators
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_expr3() { expr(3); }
