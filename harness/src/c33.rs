//! C33: the audio processor delivers what the graph computed.
use crate::gr::*;

/// out[o] = F(tag, frames run, inputs, o), any block size; remembers nothing but its frame count.
struct Fun<I: Size, O: Size> { tag: u32, n: u32, _p: core::marker::PhantomData<NumericArray<u8, I>>, _q: core::marker::PhantomData<NumericArray<u8, O>> }
impl<I: Size, O: Size> Fun<I, O> { fn new(tag: u32) -> Self { Fun { tag, n: 0, _p: Default::default(), _q: Default::default() } } }
impl<I: Size, O: Size> UGen for Fun<I, O> {
    type Sample = Z;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, input: Frame<Z, I>) -> Frame<Z, O> {
        let n = self.n;
        self.n += 1;
        let mut out: Frame<Z, O> = Default::default();
        for o in 0..O::USIZE { out[o] = node_fn(self.tag, n, &input, o); }
        out
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
const WHAT: &str = "the output block holds the graph's outputs, computed from the external inputs channel by channel";

fn three(max_bs: usize, blocks: usize) {
    let bs = 1 + choice(max_bs as u32, "block size");
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U3, U3>(AudioProcessorOptions { block_size: bs, ..opts() });
    check(ap.block_size() == bs && ap.inputs() == 3 && ap.outputs() == 3, "the processor reports its block size and channels");
    let (pass, to) = (choice(3, "passed through"), choice(3, "to output"));
    let node_out = choice(3, "the node's first output goes to");
    g.edit(|g| {
        let n = g.push(Fun::<U3, U2>::new(1));
        g.from_inputs([0, 1, 2]).unwrap().to(n);
        g.from_inputs([pass as u16]).unwrap().to_graph_out_channels([to as u16]);
        n.to_graph_out_channels([node_out as u16, (node_out as u16 + 1) % 3]);
    });
    let raw = choice(2, "by pointers") == 1;
    let extra = choice(2, "longer inputs");
    for block in 0..blocks {
        let inp: Vec<Vec<Z>> = (0..3).map(|_| (0..bs + extra).map(|_| any_z("x")).collect()).collect();
        if raw {
            let ptrs: Vec<*const Z> = inp.iter().map(|x| x.as_ptr()).collect();
            unsafe { ap.run_raw_ptr_inputs(&ptrs) };
        } else {
            let refs: Vec<&[Z]> = inp.iter().map(|x| &x[..]).collect();
            ap.run(&refs);
        }
        let mut d = 0;
        for f in 0..bs {
            let xs = [inp[0][f], inp[1][f], inp[2][f]];
            let n = (block * bs + f) as u32;
            let mut want = [Z(0); 3];
            want[to] = want[to] + xs[pass];
            want[node_out] = want[node_out] + node_fn(1, n, &xs, 0);
            want[(node_out + 1) % 3] = want[(node_out + 1) % 3] + node_fn(1, n, &xs, 1);
            for c in 0..3 { d |= rd(ap.output_block(), c, f).0 ^ want[c].0; }
        }
        check(d == 0, WHAT);
        check(Block::channels(ap.output_block()) == 3 && Block::block_size(ap.output_block()) == bs, "the output block has the processor's channels and block size");
    }
}
// @h h_c33_channels : 3 inputs and 3 outputs, block sizes 1 to 3, 2 blocks of arbitrary samples, by run and by run_raw_ptr_inputs, inputs exactly one block or longer; a passed-through channel and a node with 3 inputs and 2 outputs, connected to any outputs
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_channels() { three(3, 2); }
// @h h_c33_channels_deep thorough : as above, block sizes 1 to 9, 4 blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_channels_deep() { three(9, 4); }
// @h h_c33_no_inputs : no inputs, 1 to 3 outputs of which some are not connected, 3 blocks, by run, run_without_inputs and run_raw_ptr_inputs; outputs that are not connected are silent even after something was written into the output block
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_no_inputs() {
    let bs = 1 + choice(3, "block size");
    let o = AudioProcessorOptions { block_size: bs, ..opts() };
    let outs = choice(3, "outputs");
    let (mut g, mut ap, _l) = match outs { 0 => AudioProcessor::<Z>::new::<U0, U1>(o), 1 => AudioProcessor::<Z>::new::<U0, U2>(o), _ => AudioProcessor::<Z>::new::<U0, U3>(o) };
    check(ap.inputs() == 0 && ap.outputs() as usize == outs + 1, "the processor reports its block size and channels");
    let c = choice(outs as u32 + 1, "connected output");
    let how = choice(3, "how");
    if choice(2, "run an empty graph first") == 1 { ap.run_without_inputs(); for k in 0..=outs { for f in 0..bs { check(rd(ap.output_block(), k, f) == Z(0), "an empty graph is silent"); } } }
    g.edit(|g| g.push(Fun::<U0, U1>::new(2)).to_graph_out_channels([c as u16]));
    for block in 0..3 {
        match how { 0 => ap.run(&[]), 1 => ap.run_without_inputs(), _ => unsafe { ap.run_raw_ptr_inputs(&[]) } }
        let mut d = 0;
        for k in 0..=outs { for f in 0..bs {
            let want = if k == c { node_fn(2, (block * bs + f) as u32, &[], 0) } else { Z(0) };
            d |= rd(ap.output_block(), k, f).0 ^ want.0;
            // the caller may use the block as it likes in between
            Block::write(ap.output_block(), any_z("junk"), k, f);
        } }
        check(d == 0, WHAT);
    }
}
// @h h_c33_short : 2 inputs of which one or both are shorter than a block, or a wrong number of inputs: refused, nothing outside the given slices is read
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_short() {
    let bs = 2 + choice(2, "block size");
    let (mut g, mut ap, _l) = AudioProcessor::<Z>::new::<U2, U2>(AudioProcessorOptions { block_size: bs, ..opts() });
    g.edit(|g| g.from_inputs([0, 1]).unwrap().to_graph_out());
    let (a, b) = (choice(bs as u32 + 1, "length 0"), choice(bs as u32 + 1, "length 1"));
    let x: Vec<Z> = (0..a).map(|_| any_z("x")).collect();
    let y: Vec<Z> = (0..b).map(|_| any_z("y")).collect();
    let count = choice(4, "inputs");
    let refs: Vec<&[Z]> = match count { 0 => vec![], 1 => vec![&x], 2 => vec![&x, &y], _ => vec![&x, &y, &x] };
    let fits = count == 2 && a >= bs && b >= bs;
    panic_ok(!fits);
    ap.run(&refs);
    panic_ok(false);
    check(fits, "inputs shorter than a block, or too few or too many, are refused");
    for f in 0..bs { check(rd(ap.output_block(), 0, f) == x[f] && rd(ap.output_block(), 1, f) == y[f], WHAT); }
}
// @h h_c33_f32 : the same wiring at f32 and f64: every bit pattern passes through unchanged
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_f32() {
    let (i, j) = (choice(2, "out 0") as u16, choice(2, "out 1") as u16);
    if choice(2, "f64") == 0 {
        let (mut g, mut ap, _l) = AudioProcessor::<f32>::new::<U2, U2>(opts());
        g.edit(|g| g.from_inputs([i, j]).unwrap().to_graph_out());
        for _ in 0..2 {
            let x = [[any_f32("a"), any_f32("b")], [any_f32("c"), any_f32("d")]];
            ap.run(&[&x[0], &x[1]]);
            for f in 0..B { check(same(rd(ap.output_block(), 0, f), x[i as usize][f]) && same(rd(ap.output_block(), 1, f), x[j as usize][f]), WHAT); }
        }
    } else {
        let (mut g, mut ap, _l) = AudioProcessor::<f64>::new::<U2, U2>(opts());
        g.edit(|g| g.from_inputs([i, j]).unwrap().to_graph_out());
        for _ in 0..2 {
            let x = [[any_f64("a"), any_f64("b")], [any_f64("c"), any_f64("d")]];
            ap.run(&[&x[0], &x[1]]);
            for f in 0..B { check(same64(rd(ap.output_block(), 0, f), x[i as usize][f]) && same64(rd(ap.output_block(), 1, f), x[j as usize][f]), WHAT); }
        }
    }
}
