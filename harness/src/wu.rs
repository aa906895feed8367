//! A unit that records everything that reaches it in its output, for what is wrapped around it.
pub use crate::util::*;
pub use crate::z::*;
pub use knaster_core::numeric_array::NumericArray;
pub use knaster_core::log::ArLogSender;
pub use knaster_core_dsp::wrappers_core::*;
pub fn fold(old: u32, change: u32) -> u32 { mix(old, change) }
pub const N: usize = 3;
/// 3 parameters; counts its frames; marks itself done at frame `done_at` of its life.
pub struct WU<I: Size, O: Size> { pub p: [u32; N], pub n: u32, pub other: u32, pub done_at: u32, pub blocks: bool, _p: core::marker::PhantomData<(NumericArray<u8, I>, NumericArray<u8, O>)> }
unsafe impl<I: Size, O: Size> Send for WU<I, O> {}
impl<I: Size, O: Size> Clone for WU<I, O> { fn clone(&self) -> Self { WU { p: self.p, n: self.n, other: self.other, done_at: self.done_at, blocks: self.blocks, _p: Default::default() } } }
pub fn wstart(i: usize) -> u32 { 0x100 + i as u32 }
/// What a change stands for in the fold.
pub fn wcode(v: ParameterValue) -> u32 {
    match v {
        ParameterValue::Float(f) => f.to_bits() as u32,
        ParameterValue::Trigger => 0x7001,
        ParameterValue::Integer(i) => 0x7100_0000 ^ usize::from(i) as u32,
        ParameterValue::Bool(b) => 0x7200 + b as u32,
        ParameterValue::Smoothing(ParameterSmoothing::None, r) => 0x7300 + matches!(r, Rate::AudioRate) as u32,
        ParameterValue::Smoothing(ParameterSmoothing::Linear(s), r) => 0x7400_0000 ^ s.to_bits() ^ matches!(r, Rate::AudioRate) as u32,
    }
}
/// Output `o` on frame `n` of a unit with parameter words `p`.
pub fn wout(n: u32, p: &[u32; N], other: u32, ins: &[Z], o: usize) -> Z {
    let mut a = 0x3000_0000u32.wrapping_add(n.wrapping_mul(0x10_0001)).wrapping_add(o as u32 * 0x7001);
    for x in p { a = mix(a, *x); }
    a = mix(a, other);
    for x in ins { a = mix(a, x.0); }
    Z(a)
}
impl<I: Size, O: Size> WU<I, O> {
    pub fn new() -> Self { WU { p: [wstart(0), wstart(1), wstart(2)], n: 0, other: 0, done_at: u32::MAX, blocks: false, _p: Default::default() } }
    fn frame(&mut self, flags: &mut UGenFlags, at: usize, input: &Frame<Z, I>) -> Frame<Z, O> {
        let mut out: Frame<Z, O> = Default::default();
        for o in 0..O::USIZE { out[o] = wout(self.n, &self.p, self.other, input, o); }
        if self.n == self.done_at { flags.mark_done(at as u32); }
        self.n = self.n.wrapping_add(1);
        out
    }
}
impl<I: Size, O: Size> UGen for WU<I, O> {
    type Sample = Z;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U3;
    fn init(&mut self, sr: u32, bs: usize) { self.other = fold(fold(fold(self.other, 1), sr), bs as u32); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Z, I>) -> Frame<Z, O> { self.frame(flags, ctx.block_start_offset(), &input) }
    fn process_block<A: BlockRead<Sample = Z> + ?Sized, B: Block<Sample = Z> + ?Sized>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &A, output: &mut B) {
        let n = ctx.frames_to_process();
        check(input.block_size() == n || I::USIZE == 0, "the frames to process are those of the input");
        check(Block::block_size(output) == n || O::USIZE == 0, "the frames to process are those of the output");
        check(input.channels() == I::USIZE, "a unit is given its number of inputs");
        check(Block::channels(output) == O::USIZE, "a unit is given its number of outputs");
        for f in 0..n {
            let mut i: Frame<Z, I> = Default::default();
            for c in 0..I::USIZE { i[c] = input.read(c, f); }
            let o = self.frame(flags, ctx.block_start_offset() + f, &i);
            for c in 0..O::USIZE { output.write(o[c], c, f); }
        }
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> { [ParameterHint::new_float(|h| h), ParameterHint::new_float(|h| h.minmax(0.0, 7.0)), ParameterHint::new_float(|h| h.minmax(1.0, 3.0))].into() }
    fn param_descriptions() -> NumericArray<&'static str, U3> { ["p0", "p1", "p2"].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        check(i < N, "only the unit's own parameters are set on it");
        self.p[i] = fold(self.p[i], wcode(v));
    }
    unsafe fn set_ar_param_buffer(&mut self, _: &mut AudioCtx, i: usize, b: *const Z) { check(i < N, "only the unit's own parameters are set on it"); self.other = fold(fold(self.other, 0x100 + i as u32), b as usize as u32); }
    fn set_delay_within_block_for_param(&mut self, _: &mut AudioCtx, i: usize, d: u16) { check(i < N, "only the unit's own parameters are set on it"); self.other = fold(fold(self.other, 0x200 + i as u32), d as u32); }
}
pub fn actx(bs: usize) -> AudioCtx { AudioCtx::new(48000, bs, ArLogSender::non_rt()) }
pub fn zblock(ch: usize, bs: usize, name: &[&str]) -> VecBlock<Z> {
    let mut b = VecBlock::new(ch, bs);
    for c in 0..ch { for f in 0..bs { b.write(any_z(name[c * bs + f]), c, f); } }
    b
}
pub const INAMES: [&str; 32] = ["i00", "i01", "i02", "i03", "i04", "i05", "i06", "i07", "i08", "i09", "i10", "i11", "i12", "i13", "i14", "i15", "i16", "i17", "i18", "i19", "i20", "i21", "i22", "i23", "i24", "i25", "i26", "i27", "i28", "i29", "i30", "i31"];
/// Runs frames `s..s + len` of the block as a partial block.
pub fn run_part<T: UGen>(u: &mut T, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &VecBlock<T::Sample>, output: &mut VecBlock<T::Sample>, s: usize, len: usize) {
    let org = ctx.block;
    ctx.block = org.make_partial(s, len);
    u.process_block(ctx, flags, &input.partial(s, len), &mut output.partial_mut(s, len));
    ctx.block = org;
}
/// Frame by frame.
pub fn run_frames<T: UGen>(u: &mut T, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &VecBlock<T::Sample>, output: &mut VecBlock<T::Sample>, s: usize, len: usize) {
    for f in s..s + len {
        let mut i: Frame<T::Sample, T::Inputs> = Default::default();
        for c in 0..T::Inputs::USIZE { i[c] = Block::read(input, c, f); }
        let o = u.process(ctx, flags, i);
        for c in 0..T::Outputs::USIZE { output.write(o[c], c, f); }
    }
}
