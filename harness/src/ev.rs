//! Parameter changes over time: a node that records every change it is given in its output, and
//! the reference for when and in which order the changes are due.
pub use crate::gr::*;
pub use knaster_graph::handle::ParameterChange;
pub use knaster_graph::{SchedulingToken, Time};
pub use knaster_core_dsp::wrappers_core::*;
/// Frames per block here.
pub const EB: usize = 4;
pub const SR: u32 = 48000;
/// Ticks of a second per sample at `SR`.
pub const TPS: u32 = 282_240_000 / SR;
pub fn eopts() -> AudioProcessorOptions { AudioProcessorOptions { block_size: EB, sample_rate: SR, ring_buffer_size: 8, log_channel_capacity: 16 } }
/// Two parameters; each change is folded into the parameter's word, so that the output tells which changes were applied, how often and in which order.
pub struct PU { p: [u32; 2] }
pub fn fold(old: u32, change: u32) -> u32 { mix(old, change) }
pub fn start(p: usize) -> u32 { 0x100 + p as u32 }
impl PU { pub fn new() -> Self { PU { p: [start(0), start(1)] } } }
/// What a change stands for in the fold.
pub fn code(v: ParameterValue) -> u32 {
    match v {
        ParameterValue::Float(f) => f.to_bits() as u32,
        ParameterValue::Trigger => 0x7001,
        ParameterValue::Integer(i) => 0x7100_0000 ^ usize::from(i) as u32,
        ParameterValue::Bool(b) => 0x7200 + b as u32,
        ParameterValue::Smoothing(knaster_core::ParameterSmoothing::None, _) => 0x7300,
        ParameterValue::Smoothing(knaster_core::ParameterSmoothing::Linear(s), _) => 0x7400_0000 ^ s.to_bits(),
    }
}
impl UGen for PU {
    type Sample = Z;
    type Inputs = U0;
    type Outputs = U2;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Z, U0>) -> Frame<Z, U2> { [Z(self.p[0]), Z(self.p[1])].into() }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::new_float(|h| h), ParameterHint::new_float(|h| h)].into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["p0", "p1"].into() }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) { self.p[i] = fold(self.p[i], code(v)); }
}
/// A change that was sent: to which node, when it was received, when it is due (in frames).
#[derive(Clone)]
pub struct Ev { pub node: usize, pub par: usize, pub code: u32, pub due: u64, pub live: bool }
/// The reference: nodes with the current words of their parameters, changes that are still to come.
#[derive(Default)]
pub struct EM { pub words: Vec<([u32; 2], bool)>, pub evs: Vec<Ev> }
impl EM {
    pub fn new() -> Self { Default::default() }
    /// A node; `precise`: it has sample-accurate timing.
    pub fn node(&mut self, precise: bool) -> usize { self.words.push(([start(0), start(1)], precise)); self.words.len() - 1 }
    pub fn ev(&mut self, node: usize, par: usize, code: u32, due: u64) { self.evs.push(Ev { node, par, code, due, live: true }); }
    /// The output frames of the block that starts at frame `t`.
    pub fn block(&mut self, t: u64) -> Vec<[[u32; 2]; EB]> {
        let mut out = vec![[[0; 2]; EB]; self.words.len()];
        for f in 0..EB {
            for n in 0..self.words.len() {
                for e in self.evs.iter_mut().filter(|e| e.node == n && e.live) {
                    // without sample-accurate timing everything due in the block happens at its start
                    let upto = if self.words[n].1 { t + f as u64 } else { t + EB as u64 - 1 };
                    if e.due <= upto { e.live = false; let w = &mut self.words[n].0[e.par]; *w = fold(*w, e.code); }
                }
                out[n][f] = self.words[n].0;
            }
        }
        out
    }
    /// One block of both; node `i` is connected to the outputs `2 i` and `2 i + 1`.
    pub fn run(&mut self, ap: &mut AudioProcessor<Z>, t: &mut u64, what: &str) {
        audio(|| ap.run_without_inputs());
        let want = self.block(*t);
        let mut d = 0;
        for (n, w) in want.iter().enumerate() { for f in 0..EB { for p in 0..2 { d |= rd(ap.output_block(), 2 * n + p, f).0 ^ w[f][p]; } } }
        check(d == 0, what);
        *t += EB as u64;
    }
}
/// A time that falls in frame `secs * SR + k`, anywhere in it.
pub fn time_in(secs: u32, k: u32, name: &str) -> Seconds { Seconds::new(secs, k * TPS + any_in(0, TPS as u64 - 1, name) as u32) }
/// A frame clock value and the time it stands for: (second, sample in the second).
pub fn clock() -> (u32, u32) { [(0, 0), (0, 47996), (70_000, 23_999), (0, 8)][choice(4, "clock")] }
