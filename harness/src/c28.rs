//! C28: the audio side neither allocates nor frees memory.
//! The histories written for other properties are gone through with their own checks left out;
//! any heap allocation or release while the audio side runs is a violation.
use crate::gr::{AudioProcessor, AudioProcessorOptions, NodeId, NodeOrGraph, RT, Relaxed, audio};
use crate::ug::*;
use knaster_core::Seconds;
use knaster_core::log::ArLogMessage;
use knaster_graph::Time;
use knaster_graph::graph_edit::*;
use knaster_graph::handle::HandleTrait;
fn audio_side(history: extern "C" fn()) {
    RT.store(1, Relaxed);
    MUTE.store(true, Relaxed);
    history();
}
// @h h_c28_edits : the edits of h_c18_two: 3 nodes with summed inputs and outputs, then every pair of edits of 7 kinds on every channel
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_edits() { audio_side(crate::c18::h_c18_two) }
// @h h_c28_commits : the edits of h_c20_edits (3 nodes with a parameter signal and a feedback edge, 3 edits) with several commits pending at once, and of h_c20_full (channels of 1 or 2 entries)
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_commits() { if choice(2, "which") == 0 { audio_side(crate::c20::h_c20_edits) } else { audio_side(crate::c20::h_c20_full) } }
// @h h_c28_feedback : feedback edges made, removed or left behind by freed nodes as in h_c26_later
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_feedback() { audio_side(crate::c26::h_c26_later) }
// @h h_c28_links : signals connected to parameters and released as in h_c10_release
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_links() { audio_side(crate::c10::h_c10_release) }
// @h h_c28_nested : nested graphs on two levels edited and freed as in h_c27_deep
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_nested() { audio_side(crate::c27::h_c27_deep) }
// @h h_c28_nested_edits thorough : nested graphs edited and freed as in h_c27_edits
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_nested_edits() { audio_side(crate::c27::h_c27_edits) }
// @h h_c28_done : done actions in a nested graph and changed through their parameter as in h_c21_parent and h_c21_action
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_done() { if choice(2, "which") == 0 { audio_side(crate::c21::h_c21_parent) } else { audio_side(crate::c21::h_c21_action) } }
// @h h_c28_tokens : changes with tokens, on nodes with and without sample-accurate timing, as in h_c23_token
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_tokens() { audio_side(crate::c23::h_c23_token) }
// @h h_c28_changes : changes of freed, later and uncommitted nodes and through every way of sending one, as in h_c23_edits, h_c23_early, h_c23_apis and h_c22_kinds
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_changes() {
    match choice(4, "which") {
        0 => audio_side(crate::c23::h_c23_edits),
        1 => audio_side(crate::c23::h_c23_early),
        2 => audio_side(crate::c23::h_c23_apis),
        _ => audio_side(crate::c22::h_c22_kinds),
    }
}
// @h h_c28_full thorough : the ring of changes filled as in h_c23_full
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_full() { audio_side(crate::c23::h_c23_full) }
const BS: usize = 4;
struct InGraph { changes: usize }
impl Visit for InGraph {
    fn unit<T: UGen<Sample = f32> + 'static>(&mut self, mk: &mut dyn FnMut() -> T) {
        let log = 1 + 15 * choice(2, "log") as usize;
        let (mut g, mut ap, mut l) = AudioProcessor::<f32>::new::<U2, U2>(AudioProcessorOptions { block_size: BS, sample_rate: 48000, ring_buffer_size: 8, log_channel_capacity: log });
        let hints = T::param_hints();
        let u = mk();
        let id: NodeId = g.edit(|g| g.push(u).id());
        for c in 0..T::Inputs::USIZE.min(2) as u16 { let _ = g.connect2(NodeOrGraph::Graph, c, c, id); }
        for c in 0..T::Outputs::USIZE.min(2) as u16 { let _ = g.connect2(id, c, c, NodeOrGraph::Graph); }
        g.edit(|_| {});
        let x: [f32; BS] = [any_f32("in"), 0.5, 0.25, -1.0];
        let y: [f32; BS] = [1.0, 2.0, -0.5, 0.0];
        audio(|| ap.run(&[&x, &y]));
        for k in 0..self.changes {
            let p = choice(T::Parameters::USIZE as u32 + 1, "parameter");
            let (v, when) = if p > 0 && choice(4, "kind") == 3 { (ParameterValue::Smoothing(ParameterSmoothing::Linear(0.001), knaster_core::Rate::AudioRate), 0) } else if p > 0 { (value_for(&hints[p - 1], choice(2, "value")), choice(2, "when")) } else { (ParameterValue::Trigger, 0) };
            if p > 0 {
                let t = if when == 0 { Time::asap() } else { Time::at(Seconds::from_samples((k as u64 + 1) * BS as u64 + 2, 48000)) };
                let _ = g.set(id, p - 1, v, t);
            }
            audio(|| ap.run(&[&y, &x]));
        }
        // the node and what it owns are given back while the audio side goes on
        g.edit(|g| { let _ = g.free_node(id); });
        for _ in 0..2 { audio(|| ap.run(&[&x, &y])); }
        l.recv(|_: &[ArLogMessage]| {});
        g.edit(|_| {});
        audio(|| ap.run(&[&x, &y]));
    }
}
// @h h_c28_units time=400 : every unit there is a public way to make (45 with wrapped ones) in a graph, log rings of 1 and 16 entries; a change of any parameter to one of two values, now or later, or a smoothing setting; then it is freed and collected; 6 blocks of 4 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_units() { audio_side(units1) }
extern "C" fn units1() { unit(choice(UNITS, "unit"), &mut InGraph { changes: 1 }); }
// @h h_c28_units2 thorough : as above with two changes
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_units2() { audio_side(units2) }
extern "C" fn units2() { unit(choice(UNITS, "unit"), &mut InGraph { changes: 2 }); }
