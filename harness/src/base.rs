//! Self-test of the executor.
use crate::util::*;
use knaster_graph::processor::*;

#[unsafe(no_mangle)]
pub extern "C" fn h_base_pass() {
    let (mut graph, mut ap, _log) = AudioProcessor::<f32>::new::<U1, U1>(AudioProcessorOptions{ block_size:2, sample_rate:48000, ring_buffer_size: 2, log_channel_capacity: 2});
    let x: f32 = any_f32("x");
    graph.edit(|g| { g.from_inputs([0]).unwrap().to_graph_out(); });
    let inp=[x,x];
    #[allow(unused_unsafe)]
    unsafe{ ap.run(&[&inp]) };
    let o = rd(ap.output_block(),0,1);
    check(o.to_bits()==x.to_bits(), "passthrough");
}
