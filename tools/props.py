#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
G="knaster_graph/src/"; D="knaster_core_dsp/src/"; C="knaster_core/src/"; P="knaster_primitives/src/"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Time and beat arithmetic is exact and never wraps",
 "Adding or subtracting two times (in seconds or in beats) and multiplying two times in seconds gives the exact result, truncated only to the type's tick resolution, with a fractional part below one whole unit. Checked and saturating subtraction report a negative difference as nothing or zero instead of wrapping. Comparison agrees with the numeric order of the values.",
 ["inputs"],"all pairs of well-formed times or beat values whose result is representable",
 "The two unit tests in the time module compare a handful of constants; carries and borrows between whole and fractional parts depend on the full 64-bit input.",
 [P+"time.rs"],[("carry/borrow between whole units and ticks",P+"time.rs: Add, Mul, checked_sub, saturating_sub"),("lexicographic order",P+"time.rs: Ord")])
p("C02","Sample positions survive conversion to time and back",
 "For every sample rate that divides the tick resolution, converting a sample count to a time and back is the identity, is order preserving and commutes with addition. Converting a time at any sample rate gives the number of whole samples that have elapsed at that time. Conversions to and from a flat tick count and to and from fractional seconds or beats lose less than one tick.",
 ["inputs"],"all sample counts up to 2^32 seconds and all common sample rates (and arbitrary rates for the floor conversion)",
 "Tests convert fewer than twenty constants; off-by-one errors appear only for particular remainders.",
 [P+"time.rs"],[("integer tick scaling",P+"time.rs: from_samples, to_samples, from_subsample_tesimals_u64, from_secs_f64")])
p("C03","Views of audio blocks address exactly their own samples",
 "Reading or writing channel c, frame i of a partial view that starts at frame s touches exactly channel c, frame s+i of the underlying block, by single sample access, by whole channel access and by iterating over the channels, also for views of views. No access through a view changes a sample outside its window, and its reported size is the window's.",
 ["inputs","configurations"],"every block shape, window and position within the stated sizes, every block representation, all sample values",
 "The tests only use full blocks or one fixed window.",
 [P+"block.rs",G+"block.rs"],[("offset arithmetic of partial blocks",P+"block.rs: PartialBlock, PartialBlockMut"),("raw channel pointers",G+"block.rs")])
p("C04","Parameters are addressed consistently",
 "Setting a parameter by its name has exactly the effect of setting it by the index at which that name is listed, and an unknown name or out-of-range index is reported as an error and changes nothing. This holds through type-erased and typed handles alike.",
 ["inputs"],"all parameter indices, all listed and unlisted names, all values, for every wrapper stack examined",
 "Tests set a few parameters by one form only and never compare the two.",
 [C+"ugen.rs",C+"parameters.rs",G+"handle.rs",G+"graph.rs",G+"dynugen.rs"],[("name lookup",C+"ugen.rs: UGen::param"),("handle lookup",G+"handle.rs: Handle::set, AnyHandle::set")])
p("C05","Block processing equals frame-by-frame processing",
 "For every generator and effect, producing a block in one call, in any sequence of consecutive partial blocks, or one frame at a time gives the same samples and leaves the same state behind.",
 ["inputs","configurations"],"all input samples, all splits of a block within the stated size, all shipped units with their own block routine",
 "Tests render whole blocks; the specialised block routines duplicate the per-frame code and nothing compares them.",
 [D+"ugens/",D+"wrappers_core/",C+"ugen.rs"],[("default block loop",C+"ugen.rs: UGen::process_block"),("specialised block routines",D+"ugens/*.rs, "+D+"wrappers_core/*.rs")])
p("C06","Arithmetic on signals is elementwise",
 "A math wrapper outputs, for each channel and frame, its operator applied to the wrapped unit's output and the wrapper's current value, and an arithmetic node outputs its operator applied to the matching left and right channels. No channel or frame is mixed with another one, skipped or processed twice.",
 ["inputs","configurations"],"all sample values and all operator values, each shipped operator and wrapper, channel counts up to the bound",
 "Tests check one operator with constant signals.",
 [D+"ugens/math.rs",D+"wrappers_core/math.rs"],[("per-channel loops",D+"ugens/math.rs: MathUGen"),("wrapper loops",D+"wrappers_core/math.rs")])
p("C07","Wrappers are transparent to what they wrap",
 "Wrapping a unit in any combination of the provided wrappers leaves its own parameters reachable at the same index with the same effect, and delays, smoothing settings and audio-rate inputs addressed to a parameter still reach the layer that implements them. Apart from the wrapper's own effect, inputs, outputs and completion flags pass through unchanged.",
 ["inputs","configurations"],"all parameter values and samples, all wrapper orders within the bound",
 "Each wrapper is tested alone with one inner unit; the forwarding of each trait method through each wrapper is not.",
 [D+"wrappers_core/",G+"wrappers_graph/done.rs"],[("forwarding implementations",D+"wrappers_core/*.rs"),("done wrapper",G+"wrappers_graph/done.rs")])
p("C08","A delayed parameter change lands on its exact frame",
 "With sample-accurate timing enabled, a parameter change given a delay of d frames leaves every frame before d computed with the old value and every frame from d on with the new one, whatever the block is split into. Changes to several parameters and several changes to one parameter take effect each at its own frame, in order, exactly once, and a change without a delay takes effect at once.",
 ["inputs","histories"],"all delays within the block and all values, up to the stated number of pending changes",
 "Tests use two fixed delays on one parameter.",
 [D+"wrappers_core/precise_timing.rs"],[("splitting the block at pending changes",D+"wrappers_core/precise_timing.rs: process_block")])
p("C09","Smoothed parameters travel to their target and stay there",
 "A linearly smoothed parameter moves from its current value to the new target without overshooting, arrives exactly at the target after the configured duration and stays there. Without smoothing the change is immediate, and no finite setting produces a value that is not a number.",
 ["inputs","histories"],"all start and target values in the stated range, all durations and block splits within the bound",
 "Tests watch one ramp with one duration.",
 [D+"wrappers_core/smooth_params.rs"],[("ramp state",D+"wrappers_core/smooth_params.rs")])
p("C10","A signal routed to a parameter drives it frame by frame",
 "While a signal is connected to a parameter, the value used for frame i is the signal's frame i of the same block, for each parameter separately. When that connection is removed or its source is freed, the parameter goes back to obeying plain value changes, and no freed memory is read.",
 ["inputs","histories"],"all signal values, all block splits, connect/disconnect/free sequences within the bound",
 "One test connects one signal once and never removes it.",
 [D+"wrappers_core/audio_rate.rs",G+"graph.rs",G+"task.rs"],[("audio-rate buffers",D+"wrappers_core/audio_rate.rs"),("parameter edges",G+"graph.rs: connect_node_to_parameter")])
p("C11","Log messages from the audio side arrive whole and in order",
 "Every message that fits in the log channel is received exactly once, with all of its parts in order and never merged with another one. When the channel is full a message is dropped as a whole; a partly written message never reaches the receiver.",
 ["histories"],"all interleavings of sends and receives, message lengths and channel capacities within the bound",
 "Tests send a few messages into a channel that never fills.",
 [C+"log.rs"],[("message chains",C+"log.rs: ArLogSender, ArLogReceiver")])
p("C12","Delay lines delay by exactly the requested time",
 "A delay of n frames outputs at frame t the input of frame t-n, and the initial contents before that, for every n the line can hold. A longer request is limited to the line's capacity; no request reads or writes outside the line.",
 ["inputs","histories"],"all input samples, all delay settings including out-of-range and changing ones, within the stated lengths",
 "Tests push one impulse through one delay length.",
 [D+"ugens/delay.rs"],[("ring index arithmetic",D+"ugens/delay.rs: SampleDelay, StaticSampleDelay, AllpassDelay")])
p("C13","Envelopes stay in range, finish, and finish once",
 "An envelope's output stays between zero and one, moves monotonically within each segment, and reaches the end of each segment after the configured time. It reports completion exactly when it has reached its end, and can be restarted or released at any moment.",
 ["inputs","histories"],"all trigger/release sequences and segment times within the bound",
 "Tests run each envelope once with fixed times and without interruptions.",
 [D+"ugens/envelopes.rs"],[("segment state machines",D+"ugens/envelopes.rs: EnvAsr, EnvAr")])
p("C14","Oscillators never leave their tables",
 "For every frequency, phase offset and restart, an oscillator's phase stays inside one period and every table lookup it makes is inside its table. Over n frames at a constant frequency the phase advances by n times the frequency divided by the sample rate, modulo one period.",
 ["inputs","histories"],"all finite frequencies and offsets, several consecutive frames",
 "Tests run one or two frequencies; the wrap-around cases depend on the value.",
 [D+"ugens/osc.rs",D+"dsp/wavetable.rs",D+"ugens/polyblep.rs"],[("phase wrap and table indexing",D+"dsp/wavetable.rs: WavetablePhase, NonAaWavetable"),("float phase",D+"ugens/osc.rs: Phasor")])
p("C15","Noise and limiter outputs are bounded",
 "The safety limiter's output is within its limit for every input including infinities and not-a-number, and leaves samples within the limit untouched. Random sources stay within their documented range, never get stuck, and give the same sequence for the same seed.",
 ["inputs","histories"],"all input samples, all generator states",
 "Tests sample a few values.",
 [D+"ugens/dynamics.rs",D+"ugens/noise.rs",D+"dsp/xorrng.rs"],[("clamping",D+"ugens/dynamics.rs"),("xorshift state",D+"dsp/xorrng.rs"),("noise generators",D+"ugens/noise.rs")])
p("C16","Sample playback never reads outside its buffer",
 "Playing a buffer at any rate, start position, duration and loop setting reads only samples inside it. At unit rate the output is the buffer's samples in order; without looping it is silent after the end and reports completion at the frame playback ends, with looping it wraps to the start.",
 ["inputs","histories"],"all rates, positions and durations, buffers and block sizes within the bound",
 "Tests play one short buffer at rate one.",
 [D+"dsp/buffer.rs",D+"ugens/buffer.rs"],[("read pointer handling",D+"ugens/buffer.rs: BufferReader"),("interpolated reads",D+"dsp/buffer.rs")])
p("C17","A graph computes the dataflow its edges describe",
 "In every block, every node runs exactly once, after all nodes whose output it reads, on input channels holding the current output of the connected source channel, or silence where nothing is connected. Each graph output carries the signal connected to it or silence, and no node's output is overwritten before all of its readers, including the graph outputs, have read it. Two signals connected to the same input are summed.",
 ["programs","inputs"],"all graphs of up to the stated number of nodes, edges and channels, all input samples",
 "Tests build about ten small fixed graphs; node order and buffer reuse depend on the whole topology.",
 [G+"graph.rs",G+"graph_gen.rs",G+"buffer_allocator.rs",G+"task.rs"],[("topological order",G+"graph.rs: calculate_node_order, depth_first_search"),("block reuse",G+"buffer_allocator.rs"),("task generation",G+"graph.rs: generate_tasks")])
p("C18","Edits change exactly the edges they name",
 "Connecting adds one edge (summing with an existing one), replacing substitutes it, and disconnecting an input or an output removes exactly the edges of that channel of that node or graph port; all other edges keep carrying their signals. The effect is in place from the next processed block after the edit is committed.",
 ["programs","histories"],"all sequences of up to the stated number of edits over the stated graphs",
 "Tests perform one disconnect on one graph.",
 [G+"graph.rs",G+"graph_edit.rs"],[("edge tables",G+"graph.rs: connect_nodes_internal, connect_node_to_output, disconnect_*")])
p("C19","Freeing nodes is memory safe and exactly once",
 "Whatever the order of pushing, connecting, freeing nodes, committing changes, running the audio side, collecting freed nodes and dropping the graph or the audio processor, no freed node or buffer is ever accessed and each node is dropped exactly once. A freed node stops contributing to the output and its edges disappear; every other node keeps its identity.",
 ["histories","schedules"],"all sequences of the listed operations up to the stated length",
 "Tests free a node once; memory errors need a specific order of frees, commits and audio blocks.",
 [G+"graph.rs",G+"graph_gen.rs",G+"task.rs",G+"node.rs"],[("deferred node removal",G+"graph.rs: free_node_from_key, remove_old_nodes, update"),("shared ownership of nodes and buffers",G+"graph_gen.rs")])
p("C20","Edits do not disturb nodes that survive them",
 "Across any committed edit, a node that was in the graph before and after keeps its internal state: its output sequence is the one it would have produced without the edit, apart from changed inputs. A node added by an edit starts from its initial state, initialised once with the graph's sample rate and block size before it first runs.",
 ["histories"],"all edit sequences within the bound, all input samples",
 "Tests rarely run audio before and after an edit and compare.",
 [G+"graph.rs",G+"graph_gen.rs"],[("task hand-over",G+"graph_gen.rs: process_block"),("task generation keeps node pointers",G+"graph.rs: generate_tasks")])
p("C21","Done actions free exactly what they say, when they say it",
 "When a node pushed with a done action reports completion, the node (or its enclosing graph) is removed according to the action; a node whose action is none stays. When the enclosing graph is removed from a given frame, its outputs are silent from exactly that frame on and stay silent.",
 ["inputs","histories"],"all completion frames in the block, all done actions, within the stated number of blocks",
 "Tests cover one action at one frame.",
 [G+"wrappers_graph/done.rs",G+"graph.rs",G+"graph_gen.rs",C+"ugen.rs"],[("done flags",C+"ugen.rs: UGenFlags"),("done wrapper",G+"wrappers_graph/done.rs"),("silencing",G+"graph_gen.rs")])
p("C22","Scheduled changes take effect at their exact sample",
 "A parameter change scheduled for an absolute time takes effect at the first frame not earlier than that time, on the frame itself for units with sample-accurate timing and in the block containing it otherwise; one scheduled relative to now counts from the start of the block that receives it. It never takes effect early, and a change whose time has passed takes effect in the next block.",
 ["inputs","histories","schedules"],"all scheduled times within the bound, all arrival blocks",
 "Tests schedule one or two changes at fixed times.",
 [G+"scheduling.rs",G+"graph_gen.rs",G+"graph.rs"],[("due-time computation",G+"scheduling.rs: Time::to_samples_until_due"),("waiting queue",G+"graph_gen.rs: apply_parameter_change")])
p("C23","No accepted parameter change is lost, repeated or reordered",
 "Every parameter change that was accepted while its node exists is applied exactly once, within the documented waiting time; changes to the same parameter with the same due time are applied in the order they were sent. A change for a node that is gone has no effect on any other node.",
 ["histories"],"all sequences of sends, blocks and frees within the bound",
 "Tests send one change at a time.",
 [G+"graph_gen.rs",G+"graph.rs",G+"handle.rs"],[("event ring and waiting queue",G+"graph_gen.rs"),("key comparison",G+"graph_gen.rs: apply_parameter_change")])
p("C24","The frame clock counts processed frames",
 "The time reported by the audio processor's clock equals the number of frames in all completed blocks divided by the sample rate; it never goes backwards and is the same for nested graphs and for the units being processed (offset by their position in the block).",
 ["inputs","histories"],"all block sizes and sample rates in the stated set, all block counts up to the bound and arbitrary clock positions",
 "Tests run a few blocks.",
 [G+"processor.rs",G+"scheduling.rs",C+"ugen.rs"],[("clock update",G+"processor.rs: run"),("partial block offset",C+"ugen.rs: BlockMetadata::make_partial")])
p("C25","Invalid edits are rejected without side effects",
 "An attempt to connect, set or free something that does not exist (a channel or parameter out of range, a freed node, a node of another graph) or to create a cycle without feedback returns an error, does not panic and leaves the graph exactly as it was.",
 ["inputs","programs"],"all channel and parameter numbers, all node pairs of the stated graphs",
 "Tests check one or two error cases.",
 [G+"graph.rs",G+"graph_edit.rs"],[("argument validation",G+"graph.rs: connect_nodes_internal, connect_node_to_output, connect_input_to_node, set, free_node")])
p("C26","A feedback connection delivers the previous block",
 "A signal connected through a feedback edge arrives at its destination exactly one block later, sample for sample, starting with silence, whatever else is connected and whichever way the cycle runs.",
 ["programs","inputs"],"all graphs with one or two feedback edges within the bound, all input samples",
 "No test renders audio through a feedback edge.",
 [G+"graph.rs"],[("feedback node pairs",G+"graph.rs: FeedbackSink, FeedbackSource")])
p("C27","A nested graph behaves like its contents",
 "Putting nodes in a subgraph produces the same output as putting them directly in the parent with the same connections; inputs are forwarded channel by channel, and edits to either graph take effect independently.",
 ["programs","inputs"],"all the stated small inner graphs, all input samples and edit orders within the bound",
 "One test nests one constant.",
 [G+"graph.rs",G+"graph_gen.rs",G+"graph_edit.rs"],[("graph as node",G+"graph_gen.rs")])
p("C28","The audio side neither allocates nor frees memory",
 "Once a graph has been handed to the audio side, processing blocks, applying parameter changes and switching to an edited graph never allocates or releases heap memory, as long as the documented ring buffers are not full.",
 ["histories","programs"],"all the operation sequences of the stated graphs and units",
 "Tests cannot observe allocations; they would have to intercept the allocator on every path.",
 [G+"graph_gen.rs",G+"processor.rs",G+"task.rs",D],[("hand-back of old task data",G+"graph_gen.rs: process_block")])
p("C29","Arithmetic on handles builds the expression that is written",
 "Combining node handles with + - * / or power, with each other or with a constant on either side, creates nodes whose output is exactly that expression, channel by channel with the operands in the written order.",
 ["inputs","programs"],"all operand values, all operators and operand kinds, channel counts up to the bound",
 "Tests multiply by a constant on the right once.",
 [G+"graph_edit.rs"],[("operator overloads",G+"graph_edit.rs: math_gen_fn_*")])
p("C30","Channel selection and stacking keep channels in order",
 "Selecting output channels, stacking handles and connecting them to nodes or chosen graph outputs pairs the i-th listed source channel with the i-th listed destination, and nothing else is connected.",
 ["programs","inputs"],"all channel selections of the stated channel counts",
 "Tests use the identity order.",
 [G+"graph_edit.rs",G+"connectable2.rs"],[("channel iterators",G+"graph_edit.rs: Static, Dynamic")])
p("C31","Graph inspection reports the graph as it is",
 "The inspection data lists exactly the nodes, edges with their channels, and graph outputs that are currently in the graph, and the handles it produces address those nodes.",
 ["programs","histories"],"all the stated graphs and edit sequences",
 "One test compares one edge.",
 [G+"inspection.rs",G+"graph.rs"],[("inspection",G+"graph.rs: inspection")])
p("C32","Choice parameters and value conversions round-trip",
 "Converting a parameter enumeration to its integer value and back yields the same choice, every integer maps to a valid choice, and the names listed for a choice parameter are one per value in order. A value sent as a float, integer, bool or trigger arrives as the value that was sent.",
 ["inputs"],"all integers and floats",
 "Tests check two values of one enumeration.",
 [C+"parameters.rs",C+"parameters/types.rs",P+"parameters.rs","knaster_macros/src/lib.rs"],[("value conversions",C+"parameters/types.rs"),("integer choice hint",C+"parameters.rs: PIntegerHint")])
p("C33","The audio processor delivers what the graph computed",
 "Running the processor hands each external input channel to the graph input of the same number and leaves the graph's outputs in the output block, for every block, without reading past the given inputs or mixing channels.",
 ["inputs","configurations"],"all samples, all channel counts and block sizes within the bound",
 "Tests use one input and one output.",
 [G+"processor.rs",G+"block.rs"],[("input and output wiring",G+"processor.rs: run")])
p("C34","Weighted filters stay finite and settle",
 "For finite input and parameters within their documented range, the one-pole, DC-blocking and state-variable filters produce finite output, and a filter whose input and state are zero stays at zero.",
 ["inputs","histories"],"all inputs and states in the stated range, a few frames",
 "Tests check a few coefficients.",
 [D+"ugens/onepole.rs",D+"ugens/svf.rs"],[("recurrences",D+"ugens/onepole.rs, "+D+"ugens/svf.rs")])
p("C35","Closures and utility units do what they are given",
 "A closure unit is called once per frame with that frame's inputs and context, its parameters reach its own state, constants and panning keep their documented law (left and right gains within zero and one, centre equal), and triggered utility units act on exactly the frame they were triggered on.",
 ["inputs"],"all inputs and parameter values",
 "Tests check one closure and one pan position.",
 [D+"ugens/closure.rs",D+"ugens/util.rs",D+"ugens/pan.rs",D+"wrappers_core/closure.rs"],[("closure call",D+"ugens/closure.rs"),("pan law",D+"ugens/pan.rs")])
p("C36","Two-thread hand-over under weak memory",
 "With the control side and the audio side on different threads, every edit becomes visible to the audio side completely or not at all.",
 ["schedules"],"all interleavings under the hardware memory model",
 "Tests run on one thread.",
 [G+"graph.rs",G+"graph_gen.rs",G+"task.rs"],[("lock-free rings",G+"graph.rs, "+G+"graph_gen.rs"),("applied flag",G+"task.rs")])
p("C37","Audio backends deliver blocks unchanged",
 "The audio device backends pass each processed block to the device channels in order for any device buffer size.",
 ["configurations","schedules"],"all device buffer sizes and channel counts",
 "Needs audio hardware.",
 [G+"audio_backend/cpal.rs",G+"audio_backend/jack.rs"],[("device callbacks",G+"audio_backend/cpal.rs, "+G+"audio_backend/jack.rs")])
p("C38","Signal quality of generators and reverbs",
 "Band-limited generators, filters and the reverbs have the documented frequency response, aliasing and decay.",
 ["inputs"],"all frequencies and settings",
 "Numerical quality over long signals.",
 [D+"ugens/polyblep.rs",D+"ugens/svf.rs","knaster_airwindows/src/"],[("band limiting",D+"ugens/polyblep.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(props),"properties")
