From c84d060799e1adab95c1d2205dd3429a5c946bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 01/41] fix: multiply Seconds exactly, including the cross
 terms of seconds and tesimals

---
 knaster_primitives/src/time.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..e12b00f 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -179,12 +179,17 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
+        let per_second = SUBSECOND_TESIMALS_PER_SECOND as u64;
+        let (self_tesimals, rhs_tesimals) = (
+            self.subsecond_tesimals as u64,
+            rhs.subsecond_tesimals as u64,
+        );
+        // Every term of the product except seconds * seconds, in tesimals
+        let tesimals = self.seconds as u64 * rhs_tesimals
+            + self_tesimals * rhs.seconds as u64
+            + self_tesimals * rhs_tesimals / per_second;
+        let seconds = self.seconds * rhs.seconds + (tesimals / per_second) as u32;
+        let subsample_tesimals = tesimals % per_second;
         Seconds::new(seconds, subsample_tesimals as u32)
     }
 }
-- 
2.43.0


From 5509e1819a1864013a87a8e762708156bf0f4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 02/41] fix: order every node after all nodes it reads from

---
 knaster_graph/src/graph.rs | 83 ++++++++++----------------------------
 1 file changed, 22 insertions(+), 61 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..c1b61e0 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1978,44 +1978,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2026,36 +1988,35 @@ impl<F: Float> Graph<F> {
         let mut nodes_to_process = Vec::with_capacity(self.get_nodes_mut().capacity());
         for edge in self.output_edges.iter().filter_map(|e| *e) {
             if let NodeKeyOrGraph::Node(source) = edge.source {
-                // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // The same source node may be present in multiple output edges, e.g. for stereo,
+                // or already have been reached from another output, so we need to check if visited.
+                // One output at a time is searched to the end, so that every node comes after all
+                // of its inputs.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
-        let mut remaining_nodes = vec![];
-        for (node_key, _node) in self.get_nodes() {
-            if !visited.contains(&node_key)
-                && !self
-                    .node_keys_to_free_when_safe
-                    .iter()
-                    .any(|(key, _)| key == &node_key)
+        // Add all remaining nodes. These are not currently connected to any output, but they may be
+        // connected to each other and to the nodes above.
+        let num_connected = self.node_order.len();
+        let node_keys: Vec<NodeKey> = self.get_nodes().keys().collect();
+        for node_key in node_keys {
+            if !self
+                .node_keys_to_free_when_safe
+                .iter()
+                .any(|(key, _)| *key == node_key)
+                && visited.insert(node_key)
             {
-                remaining_nodes.push(node_key);
+                nodes_to_process.push(node_key);
+                let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                self.node_order.extend(stack);
             }
         }
-        self.node_order.extend(remaining_nodes.iter());
-        self.disconnected_nodes = remaining_nodes;
+        self.disconnected_nodes = self.node_order[num_connected..].to_vec();
         // debug
         // let nodes = self.get_nodes();
         // for (i, n) in self.node_order.iter().enumerate() {
-- 
2.43.0


From 56ef60bb4f05027fd7aef7e92400087165be8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 03/41] fix: keep the buffers of nodes connected to graph
 outputs until the end of the block

---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index c1b61e0..22a1c8c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1606,6 +1606,13 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // The graph outputs are read after all nodes have run, so these borrows are never returned
+        // and the buffer isn't reused within the block.
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
         // Add parameter edges as dependents
         for (_key, edges) in &self.node_parameter_edges {
             for edge in edges {
-- 
2.43.0


From db68c12708761cefbc063a015b634839738adb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 04/41] fix: don't allocate zero length blocks for nodes
 without outputs

---
 knaster_graph/src/graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 22a1c8c..4957657 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1628,9 +1628,14 @@ impl<F: Float> Graph<F> {
         for (node_order_index, &key) in node_order.iter().enumerate() {
             let outputs = self.get_nodes()[key].data.outputs as usize;
             let num_borrows = self.get_nodes()[key].num_output_dependents;
-            let offset = self
-                .buffer_allocator
-                .get_block(outputs, self.block_size, num_borrows);
+            // A node without outputs has nothing to write, so it doesn't get a block of its own.
+            // A zero length block would share its offset with another node's block.
+            let offset = if outputs == 0 {
+                0
+            } else {
+                self.buffer_allocator
+                    .get_block(outputs, self.block_size, num_borrows)
+            };
             self.get_nodes_mut()[key].assign_output_offset(offset);
             let mut input_pointers_to_node = None;
             // Return every block that is used as an input
-- 
2.43.0


From c0fe02680ffb0f9bcf0bf424a6f4b6d8a2c5e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 05/41] fix: don't panic on unconnected graph outputs when
 removing an automatic addition node

---
 knaster_graph/src/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 4957657..83245f1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1116,8 +1116,7 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
-- 
2.43.0


From 90a8e50aab2c66257515ea8cf84e0401b5d6e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 06/41] fix: disconnecting a graph input leaves the graph
 output of the same number alone

---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 83245f1..e5ba7c1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1022,11 +1022,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From 0d5203c9e0c04b4f73ed71fa39324f1c05b7d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 07/41] fix: disconnecting a graph output takes effect on
 commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index e5ba7c1..71781c1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1085,6 +1085,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From 9d2c8a668280a47e173c6790d55db9cb17452987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 08/41] fix: deliver feedback exactly one block later whatever
 the node order, using a FeedbackSource to read

---
 knaster_graph/src/graph.rs | 44 ++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 71781c1..816d26d 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -780,7 +779,8 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[fb_sink][0] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: true,
+                // The sink has to run after the node that it reads from
+                is_feedback: false,
             });
             source = NodeKeyOrGraph::Node(fb_source);
         }
@@ -816,7 +816,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: feedback,
+                is_feedback: false,
             });
         }
     }
@@ -884,18 +884,11 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSink {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: 0,
         };
+        let source = FeedbackSource { buffers, bufnum: 0 };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -2328,12 +2321,9 @@ impl From<u16> for Channels<U1> {
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to write in the next block. The source and the sink are always run once each per
+    /// block, so they keep count separately and don't depend on which of them runs first.
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2360,9 +2350,13 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
         let input = input.channel_as_slice(0);
-        unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
+        unsafe {
+            self.buffers[self.bufnum]
+                .as_slice_mut()
+                .copy_from_slice(input)
+        }
+        self.bufnum = 1 - self.bufnum;
     }
 
     fn param_hints()
@@ -2385,9 +2379,8 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer that the sink writes in the next block, i.e. the one not to read.
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2414,9 +2407,8 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
+        let prev_buffer = 1 - self.bufnum;
+        self.bufnum = prev_buffer;
         let output = output.channel_as_slice_mut(0);
         unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
     }
-- 
2.43.0


From 26e9a6ff2143d5aaed1b1c4106e61d582288e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 09/41] fix: compare graph ids so that nodes of other graphs
 are rejected

---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 816d26d..5cbfbd6 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -503,13 +503,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -571,7 +571,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -634,14 +634,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -731,7 +731,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1341,7 +1341,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 40b61bdecd9b14aa1447d60c6255e11fffcdab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 10/41] fix: reject parameter indices above u16::MAX instead of
 truncating them

---
 knaster_graph/src/graph.rs      | 2 +-
 knaster_graph/src/graph_edit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5cbfbd6..9c56a4b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         };
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..05b145d 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -860,7 +860,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
-- 
2.43.0


From ed012ed05dffe211ae6231478800a92987aa6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 11/41] fix: check the sink, the parameter index and for cycles
 when connecting to a parameter

---
 knaster_graph/src/graph.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 9c56a4b..55ef5ce 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -648,10 +648,17 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
-        let sink_node = &nodes[sink.key()];
+        let Some(sink_node) = nodes.get(sink.key()) else {
+            return Err(GraphError::NodeNotFound);
+        };
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -674,7 +681,11 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
@@ -1464,6 +1475,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From bbb2f745f9b73b3b6f2058c20603f6823779818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 12/41] fix: treat nodes that were freed, but not yet removed,
 as not found

---
 knaster_graph/src/graph.rs | 61 ++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 55ef5ce..29fdf6c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -339,10 +339,15 @@ impl<F: Float> Graph<F> {
         self.graph_gen_communicator.shared_frame_clock.clone()
     }
 
+    /// Returns true if the node is in the graph and hasn't been freed. A node that was freed, but
+    /// is still in use on the audio thread, keeps its slot until it can be removed safely.
+    fn contains_node(&self, key: NodeKey) -> bool {
+        self.node_input_edges.contains_key(key)
+    }
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
     pub fn node_data(&self, id: impl Into<NodeId>) -> Option<NodeData> {
         let node_id = id.into();
-        if node_id.graph != self.graph_id {
+        if node_id.graph != self.graph_id || !self.contains_node(node_id.key()) {
             return None;
         }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
@@ -352,7 +357,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.contains_node(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -439,7 +444,7 @@ impl<F: Float> Graph<F> {
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.contains_node(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
@@ -517,13 +522,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.contains_node(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -581,7 +586,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -648,9 +653,10 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
-        let Some(sink_node) = nodes.get(sink.key()) else {
+        if !self.contains_node(sink.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
             Param::Index(param_index) => {
@@ -675,7 +681,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -752,7 +758,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.contains_node(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1013,7 +1019,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.contains_node(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1064,8 +1070,7 @@ impl<F: Float> Graph<F> {
                         found_graph: self.graph_id,
                     });
                 }
-                let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.contains_node(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -1358,10 +1363,10 @@ impl<F: Float> Graph<F> {
                 found_graph: node_id.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        if !self.contains_node(node_id.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
                 if param_i >= node.data.parameters as usize {
@@ -1745,19 +1750,12 @@ impl<F: Float> Graph<F> {
 
     pub(crate) fn free_node_from_key(&mut self, node_key: NodeKey) -> Result<(), FreeError> {
         // Does the Node exist?
-        if !self.get_nodes_mut().contains_key(node_key) {
+        if !self.contains_node(node_key) {
             return Err(FreeError::NodeNotFound);
         }
         if !self.node_mortality[node_key] {
             return Err(FreeError::ImmortalNode);
         }
-        if self
-            .node_keys_to_free_when_safe
-            .iter()
-            .any(|(key, _)| *key == node_key)
-        {
-            return Ok(());
-        }
         //
         self.recalculation_required = true;
 
@@ -2060,12 +2058,17 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
-        if let Some(m) = self.node_mortality.get_mut(node.key()) {
-            *m = mortality;
-            Ok(())
-        } else {
-            Err(GraphError::NodeNotFound)
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
+        }
+        if !self.contains_node(node.key()) {
+            return Err(GraphError::NodeNotFound);
         }
+        self.node_mortality[node.key()] = mortality;
+        Ok(())
     }
     /// Number of input channels going into this graph.
     pub fn inputs(&self) -> u16 {
-- 
2.43.0


From cdf4e3a30f4ed64734cf22eb1e1f63be238b4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 13/41] fix: remove parameter edges whose source is freed or
 disconnected, and release the parameter

---
 knaster_core/src/ugen.rs                      |  4 +-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/graph.rs                    | 38 ++++++++++++++++++-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..fbd567d 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -306,7 +306,7 @@ pub trait UGen {
     /// Tries to apply the parameter change without checking the validity of the
     /// values. May panic or do nothing given unexpected values.
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue);
-    /// Set an audio buffer to control a parameter. Does nothing unless an
+    /// Set an audio buffer to control a parameter, or stop doing so if the pointer is null. Does nothing unless an
     /// `ArParams` wrapper or alternative wrapper making use of this value wraps the Gen.
     ///
     /// There is little use in calling this directly unless you are implementing
@@ -316,7 +316,7 @@ pub trait UGen {
     ///
     /// # Safety
     /// The caller guarantees that the pointer will point to a
-    /// contiguous allocation of at least block size until it is replaced,
+    /// contiguous allocation of at least block size, or be null, until it is replaced,
     /// disabled, or the inner struct is dropped.
     #[allow(unused)]
     unsafe fn set_ar_param_buffer(
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 29fdf6c..d899edc 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -174,6 +174,9 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// The parameters that are set to an audio rate buffer on the audio thread, as of the last
+    /// generated TaskData.
+    ar_parameters: HashSet<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -244,6 +247,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            ar_parameters: HashSet::new(),
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1052,6 +1056,13 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        if let NodeKeyOrGraph::Node(source) = source {
+            for (_k, edges) in &mut self.node_parameter_edges {
+                edges.retain(|edge| {
+                    edge.source != source || edge.channel_in_source != source_channel
+                });
+            }
+        }
 
         self.recalculation_required = true;
         Ok(())
@@ -1128,6 +1139,14 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
+                        if let NodeKeyOrGraph::Node(input) = input_edge.source {
+                            for (_k, edges) in &mut self.node_parameter_edges {
+                                for edge in edges.iter_mut().filter(|edge| edge.source == key) {
+                                    edge.source = input;
+                                    edge.channel_in_source = input_edge.channel_in_source;
+                                }
+                            }
+                        }
                         self.free_node_from_key(key).ok();
                     }
                     (None, None) => {
@@ -1538,6 +1557,7 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        let mut ar_parameters = HashSet::new();
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1560,11 +1580,23 @@ impl<F: Float> Graph<F> {
                             node: node_index,
                             parameter_index: parameter_index as usize,
                             buffer,
-                        })
+                        });
+                        ar_parameters.insert((node_key, parameter_index));
                     }
                 }
             }
         }
+        // Release the parameters that no longer have an edge
+        for &(node_key, parameter_index) in self.ar_parameters.difference(&ar_parameters) {
+            if let Some(node_index) = self.node_order.iter().position(|k| *k == node_key) {
+                apc.push(ArParameterChange {
+                    node: node_index,
+                    parameter_index: parameter_index as usize,
+                    buffer: crate::core::ptr::null(),
+                });
+            }
+        }
+        self.ar_parameters = ar_parameters;
         apc
     }
 
@@ -1762,6 +1794,10 @@ impl<F: Float> Graph<F> {
         // Remove all edges leading to the node
         if let Some(_edges) = self.node_input_edges.remove(node_key) {}
         self.node_parameter_edges.remove(node_key);
+        // Remove all edges leading from the node to parameters of other nodes
+        for (_k, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| edge.source != node_key);
+        }
         // Remove all edges leading from the node to other nodes
         for (_k, input_edges) in &mut self.node_input_edges {
             let mut i = 0;
-- 
2.43.0


From af4ae7c518139480ecba1e8d70a5e860b730f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 14/41] fix: propagate delays and audio rate buffers for
 parameters through all wrappers

---
 .../src/wrappers_core/audio_rate.rs             | 17 +++++++++++++++++
 .../src/wrappers_core/smooth_params.rs          | 13 +++++++++++++
 knaster_graph/src/wrappers_graph/done.rs        | 17 +++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..f433b03 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,10 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -168,4 +172,17 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..fddeef3 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,19 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..f6d1be0 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -118,4 +118,21 @@ where
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index < T::Parameters::USIZE {
+            unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From 94a3a9ef330ec6c6b9942f1d9e00b9fa15a907d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 15/41] fix: apply each delay to one change, keep changes
 beyond a partial block and sort them by delay

---
 .../src/wrappers_core/precise_timing.rs       | 33 +++++++++++++++----
 knaster_graph/src/graph_gen.rs                | 18 ++++++++--
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..8646127 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -4,8 +4,7 @@ use knaster_core::{
     AudioCtx, ParameterHint, ParameterValue, PartialBlock, UGen, UGenFlags, rt_log,
 };
 
-/// Enables sample accurate parameter changes within a block. Changes must be
-/// scheduled in the order they are to be applied.
+/// Enables sample accurate parameter changes within a block.
 ///
 /// `DelayedChangesPerBlock` determines the maximum number of changes that can
 /// be scheduled per block.
@@ -60,6 +59,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -109,8 +109,21 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
             block_i += local_frames_to_process;
         }
         ctx.block = org_block;
-        //
-        self.next_delay_i = 0;
+        // Keep the changes that were not reached, counting their delay from the start of the next
+        // block if this was the end of the block.
+        let block_finished =
+            ctx.block_start_offset() + ctx.frames_to_process() >= ctx.block_size();
+        let mut num_kept = 0;
+        for i in 0..num_changes_scheduled {
+            if let Some((mut delay, index, value)) = self.waiting_changes[i].take() {
+                if block_finished {
+                    delay = delay.saturating_sub(ctx.block_size() as u16);
+                }
+                self.waiting_changes[num_kept] = Some((delay, index, value));
+                num_kept += 1;
+            }
+        }
+        self.next_delay_i = num_kept;
     }
 
     type Parameters = T::Parameters;
@@ -124,10 +137,18 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // A delay applies only to the next change
+        let delay = crate::core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            // Keep the changes sorted by delay, those with the same delay in the order they arrived
+            let mut i = self.next_delay_i;
+            while i > 0 && self.waiting_changes[i - 1].is_some_and(|(d, _, _)| d > delay) {
+                self.waiting_changes[i] = self.waiting_changes[i - 1];
+                i -= 1;
+            }
+            self.waiting_changes[i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..0e90f61 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -288,13 +288,25 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
+                // The delay applies only to the next change
                 if let Some(smoothing) = event.smoothing {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, smoothing.into());
                 }
                 if let Some(value) = event.value {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, value);
                 }
                 return None;
-- 
2.43.0


From 5467cfc3c3421f6634590ddafa81aa53b0b73f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 16/41] fix: smooth parameters from their current value to
 exactly the target, at audio rate too

---
 .../src/wrappers_core/smooth_params.rs        | 146 ++++++++++--------
 1 file changed, 83 insertions(+), 63 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index fddeef3..79e1833 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -39,16 +39,10 @@ impl<T: UGen> WrSmoothParams<T> {
         match smoothing {
             ParameterSmoothing::None => match self.smoothing_state[index] {
                 ParameterSmoothingState::None { .. } => (),
-                ParameterSmoothingState::Linear {
-                    start_value,
-                    end_value,
-                    duration_frames,
-                    frames_elapsed,
-                    ..
-                } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
-                    self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
+                ParameterSmoothingState::Linear { end_value, .. } => {
+                    self.smoothing_state[index] = ParameterSmoothingState::None {
+                        current_value: end_value,
+                    };
                 }
             },
             ParameterSmoothing::Linear(new_duration) => {
@@ -82,17 +76,18 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: current_value,
+                                start_value: linear_value(
+                                    start_value,
+                                    end_value,
+                                    frames_elapsed,
+                                    duration_frames,
+                                ),
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
@@ -137,54 +132,45 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
-        if there_is_an_ar_parameter {
-            //  run sample by sample for as long as needed
-            let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
-                if there_is_a_new_smoothing_value {
-                    for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
-                            self.ugen
-                                .param_apply(ctx, j, ParameterValue::Float(new_value))
-                        }
-                    }
-                    let input = PartialBlock::from_block(input, i, 1);
-                    let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    i += 1;
-                } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    break;
+        let frames_to_process = ctx.frames_to_process();
+        let mut i = 0;
+        // Run frame by frame for as long as there is smoothing at audio rate
+        while i < frames_to_process
+            && self
+                .smoothing_state
+                .iter()
+                .any(ParameterSmoothingState::has_new_ar_value)
+        {
+            for (j, state) in self.smoothing_state.iter_mut().enumerate() {
+                if let Some(new_value) = state.next_value(frames_to_process, i) {
+                    self.ugen
+                        .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
             }
-        } else {
+            let input = PartialBlock::from_block(input, i, 1);
+            let mut output = output.partial_mut(i, 1);
+            ctx.block = org_block.make_partial(i, 1);
+            self.ugen.process_block(ctx, flags, &input, &mut output);
+            ctx.block = org_block;
+            i += 1;
+        }
+        if i == 0 {
             // We only have potentially block rate parameters, run the whole block
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(frames_to_process, 0) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
             }
             self.ugen.process_block(ctx, flags, input, output);
+        } else if i < frames_to_process {
+            // Process the rest of the block
+            let input = PartialBlock::from_block(input, i, frames_to_process - i);
+            let mut output = output.partial_mut(i, frames_to_process - i);
+            ctx.block = org_block.make_partial(i, frames_to_process - i);
+            self.ugen.process_block(ctx, flags, &input, &mut output);
+            ctx.block = org_block;
         }
     }
     type Parameters = T::Parameters;
@@ -210,7 +196,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
@@ -224,11 +211,12 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                             if *done {
                                 *start_value = *end_value;
                             } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
+                                *start_value = linear_value(
+                                    *start_value,
+                                    *end_value,
+                                    *frames_elapsed,
+                                    *duration_frames,
+                                );
                             }
                             *end_value = float_value;
                             *done = false;
@@ -238,6 +226,19 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 }
             }
             ParameterValue::Smoothing(smoothing, rate) => {
+                // Without smoothing, changes are immediate, including one that is in progress
+                if let (
+                    ParameterSmoothing::None,
+                    ParameterSmoothingState::Linear {
+                        end_value,
+                        done: false,
+                        ..
+                    },
+                ) = (smoothing, self.smoothing_state[index])
+                {
+                    self.ugen
+                        .param_apply(ctx, index, ParameterValue::Float(end_value));
+                }
                 self.set_smoothing(index, smoothing, rate, ctx.sample_rate() as f64)
             }
         }
@@ -272,6 +273,25 @@ enum ParameterSmoothingState {
         done: bool,
     },
 }
+/// The value between `start_value` and `end_value` after `frames_elapsed` of `duration_frames`.
+fn linear_value(
+    start_value: PFloat,
+    end_value: PFloat,
+    frames_elapsed: usize,
+    duration_frames: usize,
+) -> PFloat {
+    if frames_elapsed >= duration_frames {
+        return end_value;
+    }
+    if frames_elapsed == 0 {
+        return start_value;
+    }
+    let mix = frames_elapsed as PFloat / duration_frames as PFloat;
+    let value = (end_value - start_value) * mix + start_value;
+    value
+        .max(start_value.min(end_value))
+        .min(start_value.max(end_value))
+}
 impl ParameterSmoothingState {
     pub fn next_value(&mut self, block_size: usize, frame_in_block: usize) -> Option<PFloat> {
         match self {
@@ -291,8 +311,8 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
+                    let current_value =
+                        linear_value(*start_value, *end_value, *frames_elapsed, *duration_frames);
                     if *frames_elapsed == *duration_frames {
                         *done = true;
                     } else {
-- 
2.43.0


From 9a44e616fe62fd2fe291237edfa01fdd45b358ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 17/41] fix: keep an edit for the next commit when the channel
 to the audio thread is full

---
 knaster_graph/src/graph.rs      | 6 ++++++
 knaster_graph/src/graph_edit.rs | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index d899edc..50b90d8 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1760,6 +1760,12 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                // The nodes would be lost with the task data, so leave the changes for the next commit
+                return Err(GraphError::SendToGraphGen(
+                    "too many edits are waiting for the audio thread".into(),
+                ));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 05b145d..35a948c 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,9 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            log::error!("The edit will be committed together with the next one: {e}");
+        }
     }
 }
 
-- 
2.43.0


From cc0df847ca14efcdee98e0c0c88635a1151e5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 18/41] fix: read the only channel of the feedback source,
 whichever channel is fed back

---
 knaster_graph/src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 50b90d8..a88af25 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -789,7 +789,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -804,6 +804,7 @@ impl<F: Float> Graph<F> {
                 is_feedback: false,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
-- 
2.43.0


From d6720470fa9cca98c3341bb018bf03b28167cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 19/41] fix: don't panic or rename another node when naming a
 node that isn't in the graph

---
 knaster_graph/src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a88af25..ea4eeb4 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -441,6 +441,10 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
+        if node_id.graph != self.graph_id || !self.contains_node(node_id.key()) {
+            log::error!("Tried to name a node that is not in the graph: {node_id:?}");
+            return;
+        }
         self.get_nodes_mut()[node_id.key()].name = name;
     }
 
-- 
2.43.0


From d4d3b779097cde75e007dddc276cb0b68d84e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 20/41] fix: keep the operand order when subtracting from or
 dividing a constant by a handle

---
 knaster_graph/src/graph_edit.rs | 222 ++++++++++++++++++++++++++------
 1 file changed, 186 insertions(+), 36 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 35a948c..ba73be0 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1036,7 +1036,7 @@ impl From<ConstantNumber> for f64 {
 }
 
 macro_rules! math_gen_fn_static_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:expr, $constant_input:expr) => {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1049,10 +1049,17 @@ macro_rules! math_gen_fn_static_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1066,10 +1073,43 @@ macro_rules! math_gen_fn_static_constant {
         }
     };
 }
-math_gen_fn_static_constant!(add_sources_static_constant, knaster_core_dsp::math::Add);
-math_gen_fn_static_constant!(sub_sources_static_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_static_constant!(mul_sources_static_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_static_constant!(div_sources_static_constant, knaster_core_dsp::math::Div);
+math_gen_fn_static_constant!(
+    add_sources_static_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    sub_sources_static_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    mul_sources_static_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    div_sources_static_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+// With the constant as the left operand, for the operators where the order matters
+math_gen_fn_static_constant!(
+    sub_static_constant_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_static_constant!(
+    div_static_constant_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_static_constant!(pow_sources_static_constant, knaster_core::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
@@ -1110,7 +1150,7 @@ math_gen_fn_dynamic!(pow_sources_dynamic, knaster_core_dsp::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
 macro_rules! math_gen_fn_dynamic_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:expr, $constant_input:expr) => {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1122,10 +1162,17 @@ macro_rules! math_gen_fn_dynamic_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1137,10 +1184,43 @@ macro_rules! math_gen_fn_dynamic_constant {
         }
     };
 }
-math_gen_fn_dynamic_constant!(add_sources_dynamic_constant, knaster_core_dsp::math::Add);
-math_gen_fn_dynamic_constant!(sub_sources_dynamic_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_dynamic_constant!(mul_sources_dynamic_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_dynamic_constant!(div_sources_dynamic_constant, knaster_core_dsp::math::Div);
+math_gen_fn_dynamic_constant!(
+    add_sources_dynamic_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    div_sources_dynamic_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+// With the constant as the left operand, for the operators where the order matters
+math_gen_fn_dynamic_constant!(
+    sub_dynamic_constant_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_dynamic_constant!(
+    div_dynamic_constant_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_dynamic_constant!(pow_sources_dynamic_constant, knaster_core::math::Pow);
 
 // Arithmetics with static types
@@ -1170,7 +1250,7 @@ math_impl_static_static!(div_sources, Div, div);
 // Arithmetics with and static types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_static_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $constant_first_fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S0: Static> $op<$ty> for SH<'a, 'b, F, S0> {
             type Output = SH<'a, 'b, F, ChannelsHandle<S0::Outputs>>;
 
@@ -1188,7 +1268,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $constant_first_fn_name(rhs.nodes, self, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1196,17 +1276,43 @@ macro_rules! math_impl_static_constant_type {
     };
 }
 macro_rules! math_impl_static_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $constant_first_fn_name:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_static_constant_type!($fn_name, $constant_first_fn_name, $op, $op_lowercase, f32);
+        math_impl_static_constant_type!($fn_name, $constant_first_fn_name, $op, $op_lowercase, f64);
+        math_impl_static_constant_type!(
+            $fn_name,
+            $constant_first_fn_name,
+            $op,
+            $op_lowercase,
+            usize
+        );
+        math_impl_static_constant_type!($fn_name, $constant_first_fn_name, $op, $op_lowercase, i32);
     };
 }
-math_impl_static_constant!(mul_sources_static_constant, Mul, mul);
-math_impl_static_constant!(add_sources_static_constant, Add, add);
-math_impl_static_constant!(sub_sources_static_constant, Sub, sub);
-math_impl_static_constant!(div_sources_static_constant, Div, div);
+math_impl_static_constant!(
+    mul_sources_static_constant,
+    mul_sources_static_constant,
+    Mul,
+    mul
+);
+math_impl_static_constant!(
+    add_sources_static_constant,
+    add_sources_static_constant,
+    Add,
+    add
+);
+math_impl_static_constant!(
+    sub_sources_static_constant,
+    sub_static_constant_sources,
+    Sub,
+    sub
+);
+math_impl_static_constant!(
+    div_sources_static_constant,
+    div_static_constant_sources,
+    Div,
+    div
+);
 
 impl<'a, 'b, F: Float, S0: Static, S1: Static> Shr<SH<'a, 'b, F, S1>> for SH<'a, 'b, F, S0>
 where
@@ -1378,7 +1484,7 @@ impl<'a, 'b, F: Float, D0: Dynamic, D1: Dynamic> BitOr<DH<'a, 'b, F, D1>> for DH
 // Arithmetics with and dynamic types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_dynamic_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $constant_first_fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S: Dynamic> $op<$ty> for DH<'a, 'b, F, S> {
             type Output = DH<'a, 'b, F, DynamicChannelsHandle>;
 
@@ -1396,7 +1502,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $constant_first_fn_name(rhs.nodes, self, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1406,17 +1512,61 @@ macro_rules! math_impl_dynamic_constant_type {
     };
 }
 macro_rules! math_impl_dynamic_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $constant_first_fn_name:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_dynamic_constant_type!(
+            $fn_name,
+            $constant_first_fn_name,
+            $op,
+            $op_lowercase,
+            f32
+        );
+        math_impl_dynamic_constant_type!(
+            $fn_name,
+            $constant_first_fn_name,
+            $op,
+            $op_lowercase,
+            f64
+        );
+        math_impl_dynamic_constant_type!(
+            $fn_name,
+            $constant_first_fn_name,
+            $op,
+            $op_lowercase,
+            usize
+        );
+        math_impl_dynamic_constant_type!(
+            $fn_name,
+            $constant_first_fn_name,
+            $op,
+            $op_lowercase,
+            i32
+        );
     };
 }
-math_impl_dynamic_constant!(mul_sources_dynamic_constant, Mul, mul);
-math_impl_dynamic_constant!(add_sources_dynamic_constant, Add, add);
-math_impl_dynamic_constant!(sub_sources_dynamic_constant, Sub, sub);
-math_impl_dynamic_constant!(div_sources_dynamic_constant, Div, div);
+math_impl_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    mul_sources_dynamic_constant,
+    Mul,
+    mul
+);
+math_impl_dynamic_constant!(
+    add_sources_dynamic_constant,
+    add_sources_dynamic_constant,
+    Add,
+    add
+);
+math_impl_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    sub_dynamic_constant_sources,
+    Sub,
+    sub
+);
+math_impl_dynamic_constant!(
+    div_sources_dynamic_constant,
+    div_dynamic_constant_sources,
+    Div,
+    div
+);
 
 #[derive(Copy, Clone)]
 /// A stack of two nodes, where the channels are mapped sequentially first to the first node, then to the second node, when creating connections.
-- 
2.43.0


From d5b30717693ac2efd9cb06d50e3370c4d9dda337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 21/41] fix: convert integer constants to the graph's sample
 type without rounding them to f32 first

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index ba73be0..d0ba34c 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -990,7 +990,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From e432ab7143a49a650ae8ce7d7a6deb256e8873a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 22/41] fix: report the graph id of subgraph nodes in the
 inspection

---
 knaster_graph/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ea4eeb4..bf9b7b8 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1894,7 +1894,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From 0a12bc68bea2ad85e1808bdb3666024cae832720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 23/41] fix: check that the audio processor's inputs hold a
 block of samples

---
 knaster_graph/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..956091d 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -119,6 +119,10 @@ impl<F: Float> AudioProcessor<F> {
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
+            assert!(
+                slice.len() >= self.block_size,
+                "every input must hold at least one block of samples"
+            );
             *ptr = slice.as_ptr();
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
-- 
2.43.0


From a7d6769b7e673045f02f4912c0532e265bb74b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 24/41] Verification hook to set the audio processor's frame
 clock, behind --cfg knaster_verif

---
 knaster_graph/src/processor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 956091d..18661ed 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -200,6 +200,17 @@ impl<F: Float> AudioProcessor<F> {
     }
 }
 
+// Hooks for verification, only built with `--cfg knaster_verif`
+#[allow(unexpected_cfgs)]
+impl<F: Float> AudioProcessor<F> {
+    /// Continue as if `frames` frames had been processed.
+    #[cfg(knaster_verif)]
+    #[doc(hidden)]
+    pub fn verif_set_frame_clock(&mut self, frames: u64) {
+        self.frame_clock = frames as _;
+    }
+}
+
 // # Safety
 //
 // Synchronisation with the Graph happens through safe means. See Graph for more info.
-- 
2.43.0


From 46fc8b5340f0ca16bd38f9ebfcfef4b88244b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 25/41] fix: remove a graph from the earliest frame at which
 one of its nodes is done

---
 knaster_core/src/ugen.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index fbd567d..134cb9a 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -187,10 +187,11 @@ impl UGenFlags {
     ///
     /// From and including the frame number specified, the graph will output 0.0
     /// on all channels until removed. To output the entire block, set
-    /// `from_frame_in_block` to the current block size.
+    /// `from_frame_in_block` to the current block size. If set more than once, the earliest frame is used.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        self.remove_parent_from_frame_in_block =
+            self.remove_parent_from_frame_in_block.min(from_frame);
     }
     /// Mark this node as done.
     ///
-- 
2.43.0


From 87576feb44388978aeb73041282083351c14d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 26/41] fix: refuse parameter changes that the audio thread has
 no room to keep

---
 knaster_graph/src/graph.rs     | 11 ++++++----
 knaster_graph/src/graph_gen.rs | 13 ++++++++++-
 knaster_graph/src/handle.rs    | 40 +++++++++++++++++++++++++---------
 3 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index bf9b7b8..cefeca2 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -4,7 +4,7 @@
 use crate::core::collections::VecDeque;
 use crate::core::{
     cell::UnsafeCell,
-    sync::atomic::{AtomicBool, Ordering},
+    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
 };
 
 use crate::core::{
@@ -230,11 +230,13 @@ impl<F: Float> Graph<F> {
             RingBuffer::<TaskData<F>>::new(ring_buffer_size);
         let (scheduling_event_producer, scheduling_event_receiver) =
             rtrb::RingBuffer::new(ring_buffer_size);
+        let num_unapplied_parameter_changes = Arc::new(AtomicUsize::new(0));
 
         let graph_gen_communicator = GraphGenCommunicator {
-            scheduling_event_producer: SchedulingChannelSender(Arc::new(Mutex::new(
-                scheduling_event_producer,
-            ))),
+            scheduling_event_producer: SchedulingChannelSender(
+                Arc::new(Mutex::new(scheduling_event_producer)),
+                num_unapplied_parameter_changes.clone(),
+            ),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
             next_change_flag: Arc::new(AtomicBool::new(false)),
@@ -322,6 +324,7 @@ impl<F: Float> Graph<F> {
                 new_task_data_consumer,
                 freed: false,
                 waiting_parameter_changes: VecDeque::with_capacity(ring_buffer_size),
+                num_unapplied_parameter_changes,
                 _arc_nodes: graph.nodes.clone(),
                 _arc_buffer_allocation_ptr: graph.buffer_allocator.buffer(),
                 _channels: core::marker::PhantomData,
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 0e90f61..d92eccf 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -7,7 +7,7 @@ use crate::{
         cell::UnsafeCell,
         marker::PhantomData,
         slice,
-        sync::atomic::{AtomicBool, Ordering},
+        sync::atomic::{AtomicBool, AtomicUsize, Ordering},
     },
     dynugen::DynUGen,
 };
@@ -47,6 +47,9 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     // to avoid filling up the queue with parameter changes for nodes that don't
     // exist anymore.
     pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32)>,
+    // The number of parameter changes that were sent, but have neither been applied nor removed.
+    // The sender does not accept more of them than fit in `waiting_parameter_changes`.
+    pub(super) num_unapplied_parameter_changes: Arc<AtomicUsize>,
 
     pub(super) current_task_data: TaskData<F>,
     // This Arc is cloned from the Graph and exists so that if the Graph gets
@@ -122,6 +125,8 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                 // Remove old changes that aren't applied in time. When a Gen is removed, but has parameter changes queued, they would otherwise pile up.
                 if num_blocks_waiting > self.blocks_to_keep_scheduled_changes {
                     // By not pushing it back to the vecdeque, this change is removed
+                    self.num_unapplied_parameter_changes
+                        .fetch_sub(1, Ordering::AcqRel);
                     continue;
                 }
 
@@ -135,6 +140,9 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                 ) {
                     self.waiting_parameter_changes
                         .push_back((unapplied, num_blocks_waiting + 1));
+                } else {
+                    self.num_unapplied_parameter_changes
+                        .fetch_sub(1, Ordering::AcqRel);
                 }
             }
         }
@@ -160,8 +168,11 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                         < self.waiting_parameter_changes.capacity()
                     {
                         self.waiting_parameter_changes.push_back((event, 0));
+                        continue;
                     }
                 }
+                self.num_unapplied_parameter_changes
+                    .fetch_sub(1, Ordering::AcqRel);
             }
         }
         // TODO: Remove parameter changes that have expired for tasks
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..19ba41b 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -16,7 +16,10 @@ use knaster_core::{
 /// no_std_compat prelude import, supporting both std and no_std
 use std::prelude::v1::*;
 
-use crate::core::sync::{Arc, Mutex};
+use crate::core::sync::{
+    Arc, Mutex,
+    atomic::{AtomicUsize, Ordering},
+};
 
 use crate::SchedulingChannelProducer;
 
@@ -36,14 +39,35 @@ pub struct NodeSubset {
 
 /// This is used to send scheduling events to the audio thread.
 #[derive(Clone, Debug)]
-pub struct SchedulingChannelSender(pub(crate) Arc<Mutex<SchedulingChannelProducer>>);
+pub struct SchedulingChannelSender(
+    pub(crate) Arc<Mutex<SchedulingChannelProducer>>,
+    /// The number of events that have been sent, but not yet been applied on the audio thread.
+    pub(crate) Arc<AtomicUsize>,
+);
 impl SchedulingChannelSender {
+    /// Push an event unless there are already as many events waiting to be applied as the audio
+    /// thread has room for.
+    fn push(
+        &self,
+        producer: &mut SchedulingChannelProducer,
+        event: SchedulingEvent,
+    ) -> Result<(), GraphError> {
+        let result = if self.1.load(Ordering::Acquire) >= producer.buffer().capacity() {
+            Err(rtrb::PushError::Full(event))
+        } else {
+            self.1.fetch_add(1, Ordering::AcqRel);
+            producer.push(event).inspect_err(|_| {
+                self.1.fetch_sub(1, Ordering::AcqRel);
+            })
+        };
+        result.map_err(|e| GraphError::PushChangeError(e.to_string()))
+    }
     /// Send a scheduling event to the audio thread.
     ///
     /// # Errors
     ///
-    /// Returns an error if the graph this sender is connected to was freed or the event channel is
-    /// full.
+    /// Returns an error if the graph this sender is connected to was freed or if as many events as
+    /// the ring buffer holds are already waiting to be applied.
     pub fn send(&self, event: SchedulingEvent) -> Result<(), GraphError> {
         // no_std_compat uses `spin` replacements for Mutex, which has a different API.
         #[cfg(feature = "std")]
@@ -58,16 +82,12 @@ impl SchedulingChannelSender {
                 // std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
                 return Err(ParameterError::GraphWasFreed.into());
             }
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            self.push(&mut sender, event)?;
         }
         #[cfg(not(feature = "std"))]
         {
             let mut sender = self.0.lock();
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            self.push(&mut sender, event)?;
         }
         Ok(())
     }
-- 
2.43.0


From 3c5b2d64a674c2b3256edf29ba49682cb793d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 27/41] fix: send log messages as a whole or not at all

---
 knaster_core/src/log.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..35d6edd 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -264,6 +264,22 @@ impl ArLogSender {
             ArLogSender::Log => log::warn!("{}", message),
         }
     }
+    /// Send a full message, i.e. all of the `messages` in order. If there isn't room for all of
+    /// them in the channel, none of them are sent.
+    pub fn send_all(&mut self, messages: &[ArLogMessage]) {
+        match self {
+            ArLogSender::RingBuffer(sender) => {
+                if let Ok(chunk) = sender.write_chunk_uninit(messages.len()) {
+                    chunk.fill_from_iter(messages.iter().copied());
+                }
+            }
+            ArLogSender::Log => {
+                for message in messages {
+                    log::warn!("{}", message);
+                }
+            }
+        }
+    }
 }
 
 /// Macro for sending [`ArLogMessage`]s via an [`ArLogSender`] to an [`ArLogReceiver`].
@@ -272,10 +288,7 @@ macro_rules! rt_log {
     ($logger:expr; $($msg:expr),* $(,)?) => {{
     {
     use $crate::log::ArLogMessage;
-        $(
-            $logger.send(ArLogMessage::from($msg));
-        )*
-        $logger.send(ArLogMessage::End);
+        $logger.send_all(&[$(ArLogMessage::from($msg),)* ArLogMessage::End]);
     }
     }};
 }
-- 
2.43.0


From 636e01febdb7c45698480d7d3be9a22c98b1d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 28/41] fix: refuse accesses outside the window of a partial
 block

---
 knaster_primitives/src/block.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knaster_primitives/src/block.rs b/knaster_primitives/src/block.rs
index e65442c..3f4c4fa 100644
--- a/knaster_primitives/src/block.rs
+++ b/knaster_primitives/src/block.rs
@@ -289,6 +289,7 @@ impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for Partial
     }
 
     fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+        assert!(frame < self.length);
         self.block.read(channel, frame + self.start_offset)
     }
 
@@ -322,10 +323,12 @@ impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> {
     }
 
     fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+        assert!(frame < self.length);
         self.block.read(channel, frame + self.start_offset)
     }
 
     fn write(&mut self, value: Self::Sample, channel: usize, frame: usize) {
+        assert!(frame < self.length);
         self.block.write(value, channel, frame + self.start_offset);
     }
 
-- 
2.43.0


From c528fd942af14251e018538dedc920d3e6738ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 29/41] fix: report completion at its frame within the full
 block

---
 knaster_core/src/ugen.rs                      |  6 +++++-
 knaster_core_dsp/src/ugens/buffer.rs          |  6 +++---
 knaster_core_dsp/src/ugens/envelopes.rs       | 20 +++++++++----------
 knaster_core_dsp/src/ugens/util.rs            | 10 ++++++++--
 .../src/wrappers_core/audio_rate.rs           |  6 +++++-
 5 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 134cb9a..9e6c92e 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -271,7 +271,10 @@ pub trait UGen {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.block.frames_to_process {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process {
+            // Let `process` know which frame of the block it is producing
+            ctx.block = org_block.make_partial(frame, 1);
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
@@ -282,6 +285,7 @@ pub trait UGen {
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
 
     /// Specifies which [`ParameterType`] each parameter is. If the types given to [`Gen::param_apply`] match
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..6cf34d3 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -121,7 +121,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn process(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: knaster_core::Frame<Self::Sample, Self::Inputs>,
     ) -> knaster_core::Frame<Self::Sample, Self::Outputs> {
@@ -140,7 +140,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             if self.looping {
                 self.reset();
             } else {
-                flags.mark_done(0);
+                flags.mark_done((ctx.block_start_offset() + 1) as u32);
             }
         }
         output
@@ -169,7 +169,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                     if self.looping {
                         self.reset();
                     } else {
-                        flags.mark_done((i + 1) as u32);
+                        flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
                     }
                 }
                 if self.finished {
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..2ddd182 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -150,14 +150,14 @@ impl<F: Float> EnvAsr<F> {
         }
     }
 
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
 
-    fn process_block(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
         for (i, out) in output[0].iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (ctx.block_start_offset() + i) as u32);
         }
     }
 }
@@ -282,13 +282,13 @@ impl<F: Float> EnvAr<F> {
             }
         }
     }
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -297,7 +297,7 @@ impl<F: Float> EnvAr<F> {
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
         for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (ctx.block_start_offset() + i) as u32);
         }
     }
 }
@@ -406,7 +406,7 @@ mod alloc_envelopes {
 
         fn process(
             &mut self,
-            _ctx: &mut AudioCtx,
+            ctx: &mut AudioCtx,
             flags: &mut UGenFlags,
             _input: Frame<Self::Sample, Self::Inputs>,
         ) -> Frame<Self::Sample, Self::Outputs> {
@@ -454,7 +454,7 @@ mod alloc_envelopes {
                             };
                         } else {
                             self.state = EnvelopeState::Stopped;
-                            flags.mark_done(0);
+                            flags.mark_done(ctx.block_start_offset() as u32);
                         }
                     }
                 }
diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..de0aa01 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -25,9 +25,15 @@ impl<F: Float> DoneOnTrig<F> {
         self.triggered = true;
     }
     #[allow(missing_docs)]
-    pub fn process(&mut self, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
+    pub fn process(
+        &mut self,
+        ctx: &mut AudioCtx,
+        flags: &mut UGenFlags,
+        _input: [F; 0],
+    ) -> [F; 0] {
         if self.triggered {
-            flags.mark_done(0);
+            self.triggered = false;
+            flags.mark_done(ctx.block_start_offset() as u32);
         }
         []
     }
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index f433b03..002378b 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -147,7 +147,10 @@ where
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.frames_to_process() {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process() {
+            // Let `process` know which frame of the block it is producing
+            ctx.block = org_block.make_partial(frame, 1);
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
@@ -158,6 +161,7 @@ where
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
     type Parameters = T::Parameters;
 
-- 
2.43.0


From 6ed0ee5fe7387cfcc208e9e9db6116934294a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 30/41] fix: keep buffer playback inside the buffer

---
 knaster_core_dsp/src/dsp/buffer.rs   | 42 ++++++++--------
 knaster_core_dsp/src/ugens/buffer.rs | 73 ++++++++++++++++------------
 2 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..44f7c2d 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -45,10 +45,10 @@ pub struct Buffer<F: Copy> {
 }
 
 impl<F: Float> Buffer<F> {
-    /// Create an empty buffer with the specified options
+    /// Create an empty buffer with the specified options. `size` is the number of frames.
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
@@ -81,33 +81,35 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
-    /// Linearly interpolate between the value in between to samples
+    /// Linearly interpolate between the value in between to samples. An index or channel outside
+    /// of the buffer gives 0.
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
-        let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        match index.to_usize() {
+            Some(frame) if index >= F::ZERO => self.interpolate(frame, index.fract(), channel),
+            _ => F::ZERO,
         }
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
-    /// indexing is necessary for long buffers.
+    /// indexing is necessary for long buffers. An index or channel outside of the buffer gives 0.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
-        let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        if index >= 0.0 && index < self.num_frames {
+            self.interpolate(index as usize, F::new(index.fract()), channel)
+        } else {
+            F::ZERO
         }
     }
+    #[inline]
+    fn interpolate(&self, frame: usize, mix: F, channel: usize) -> F {
+        let num_frames = self.num_frames as usize;
+        if frame >= num_frames || channel >= self.num_channels {
+            return F::ZERO;
+        }
+        let next_frame = if frame + 1 < num_frames { frame + 1 } else { 0 };
+        self.buffer[frame * self.num_channels + channel] * (F::ONE - mix)
+            + self.buffer[next_frame * self.num_channels + channel] * mix
+    }
     /// Get the samples for all channels at the index.
     #[inline]
     pub fn get_interleaved(&self, index: usize) -> &[F] {
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 6cf34d3..5764d29 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -42,7 +42,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[must_use]
     pub fn new(buffer: impl Into<Arc<Buffer<F>>>, rate: f64, looping: bool) -> Self {
         let buffer = buffer.into();
-        let buffer_length = buffer.length_seconds();
+        let buffer_length = buffer.num_frames();
         BufferReader {
             buffer,
             read_pointer: 0.0,
@@ -65,9 +65,37 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         self.read_pointer = new_pointer_pos;
         self.finished = false;
     }
+    /// The frame at which playback ends, at the latest at the end of the buffer
+    fn end(&self) -> f64 {
+        self.end_frame.min(self.buffer.num_frames())
+    }
+    /// The current sample of a channel
+    fn read(&self, channel: usize) -> F {
+        if self.read_pointer < self.end() {
+            self.buffer
+                .get_linear_interp_f64(self.read_pointer, channel)
+        } else {
+            F::ZERO
+        }
+    }
+    /// Move the read pointer by one output frame. Returns true if playback finished.
+    fn advance(&mut self) -> bool {
+        self.read_pointer += self.base_rate * self.rate;
+        // A negative or invalid rate can move the pointer out of the buffer in other ways than
+        // reaching the end.
+        if self.read_pointer >= 0.0 && self.read_pointer < self.end() {
+            return false;
+        }
+        if self.looping {
+            self.reset();
+        } else {
+            self.finished = true;
+        }
+        self.finished
+    }
     /// Jump to a specific point in the buffer in samples. Has to be called before processing starts.
     pub fn start_at(mut self, start_time: Seconds) -> Self {
-        self.start_frame = start_time.to_secs_f64();
+        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
         self
     }
 
@@ -91,8 +119,11 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = if duration_s < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            Seconds::from_secs_f64(duration_s).to_samples_f64(self.buffer.sample_rate())
+        };
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
@@ -109,10 +140,6 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.base_rate = self.buffer.buf_rate_scale(sample_rate);
-        self.start_frame =
-            Seconds::from_secs_f64(self.start_frame).to_samples_f64(self.buffer.sample_rate());
-        self.dur_frame =
-            Seconds::from_secs_f64(self.dur_frame).to_samples_f64(self.buffer.sample_rate());
         self.end_frame = self.start_frame + self.dur_frame;
         self.jump_to(self.start_frame);
     }
@@ -131,17 +158,10 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             return output;
         }
         for chan in 0..Channels::USIZE {
-            let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
-            output[chan] = sample;
+            output[chan] = self.read(chan);
         }
-        self.read_pointer += self.base_rate * self.rate;
-        if self.read_pointer >= self.end_frame {
-            self.finished = true;
-            if self.looping {
-                self.reset();
-            } else {
-                flags.mark_done((ctx.block_start_offset() + 1) as u32);
-            }
+        if self.advance() {
+            flags.mark_done((ctx.block_start_offset() + 1) as u32);
         }
         output
     }
@@ -158,21 +178,12 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
-                    let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
-                    output.write(sample, chan, i);
-                }
-                self.read_pointer += self.base_rate * self.rate;
-                if self.read_pointer >= self.end_frame {
-                    self.finished = true;
-                    if self.looping {
-                        self.reset();
-                    } else {
-                        flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
-                    }
+                    output.write(self.read(chan), chan, i);
                 }
-                if self.finished {
+                if self.advance() {
+                    flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
                     stop_sample = Some(i + 1);
                     break;
                 }
-- 
2.43.0


From 4332d9a66d8231b31db67c0aba2c7be8aaba7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 31/41] fix: delay lines hold and delay by the requested number
 of frames

---
 knaster_core_dsp/src/ugens/delay.rs | 88 +++++++++++++++++++----------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..f936cfe 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -32,18 +32,21 @@ impl<F: Float> SampleDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;
+        // Round, since the time of a whole number of samples often isn't exact
+        self.delay_samples = (seconds * ctx.sample_rate() as PFloat + 0.5) as usize;
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
+        let delay_samples = self.delay_samples.min(self.buffer.len() - 1);
         let out = self.buffer
-            [(self.write_position + self.buffer.len() - self.delay_samples) % self.buffer.len()];
+            [(self.write_position + self.buffer.len() - delay_samples) % self.buffer.len()];
         self.write_position = (self.write_position + 1) % self.buffer.len();
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
-        self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+        // One more than the maximum delay, for the current sample
+        let max_delay_samples = self.max_delay_length.to_samples(sample_rate as u64) as usize;
+        self.buffer = vec![F::ZERO; max_delay_samples + 1];
         self.write_position = 0;
     }
 }
@@ -61,14 +64,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
@@ -76,7 +79,12 @@ impl<F: Float> AllpassInterpolator<F> {
     }
     /// Interpolate between the input sample and the previous value using the last set delta.
     pub fn process_sample(&mut self, input: F) -> F {
-        let output = self.coeff * (input - self.prev_output) + self.prev_input;
+        let output = if self.coeff == F::ONE {
+            // No delay
+            input
+        } else {
+            self.coeff * (input - self.prev_output) + self.prev_input
+        };
         self.prev_output = output;
         self.prev_input = input;
         output
@@ -119,7 +127,10 @@ impl<F: Float> AllpassDelay<F> {
     /// Allocates internal buffer.
     pub fn init(&mut self, sample_rate: u32, _block_size: usize) {
         let max_delay_samples = self.max_delay_seconds.to_samples(sample_rate as u64);
-        self.buffer = vec![F::ZERO; max_delay_samples as usize];
+        // One more than the maximum delay, for the current sample
+        self.buffer = vec![F::ZERO; max_delay_samples as usize + 1];
+        self.write_frame = 0;
+        self.set_delay_in_frames(F::new(max_delay_samples as f64));
     }
     /// Produce one frame from the delay and put `input` into the delay.
     pub fn process(
@@ -128,6 +139,8 @@ impl<F: Float> AllpassDelay<F> {
         _flags: &mut UGenFlags,
         input: [F; 1],
     ) -> [F; 1] {
+        // The delay line may be set to less than one frame, in which case this input is read
+        self.buffer[self.write_frame] = input[0];
         let out = self.read();
         self.write_and_advance(input[0]);
         [out]
@@ -135,10 +148,7 @@ impl<F: Float> AllpassDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
-            self.set_delay_in_frames(F::new(delay_frames));
-        }
+        self.set_delay_in_frames(F::new(seconds * ctx.sample_rate() as PFloat));
     }
     /// Read the current frame from the delay and allpass interpolate. Read before `write_and_advance` for the correct sample.
     #[inline]
@@ -155,13 +165,26 @@ impl<F: Float> AllpassDelay<F> {
             v
         }
     }
-    /// Set delay time in frames (f32 or f64)
+    /// Set delay time in frames (f32 or f64), limited to the maximum delay time. With
+    /// [`Self::read`] and [`Self::write_and_advance`], the delay must be at least 1.5 frames.
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
+        let max_frames = self.num_frames_max();
+        self.set_delay(num_frames.max(F::ZERO).min(max_frames), 0);
+    }
+    fn num_frames_max(&self) -> F {
+        F::new(self.buffer.len().saturating_sub(1) as f64)
+    }
+    /// For reading a frame before writing one: what is written can be read after one frame.
+    fn set_delay_at_least_one_frame(&mut self, num_frames: F) {
+        let max_frames = self.num_frames_max();
+        self.set_delay(num_frames.max(F::ONE).min(max_frames), 1);
+    }
+    fn set_delay(&mut self, num_frames: F, min_buffer_frames: usize) {
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        if self.num_frames > min_buffer_frames && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
         }
@@ -240,6 +263,8 @@ impl<F: Float> AllpassFeedbackDelay<F> {
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.allpass_delay.init(sample_rate, _block_size);
+        let max_delay_samples = self.allpass_delay.num_frames_max();
+        self.set_delay_in_frames(max_delay_samples);
     }
 
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
@@ -247,7 +272,8 @@ impl<F: Float> AllpassFeedbackDelay<F> {
     }
     /// Set the delay length counted in frames/samples
     pub fn set_delay_in_frames(&mut self, delay_length: F) {
-        self.allpass_delay.set_delay_in_frames(delay_length);
+        self.allpass_delay
+            .set_delay_at_least_one_frame(delay_length);
     }
     /// Clear any values in the delay
     pub fn clear(&mut self) {
@@ -329,28 +355,29 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.min(self.buffer.len()).max(1);
+        self.position %= self.delay_length;
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
-            * fraction)
-            .to_usize()
-            .unwrap();
+        let delay_length = F::from(self.buffer.len()).expect("delay length should fit in Float")
+            * fraction.min(F::ONE);
+        self.set_delay_length(delay_length.to_usize().unwrap_or(0));
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
             let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -358,17 +385,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
             let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -403,7 +431,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length > block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From 365549b5eb267f295940e8190f92e1d476e90ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 32/41] fix: envelopes stay in range when restarted, released
 or stopped

---
 knaster_core_dsp/src/ugens/envelopes.rs | 133 ++++++++++--------------
 1 file changed, 56 insertions(+), 77 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 2ddd182..1e5bf9e 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -6,6 +6,16 @@ use knaster_core::impl_ugen;
 use knaster_core::{AudioCtx, UGen, UGenFlags};
 use knaster_core::{Block, BlockRead, Float, PFloat};
 
+/// The change per frame of a value that travels between 0 and 1 in the given time. A time that isn't
+/// positive takes one frame.
+fn rate<F: Float>(seconds: F, sample_rate: u32) -> F {
+    if seconds > F::ZERO {
+        F::ONE / (seconds * F::from(sample_rate).unwrap())
+    } else {
+        F::ONE
+    }
+}
+
 #[derive(Debug, Clone, Copy)]
 enum AsrState {
     Stopped,
@@ -42,9 +52,13 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        match self.state {
+            AsrState::Stopped | AsrState::Attacking => {}
+            AsrState::Sustaining => self.t = F::ONE,
+            // The release is not linear
+            AsrState::Releasing => self.t = self.t.powi(3) * self.release_scale,
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -86,12 +100,7 @@ impl<F: Float> EnvAsr<F> {
         let atk = F::new(seconds);
         if self.attack_seconds != atk {
             self.attack_seconds = atk;
-            if atk == F::ZERO {
-                self.attack_rate = F::ONE;
-            } else {
-                self.attack_rate =
-                    F::ONE / (self.attack_seconds * F::from(ctx.sample_rate()).unwrap());
-            }
+            self.attack_rate = rate(self.attack_seconds, ctx.sample_rate());
         }
     }
     /// Set the release time in seconds
@@ -100,12 +109,7 @@ impl<F: Float> EnvAsr<F> {
         let rel = F::new(seconds);
         if self.release_seconds != rel {
             self.release_seconds = rel;
-            if rel == F::ZERO {
-                self.release_rate = F::ONE;
-            } else {
-                self.release_rate =
-                    F::ONE / (self.release_seconds * F::from(ctx.sample_rate()).unwrap());
-            }
+            self.release_rate = rate(self.release_seconds, ctx.sample_rate());
         }
     }
     /// Trigger the release of the envelope
@@ -135,18 +139,10 @@ impl<F: Float> EnvAsr<F> {
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         // Init rate based on the seconds if the rate hasn't already been set through a param
         if self.attack_rate == F::ONE {
-            if self.attack_seconds == F::ZERO {
-                self.attack_rate = F::ONE;
-            } else {
-                self.attack_rate = F::ONE / (self.attack_seconds * F::from(sample_rate).unwrap());
-            }
+            self.attack_rate = rate(self.attack_seconds, sample_rate);
         }
         if self.release_rate == F::ONE {
-            if self.release_seconds == F::ZERO {
-                self.release_rate = F::ONE;
-            } else {
-                self.release_rate = F::ONE / (self.release_seconds * F::from(sample_rate).unwrap());
-            }
+            self.release_rate = rate(self.release_seconds, sample_rate);
         }
     }
 
@@ -196,8 +192,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // The release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
@@ -237,12 +236,7 @@ impl<F: Float> EnvAr<F> {
         let atk = F::new(seconds);
         if self.attack_seconds != atk {
             self.attack_seconds = atk;
-            if atk == F::ZERO {
-                self.attack_rate = F::ONE;
-            } else {
-                self.attack_rate =
-                    F::ONE / (self.attack_seconds * F::from(ctx.sample_rate()).unwrap());
-            }
+            self.attack_rate = rate(self.attack_seconds, ctx.sample_rate());
         }
     }
     /// Set the release time in seconds
@@ -251,12 +245,7 @@ impl<F: Float> EnvAr<F> {
         let rel = F::new(seconds);
         if self.release_seconds != rel {
             self.release_seconds = rel;
-            if rel == F::ZERO {
-                self.release_rate = F::ONE;
-            } else {
-                self.release_rate =
-                    F::ONE / (self.release_seconds * F::from(ctx.sample_rate()).unwrap());
-            }
+            self.release_rate = rate(self.release_seconds, ctx.sample_rate());
         }
     }
     /// Trigger the (re)start of the envelope
@@ -268,18 +257,10 @@ impl<F: Float> EnvAr<F> {
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         // Init rate based on the seconds if the rate hasn't already been set through a param
         if self.attack_rate == F::ONE {
-            if self.attack_seconds == F::ZERO {
-                self.attack_rate = F::ONE;
-            } else {
-                self.attack_rate = F::ONE / (self.attack_seconds * F::from(sample_rate).unwrap());
-            }
+            self.attack_rate = rate(self.attack_seconds, sample_rate);
         }
         if self.release_rate == F::ONE {
-            if self.release_seconds == F::ZERO {
-                self.release_rate = F::ONE;
-            } else {
-                self.release_rate = F::ONE / (self.release_seconds * F::from(sample_rate).unwrap());
-            }
+            self.release_rate = rate(self.release_seconds, sample_rate);
         }
     }
     fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
@@ -327,6 +308,7 @@ mod alloc_envelopes {
     impl EnvelopeSegment {
         /// Duration is in seconds the time it takes to reach the value
         pub fn new(duration: f64, value: f64) -> Self {
+            let duration = duration.max(0.0);
             Self {
                 reciprocal_duration: 1.0 / duration,
                 duration,
@@ -393,6 +375,18 @@ mod alloc_envelopes {
             self.looping = looping;
             self
         }
+        /// The value at a time within a segment, between the value before the segment and its own
+        fn value_at(&self, segment: usize, time: f64) -> f64 {
+            let Some(segment) = self.segments.get(segment) else {
+                return self.from_value;
+            };
+            let from = self.from_value;
+            let to = segment.value;
+            let mix = (time * segment.reciprocal_duration).max(0.0).min(1.0);
+            (from + mix * (to - from))
+                .max(from.min(to))
+                .min(from.max(to))
+        }
     }
     impl<F: Float> UGen for Envelope<F> {
         type Sample = F;
@@ -416,36 +410,24 @@ mod alloc_envelopes {
                     out = F::new(self.from_value);
                 }
                 EnvelopeState::Running {
-                    current_segment,
-                    current_time,
+                    mut current_segment,
+                    mut current_time,
                 } => {
-                    let t = current_time;
-                    if t < self.segments[current_segment].duration {
-                        let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
-                        self.state = EnvelopeState::Running {
-                            current_segment,
-                            current_time: t + (self.time_scale * self.base_scale),
-                        };
-                    } else if current_segment + 1 < self.segments.len() {
+                    // Go to the segment that the current time is in
+                    while current_segment < self.segments.len()
+                        && !(current_time < self.segments[current_segment].duration)
+                    {
+                        current_time -= self.segments[current_segment].duration;
                         self.from_value = self.segments[current_segment].value;
-                        let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        current_segment += 1;
+                    }
+                    if current_segment < self.segments.len() {
+                        out = F::new(self.value_at(current_segment, current_time));
                         self.state = EnvelopeState::Running {
-                            current_segment: current_segment + 1,
-                            current_time: current_time - segment.duration
-                                + (self.time_scale * self.base_scale),
+                            current_segment,
+                            current_time: current_time + (self.time_scale * self.base_scale),
                         };
                     } else {
-                        self.from_value = self.segments[current_segment].value;
                         out = F::new(self.from_value);
                         if self.looping {
                             self.state = EnvelopeState::Running {
@@ -481,7 +463,7 @@ mod alloc_envelopes {
                 1 => {
                     let mut jump_to_segment = value.integer().unwrap().0;
                     if jump_to_segment >= self.segments.len() {
-                        jump_to_segment = self.segments.len() - 1;
+                        jump_to_segment = self.segments.len().saturating_sub(1);
                     }
                     match &mut self.state {
                         EnvelopeState::Stopped => {
@@ -514,10 +496,7 @@ mod alloc_envelopes {
                         current_time,
                     } = self.state
                     {
-                        let t = current_time;
-                        let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                        self.from_value = self.value_at(current_segment, current_time);
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From 76186954de25a713b8c2bbac2fcdac0fb4fb5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 33/41] fix: oscillator phases stay in one period at any
 frequency, offset and table size

---
 knaster_core_dsp/src/dsp/wavetable.rs  |  9 ++++++--
 knaster_core_dsp/src/ugens/osc.rs      | 32 ++++++++++++++++----------
 knaster_core_dsp/src/ugens/polyblep.rs | 11 +++------
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..0b64f91 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -118,9 +118,14 @@ mod wavetable_vec {
         }
         /// Create a [`PartialTable`] from an existing buffer.
         ///
-        /// # Errors
-        /// The buffer has to be of [`TABLE_SIZE`] length, otherwise an error will be returned.
+        /// # Panics
+        /// The buffer has to be of [`TABLE_SIZE`] length.
         pub fn set_from_buffer(&mut self, buffer: Vec<F>) {
+            assert_eq!(
+                buffer.len(),
+                TABLE_SIZE,
+                "wavetable buffers must be of size TABLE_SIZE"
+            );
             // TODO: FFT of the buffer for anti-aliasing
             self.buffer = buffer;
             self.update_diff_buffer();
diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..4a94776 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -43,12 +43,15 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            // Going through i64 lets negative frequencies run backwards
+            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -126,12 +129,15 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            // Going through i64 lets negative frequencies run backwards
+            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -168,6 +174,14 @@ mod wavetable_vec {
     }
 }
 
+/// Wraps a phase into 0 <= phase < 1. A phase which cannot be wrapped (not a finite number)
+/// starts over from 0.
+#[inline]
+pub(crate) fn wrap_phase<F: Float>(phase: F) -> F {
+    let phase = phase - phase.floor();
+    if phase < F::ONE { phase } else { F::ZERO }
+}
+
 /// Linear ramp from 0 to 1 at a given frequency. Will alias at higher frequencies.
 pub struct Phasor<F> {
     phase: f64,
@@ -204,10 +218,7 @@ impl<F: Float> Phasor<F> {
     #[allow(missing_docs)]
     pub fn process(&mut self) -> [F; 1] {
         let out = F::new(self.phase);
-        self.phase += self.step;
-        while self.phase >= 1.0 {
-            self.phase -= 1.0;
-        }
+        self.phase = wrap_phase(self.phase + self.step);
         [out]
     }
 }
@@ -262,10 +273,7 @@ impl<F: Float> SinNumeric<F> {
     #[allow(missing_docs)]
     pub fn process(&mut self) -> [F; 1] {
         let out = ((self.phase + self.phase_offset) * F::TAU).sin();
-        self.phase += self.phase_increment;
-        if self.phase > F::ONE {
-            self.phase -= F::ONE;
-        }
+        self.phase = wrap_phase(self.phase + self.phase_increment);
         [out]
     }
 }
diff --git a/knaster_core_dsp/src/ugens/polyblep.rs b/knaster_core_dsp/src/ugens/polyblep.rs
index bcceecd..fb3e9c6 100644
--- a/knaster_core_dsp/src/ugens/polyblep.rs
+++ b/knaster_core_dsp/src/ugens/polyblep.rs
@@ -30,6 +30,7 @@ Permission has been granted to release this port under the WDL/IPlug license:
 */
 
 use crate::core::ops::Mul;
+use crate::osc::wrap_phase;
 use knaster_core::{
     Float, KnasterIntegerParameter, PFloat, PInteger, impl_ugen,
     num_derive::{FromPrimitive, ToPrimitive},
@@ -197,12 +198,7 @@ impl<F: Float> PolyBlep<F> {
 
     /// Set the phase of this oscillator
     pub fn sync(&mut self, phase: F) {
-        self.t = phase;
-        if self.t >= F::ZERO {
-            self.t -= bitwise_or_zero(self.t);
-        } else {
-            self.t += F::ONE - bitwise_or_zero(self.t);
-        }
+        self.t = wrap_phase(phase);
     }
 
     #[allow(missing_docs)]
@@ -230,8 +226,7 @@ impl<F: Float> PolyBlep<F> {
     }
 
     fn inc(&mut self) {
-        self.t += self.freq_in_seconds_per_sample;
-        self.t -= bitwise_or_zero(self.t);
+        self.t = wrap_phase(self.t + self.freq_in_seconds_per_sample);
     }
 
     fn get_and_inc(&mut self) -> F {
-- 
2.43.0


From 40a625a8917856c390c108d0f771037d539cc802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 34/41] fix: RandomLin counts a negative or NaN frequency as 0

---
 knaster_core_dsp/src/ugens/noise.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index 0cf852d..14dbef9 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -192,7 +192,7 @@ impl<F: Float> RandomLin<F> {
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.freq_to_phase_inc = F::ONE / F::from(sample_rate).unwrap();
         // freq is stored in phase_step until init
-        self.phase_step *= self.freq_to_phase_inc;
+        self.phase_step = (self.phase_step * self.freq_to_phase_inc).max(F::ZERO);
         self.new_value();
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags) -> [F; 1] {
@@ -204,14 +204,15 @@ impl<F: Float> RandomLin<F> {
         }
         [out]
     }
-    /// Set the frequency of producing new random numbers
+    /// Set the frequency of producing new random numbers. A negative frequency, or one that is not
+    /// a number, counts as 0 i.e. holding the current value.
     #[param]
     pub fn freq(&mut self, value: PFloat) {
         if self.freq_to_phase_inc == F::ZERO {
             // freq is stored in phase_step until init
             self.phase_step = F::new(value);
         } else {
-            self.phase_step = F::new(value) * self.freq_to_phase_inc;
+            self.phase_step = (F::new(value) * self.freq_to_phase_inc).max(F::ZERO);
         }
     }
 }
-- 
2.43.0


From a85ea7524334797babfe4146c0b9720dd5014256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 35/41] fix: panning gains stay within 0 and 1 outside the
 panning range

---
 knaster_core_dsp/src/ugens/pan.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/pan.rs b/knaster_core_dsp/src/ugens/pan.rs
index 0e8210f..9135ac0 100644
--- a/knaster_core_dsp/src/ugens/pan.rs
+++ b/knaster_core_dsp/src/ugens/pan.rs
@@ -31,8 +31,9 @@ impl<F: Float> Pan2<F> {
     pub fn process(&mut self, input: [F; 1]) -> [F; 2] {
         let signal = input[0];
         let pan_pos_radians = self.pan * crate::core::f32::consts::FRAC_PI_2;
-        let left_gain = F::new(fastapprox::fast::cos(pan_pos_radians));
-        let right_gain = F::new(fastapprox::fast::sin(pan_pos_radians));
+        // The approximation is only within (0, 1) up to its error, and only inside of the pan range
+        let left_gain = F::new(fastapprox::fast::cos(pan_pos_radians).clamp(0.0, 1.0));
+        let right_gain = F::new(fastapprox::fast::sin(pan_pos_radians).clamp(0.0, 1.0));
         [signal * left_gain, signal * right_gain]
     }
 }
-- 
2.43.0


From 0add2b03a2ff8384193fa55ca64e045b4ddf5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 36/41] fix: LogProbe logs every requested number of frames

---
 knaster_core_dsp/src/ugens/util.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index de0aa01..25f3f4f 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -99,9 +99,8 @@ impl<F: Float> LogProbe<F> {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
             self.sample_counter = self.samples_between_logs;
-        } else {
-            self.sample_counter -= 1;
         }
+        self.sample_counter = self.sample_counter.saturating_sub(1);
         []
     }
 }
-- 
2.43.0


From 5e2fc18be50f1015c1ec415b8f36f798b361e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 37/41] fix: the range of an enumeration parameter covers
 exactly its choices

---
 knaster_core/src/parameters.rs | 6 +++---
 knaster_macros/src/lib.rs      | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/knaster_core/src/parameters.rs b/knaster_core/src/parameters.rs
index 95955a0..7d94b9d 100644
--- a/knaster_core/src/parameters.rs
+++ b/knaster_core/src/parameters.rs
@@ -35,7 +35,7 @@ impl PInteger {
 pub trait PIntegerConvertible: From<PInteger> + Into<PInteger> {
     // fn to_pinteger(self) -> PInteger;
     // fn from_pinteger(val: PInteger) -> Self;
-    /// The range of values that are valid for the type converted to/from a PInteger.
+    /// The inclusive range of values that are valid for the type converted to/from a PInteger.
     fn pinteger_range() -> (PInteger, PInteger);
     /// Descriptions of each value of a PInteger, if any.
     fn pinteger_descriptions(v: PInteger) -> Option<&'static str>;
@@ -190,7 +190,7 @@ impl Default for PFloatHint {
 pub struct PIntegerHint {
     /// Default value of parameter
     pub default: Option<PInteger>,
-    /// Legal range of values for parameter
+    /// Legal range of values for parameter, inclusive
     pub range: (PInteger, PInteger),
     /// Descriptions for each legal value, if available. This is most useful when the PInteger is
     /// used to represent different enum variants with names.
@@ -213,7 +213,7 @@ impl PIntegerHint {
     /// Returns all the descriptions of the values for this parameter.
     pub fn descriptions(&self) -> Option<crate::core::vec::Vec<(PInteger, String)>> {
         self.value_descriptions.map(|func| {
-            (self.range.0.0..self.range.1.0)
+            (self.range.0.0..=self.range.1.0)
                 .map(|pi| {
                     (
                         PInteger(pi),
diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..fd943c6 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -22,14 +22,15 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
 
     let ident = input.ident;
 
-    let (len, descriptions) = match input.data {
+    let (last, descriptions) = match input.data {
         syn::Data::Enum(enum_item) => {
             let descriptions = enum_item
                 .variants
                 .iter()
                 .map(|v| v.ident.to_string())
                 .collect::<Vec<_>>();
-            (enum_item.variants.len(), descriptions)
+            // The range is inclusive
+            (enum_item.variants.len().saturating_sub(1), descriptions)
         }
         _ => panic!("KnasterIntegerParameter only works on Enums"),
     };
@@ -55,7 +56,7 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
         fn pinteger_range() -> (PInteger, PInteger) {
             (
                 PInteger(0),
-                PInteger(#len),
+                PInteger(#last),
             )
         }
         fn pinteger_descriptions(v: PInteger) -> Option<&'static str> {
-- 
2.43.0


From fa651ea47cf22e00648893a4eff7c51a6d78da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 38/41] fix: a smoothing setting on a unit without smoothing
 changes nothing

---
 knaster_macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index fd943c6..af59355 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -758,6 +758,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0


From d88ffed89a7a9b1f08cacc0db6bdd4c50c449b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 39/41] fix: setting a parameter by an index that does not
 exist is an error

---
 knaster_graph/src/handle.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index 19ba41b..13baaac 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -241,7 +241,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -299,7 +304,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From 37ef4b51bf46c6fd0bae34d055bb8fe077ae395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 40/41] fix: the audio thread never frees a scheduling token

---
 knaster_graph/src/graph.rs      |  1 +
 knaster_graph/src/handle.rs     | 20 ++++++++++++++++++++
 knaster_graph/src/scheduling.rs |  8 ++++++++
 3 files changed, 29 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index cefeca2..adc76b1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -236,6 +236,7 @@ impl<F: Float> Graph<F> {
             scheduling_event_producer: SchedulingChannelSender(
                 Arc::new(Mutex::new(scheduling_event_producer)),
                 num_unapplied_parameter_changes.clone(),
+                Arc::new(Mutex::new(Vec::new())),
             ),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index 13baaac..f703aee 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -43,6 +43,9 @@ pub struct SchedulingChannelSender(
     pub(crate) Arc<Mutex<SchedulingChannelProducer>>,
     /// The number of events that have been sent, but not yet been applied on the audio thread.
     pub(crate) Arc<AtomicUsize>,
+    /// The tokens of events that have been sent. They are kept here so that the audio thread never
+    /// frees the last clone of a token.
+    pub(crate) Arc<Mutex<Vec<SchedulingToken>>>,
 );
 impl SchedulingChannelSender {
     /// Push an event unless there are already as many events waiting to be applied as the audio
@@ -52,6 +55,9 @@ impl SchedulingChannelSender {
         producer: &mut SchedulingChannelProducer,
         event: SchedulingEvent,
     ) -> Result<(), GraphError> {
+        if let Some(token) = &event.token {
+            self.keep_token(token);
+        }
         let result = if self.1.load(Ordering::Acquire) >= producer.buffer().capacity() {
             Err(rtrb::PushError::Full(event))
         } else {
@@ -62,6 +68,20 @@ impl SchedulingChannelSender {
         };
         result.map_err(|e| GraphError::PushChangeError(e.to_string()))
     }
+    /// Keep a clone of the token until it is no longer in use anywhere else.
+    fn keep_token(&self, token: &SchedulingToken) {
+        #[cfg(feature = "std")]
+        let mut tokens = match self.2.lock() {
+            Ok(t) => t,
+            Err(t) => t.into_inner(),
+        };
+        #[cfg(not(feature = "std"))]
+        let mut tokens = self.2.lock();
+        tokens.retain(|t| !t.is_last_clone());
+        if !tokens.iter().any(|t| t.is_clone_of(token)) {
+            tokens.push(token.clone());
+        }
+    }
     /// Send a scheduling event to the audio thread.
     ///
     /// # Errors
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index f2c25cb..2f7835e 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -164,6 +164,14 @@ impl SchedulingToken {
     pub fn is_activated(&self) -> bool {
         self.token.load(crate::core::sync::atomic::Ordering::SeqCst)
     }
+    /// True if no other clone of the token exists.
+    pub(crate) fn is_last_clone(&self) -> bool {
+        Arc::strong_count(&self.token) == 1
+    }
+    /// True if both are clones of the same token.
+    pub(crate) fn is_clone_of(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.token, &other.token)
+    }
     /// Activate the token
     /// The token will send itself to the top level graph where it will be
     /// activated at the start of a block. This is done to ensure that all
-- 
2.43.0


From b72728bdeb9404b9571466c3bcc2c897fc13dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:28 +0000
Subject: [PATCH 41/41] fix: a smoothing setting for an envelope or a wrapper's
 own parameter changes nothing

---
 knaster_core_dsp/src/ugens/envelopes.rs    | 8 ++++++--
 knaster_core_dsp/src/wrappers_core/math.rs | 5 +++++
 knaster_graph/src/wrappers_graph/done.rs   | 5 +++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 1e5bf9e..4abcec2 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -291,7 +291,7 @@ mod alloc_envelopes {
 
     use core::marker::PhantomData;
 
-    use knaster_core::{AudioCtx, PInteger, ParameterHint, ParameterValue, UGen, UGenFlags};
+    use knaster_core::{AudioCtx, PInteger, ParameterHint, ParameterValue, UGen, UGenFlags, rt_log};
     use knaster_core::{
         Float, Frame,
         numeric_array::NumericArray,
@@ -455,7 +455,11 @@ mod alloc_envelopes {
             ]
             .into()
         }
-        fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+        fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+            if let ParameterValue::Smoothing(_, _) = value {
+                rt_log!(ctx.logger(); "Error setting parameter smoothing for Envelope, wrapper does not exist. Index: ", index);
+                return;
+            }
             match index {
                 0 => {
                     self.time_scale = F::new(value.float().unwrap()).to_f64();
diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..22ed305 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -2,6 +2,7 @@ use crate::core::ops::Add;
 use knaster_core::{
     AudioCtx, Float, FloatMethods, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
     numeric_array::NumericArray,
+    rt_log,
     typenum::{Add1, Unsigned, bit::B1},
 };
 
@@ -91,6 +92,10 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
+            if let ParameterValue::Smoothing(_, _) = value {
+                rt_log!(ctx.logger(); "Error setting parameter smoothing for WrMath, wrapper does not exist. Index: ", index);
+                return;
+            }
             self.value = T::Sample::new(value.float().unwrap());
         } else {
             T::param_apply(&mut self.ugen, ctx, index, value)
diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index f6d1be0..4dca73a 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -14,6 +14,7 @@ use knaster_core::numeric_array::NumericArray;
 use knaster_core::typenum::{Add1, B1, Unsigned};
 use knaster_core::{
     AudioCtx, Block, BlockRead, Done, Frame, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
+    rt_log,
 };
 
 /// Wrapper that can free a node once it has been marked as done.
@@ -113,6 +114,10 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
+            if let ParameterValue::Smoothing(_, _) = value {
+                rt_log!(ctx.logger(); "Error setting parameter smoothing for WrDone, wrapper does not exist. Index: ", index);
+                return;
+            }
             self.done_action = value.integer().unwrap().into();
         } else {
             self.ugen.param_apply(ctx, index, value);
-- 
2.43.0

