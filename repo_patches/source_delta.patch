From 97d123cfa044b24b8a9ed27a03d94da1e9e326cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:22 +0000
Subject: [PATCH 01/31] fix: refuse cache values larger than the capacity
 instead of underflowing

---
 src/cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index fa137e2..8270f58 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -132,6 +132,10 @@ impl CacheImpl {
         }
 
         let value_bytes = value.size_bytes();
+        if value_bytes > self.capacity_bytes {
+            error!("Cannot insert into Cache; value is larger than the capacity.");
+            return;
+        }
 
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-- 
2.43.0


From 8fe6dc9c5cb75eae2d31819bb6afb00dc435ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:22 +0000
Subject: [PATCH 02/31] fix: account for the replaced value when a cache key is
 inserted again

---
 src/cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 8270f58..ff95acc 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -137,6 +137,12 @@ impl CacheImpl {
             return;
         }
 
+        // Evict the previous value stored with the same key.
+        if let Some(old_value) = self.lru_hash_map.remove(&key) {
+            self.used_bytes -= old_value.size_bytes();
+            self.evictions += 1;
+        }
+
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
         if expected_bytes >= self.capacity_bytes {
-- 
2.43.0


From 6acee67ce89a910bb96f8e348b53aae17df3b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:22 +0000
Subject: [PATCH 03/31] fix: do not evict more cache entries than needed

---
 src/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index ff95acc..425770e 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -145,7 +145,7 @@ impl CacheImpl {
 
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-        if expected_bytes >= self.capacity_bytes {
+        if expected_bytes > self.capacity_bytes {
             let require_used = self.capacity_bytes - value_bytes;
             let free_bytes_needed = self.used_bytes - require_used;
             self.evict_bytes(free_bytes_needed);
@@ -202,7 +202,7 @@ impl CacheImpl {
             false => self.used_bytes - n_bytes,
         };
 
-        while (self.used_bytes >= requested_capacity) && (self.lru_hash_map.len() > 0) {
+        while (self.used_bytes > requested_capacity) && (self.lru_hash_map.len() > 0) {
             self.evict();
         }
     }
-- 
2.43.0


From db864971f47946d358b0561a152fe7a978806b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:09 +0000
Subject: [PATCH 04/31] fix: removed nodes no longer exist and adding a node
 after a removal works

---
 src/graph.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index e9fd9a3..641da82 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -95,14 +95,19 @@ impl GraphImpl {
     /// Add a new node to the graph.
     pub fn add_node(&mut self, node_box: Box<NodeImpl>) -> usize {
         let id = node_box.get_id();
-        let nodes_index = self.nodes.len();
-        self.nodes.push(node_box);
-        self.ids.push(id);
 
         self.state = GraphState::Dirty;
         let index = self.graph.add_node(id).index();
         debug!("Add Node index={} id={}", index, id);
-        assert_eq!(index, nodes_index);
+        if index < self.nodes.len() {
+            // The graph re-uses the index of a removed node.
+            self.nodes[index] = node_box;
+            self.ids[index] = id;
+        } else {
+            assert_eq!(index, self.nodes.len());
+            self.nodes.push(node_box);
+            self.ids.push(id);
+        }
         index
     }
 
@@ -249,7 +254,12 @@ impl GraphImpl {
     /// Return a node index of the node with the given hash.
     fn find_node_index_from_id(&self, node_id: u64) -> Option<usize> {
         debug!("find_node_index_from_id {:?}.", node_id);
-        let maybe_node_idx = self.ids.iter().position(|&v| v == node_id);
+        // Removed nodes keep their slot in 'ids', but not in the graph.
+        let maybe_node_idx = self
+            .ids
+            .iter()
+            .enumerate()
+            .position(|(i, &v)| v == node_id && self.graph.contains_node(NodeIdx::new(i)));
         match maybe_node_idx {
             Some(value) => debug!("Node found: id={} index={}", node_id, value),
             None => warn!("Node NOT found: id={}", node_id),
-- 
2.43.0


From 379ffbad4d4f5a4d633ed4f4efc063b338a10a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:17 +0000
Subject: [PATCH 05/31] fix: each input of a node keeps exactly its latest
 connection

---
 src/graph.rs | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 641da82..d8c248d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -288,21 +288,15 @@ impl GraphImpl {
         let incoming_edges = self.graph.edges_directed(dst_index, Direction::Incoming);
         let edges_existing: Vec<_> = incoming_edges
             .into_iter()
-            .take_while(|x| *x.weight() == input_num)
-            .map(|x| (x.source(), x.target()))
+            .filter(|x| *x.weight() == input_num)
+            .map(|x| x.id())
             .collect();
 
         // Remove the existing edges first.
-        for (edge_src_index, edge_dst_index) in edges_existing {
-            if let Some(edge_index) = self.graph.find_edge(edge_src_index, edge_dst_index) {
-                debug!(
-                    "Remove edge: src_index={:#?} dst_index={:#?} edge_index={:#?}",
-                    edge_src_index, edge_dst_index, edge_index
-                );
-                self.graph.remove_edge(edge_index);
-                self.state = GraphState::Dirty;
-                ()
-            }
+        for edge_index in edges_existing {
+            debug!("Remove edge: edge_index={:#?}", edge_index);
+            self.graph.remove_edge(edge_index);
+            self.state = GraphState::Dirty;
         }
     }
 
@@ -337,7 +331,7 @@ impl GraphImpl {
 
         self.disconnect_input(dst_node_id, input_num);
 
-        self.graph.update_edge(src_index, dst_index, input_num);
+        self.graph.add_edge(src_index, dst_index, input_num);
         self.state = GraphState::Dirty;
     }
 
@@ -354,23 +348,18 @@ impl GraphImpl {
         node_indexes
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
+    // Get the nodes directly connected to the inputs of the given
+    // node, ordered by input number. A node connected to more than
+    // one input is returned once for each input.
     fn find_direct_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-        while let Some((node, depth)) = walker.next(&self.graph) {
-            if depth == 0 {
-                // Skip the current level.
-                continue;
-            }
-            if depth > 1 {
-                break;
-            }
-            node_indexes.push(node);
-        }
-        node_indexes
+        let mut inputs: Vec<_> = self
+            .graph
+            .edges_directed(start_index, Direction::Incoming)
+            .map(|x| (*x.weight(), x.source()))
+            .collect();
+        inputs.sort_by_key(|x| x.0);
+        inputs.into_iter().map(|x| x.1).collect()
     }
 
     /// Get upstream parent inputs (so we can calculate the node
-- 
2.43.0


From 00d278365db6ba3f27b2cc841e3623af14e068b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:49 +0000
Subject: [PATCH 06/31] fix: execute nodes in dependency order, once per frame,
 and report cycles as errors

---
 src/graph.rs | 55 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index d8c248d..23e735d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,10 +23,9 @@ use anyhow::Result;
 use log::{debug, error, warn};
 use petgraph;
 use petgraph::dot::{Config, Dot};
-use petgraph::visit::EdgeRef;
+use petgraph::visit::{DfsPostOrder, EdgeRef, Reversed};
 use petgraph::Direction;
 use rustc_hash::FxHashMap;
-use std::collections::VecDeque;
 use std::rc::Rc;
 use std::time::Instant;
 
@@ -45,7 +44,6 @@ use crate::data::Identifier;
 use crate::data::NodeComputeMode;
 use crate::data::NodeIdx;
 use crate::data::NodeWeight;
-use crate::graphiter::UpstreamEvalSearch;
 use crate::node::NodeImpl;
 use crate::stream::StreamDataImpl;
 use crate::stream::StreamDataImplRc;
@@ -335,16 +333,18 @@ impl GraphImpl {
         self.state = GraphState::Dirty;
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
+    // Get the nodes to be computed, going upstream from the starting
+    // node. Every node comes before all the nodes upstream of it.
     fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
+        let upstream_graph = Reversed(&self.graph);
+        let mut walker = DfsPostOrder::new(upstream_graph, start_index);
 
-        while let Some((node, _depth)) = walker.next(&self.graph) {
+        let mut node_indexes = Vec::<NodeIdx>::new();
+        while let Some(node) = walker.next(upstream_graph) {
             node_indexes.push(node);
         }
+        node_indexes.reverse();
         node_indexes
     }
 
@@ -380,7 +380,8 @@ impl GraphImpl {
             if let Some(stream_data) = stream_data_cache.get(&parent_index) {
                 inputs.push(stream_data.clone());
             } else {
-                panic!("Parent node index is missing: {}", parent_index);
+                error!("Parent node index is missing: {}", parent_index);
+                return Err(ErrorCode::Invalid);
             }
         }
         Ok(inputs)
@@ -392,7 +393,7 @@ impl GraphImpl {
         &self,
         node_idx: NodeIdx,
         hash_cache: &FxHashMap<GraphIdx, HashValue>,
-    ) -> Vec<HashValue> {
+    ) -> Result<Vec<HashValue>, ErrorCode> {
         let mut input_hash_values = Vec::<HashValue>::new();
 
         let parent_node_indexes = self.find_direct_upstream_nodes(node_idx.index());
@@ -404,10 +405,12 @@ impl GraphImpl {
             if let Some(hash_value) = hash_cache.get(&parent_index) {
                 input_hash_values.push(*hash_value);
             } else {
-                panic!("Parent node index is missing: {}", parent_index);
+                // Nodes connected in a cycle cannot be computed.
+                error!("Parent node index is missing: {}", parent_index);
+                return Err(ErrorCode::Invalid);
             }
         }
-        input_hash_values
+        Ok(input_hash_values)
     }
 
     /// Compute the node.
@@ -487,20 +490,22 @@ impl GraphImpl {
             debug!("Compute Node Hash: {:?}", node_index);
             let node = &self.nodes[node_index.index()];
             let input_hash_values =
-                self.compute_node_input_hash_values(*node_index, &mut hash_cache);
+                self.compute_node_input_hash_values(*node_index, &mut hash_cache)?;
             let hash_value = node.hash(frame, &input_hash_values);
             hash_cache.insert(node_index.index(), hash_value);
             hash_values.push(hash_value);
         }
 
         // Validate node, start at node and walk up the graph.
-        let mut validated_node_indexes = Vec::new();
-        let mut node_stack = VecDeque::<(NodeIdx, NodeComputeMode)>::new();
-        let start_node_index = node_indexes[0];
-        let start_node_compute_mode = NodeComputeMode::ALL;
-        node_stack.push_front((start_node_index, start_node_compute_mode));
-        validated_node_indexes.push((start_node_index, start_node_compute_mode));
-        while let Some((node_index, node_compute_mode)) = node_stack.pop_front() {
+        //
+        // A node needed by more than one node is computed once, with
+        // everything any of them asked for.
+        let mut compute_modes = FxHashMap::<GraphIdx, NodeComputeMode>::default();
+        for node_index in node_indexes.iter() {
+            compute_modes.insert(node_index.index(), NodeComputeMode::NONE);
+        }
+        compute_modes.insert(node_indexes[0].index(), NodeComputeMode::ALL);
+        for node_index in node_indexes.iter() {
             debug!("Validate Node: {:?}", node_index);
             let input_node_indexes = self.find_direct_upstream_nodes(node_index.index());
             let mut input_nodes = Vec::<&Box<NodeImpl>>::new();
@@ -510,6 +515,7 @@ impl GraphImpl {
                 input_nodes.push(up_node);
             }
 
+            let node_compute_mode = compute_modes[&node_index.index()];
             let node = &self.nodes[node_index.index()];
             let hash_value = hash_cache.get(&node_index.index()).unwrap();
             let node_compute_modes =
@@ -519,14 +525,15 @@ impl GraphImpl {
                 input_node_indexes.iter().zip(node_compute_modes.iter())
             {
                 debug!("Validate Up Node: {:?}", up_node_index);
-                node_stack.push_front((*up_node_index, *up_node_compute_mode));
-                validated_node_indexes.push((*up_node_index, *up_node_compute_mode));
+                if let Some(mode) = compute_modes.get_mut(&up_node_index.index()) {
+                    *mode = *mode | *up_node_compute_mode;
+                }
             }
         }
 
         // Start at upstream nodes to compute first.
         let mut stream_data_cache = FxHashMap::<GraphIdx, Rc<StreamDataImpl>>::default();
-        for (node_index, node_compute_mode) in validated_node_indexes.iter().rev() {
+        for node_index in node_indexes.iter().rev() {
             debug!("Compute Node: {:?}", node_index);
 
             let node_inputs =
@@ -535,7 +542,7 @@ impl GraphImpl {
                 &node_inputs,
                 node_index.index(),
                 frame,
-                *node_compute_mode,
+                compute_modes[&node_index.index()],
                 cache,
                 &mut stream_data_cache,
             )?;
-- 
2.43.0


From e3ec6b081adaefb9231a17ef2fdf88ff8d306913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:28 +0000
Subject: [PATCH 07/31] fix: a disabled viewer passes its input through

---
 src/node/viewer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 4e1a592..2f6c07a 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -173,11 +173,6 @@ impl Operation for ViewerOperation {
         // debug!("Inputs: {:?}", inputs);
         // debug!("Output: {:?}", output);
 
-        let enable = attr_block.get_attr_i32("enable");
-        if enable != 1 {
-            return NodeStatus::Valid;
-        }
-
         let mut stream_data = match inputs.len() {
             0 => {
                 // No input given, return an empty default stream.
@@ -189,6 +184,12 @@ impl Operation for ViewerOperation {
             }
         };
 
+        let enable = attr_block.get_attr_i32("enable");
+        if enable != 1 {
+            *output = std::rc::Rc::new(stream_data);
+            return NodeStatus::Valid;
+        }
+
         let bake_option_initial = BakeOption::from(attr_block.get_attr_i32("bake_option"));
         debug!("bake_option={:#?}", bake_option_initial);
 
-- 
2.43.0


From 5ca477062353707bb6e59b38a08dc95c3771d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:36 +0000
Subject: [PATCH 08/31] fix: a viewer baking everything still needs the pixels
 of its input

---
 src/node/viewer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 2f6c07a..7290fbe 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -420,8 +420,7 @@ impl Validate for ViewerValidate {
                             & (NodeComputeMode::ALL
                                 - NodeComputeMode::COLOR_SPACE
                                 - NodeComputeMode::COLOR
-                                - NodeComputeMode::DEFORMER
-                                - NodeComputeMode::PIXEL),
+                                - NodeComputeMode::DEFORMER),
                     ),
                     _ => panic!("BakeOption is invalid value: {:#?}", bake_option),
                 }
-- 
2.43.0


From a84b229de65d4d94afdd18264936434d60dc3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:45 +0000
Subject: [PATCH 09/31] fix: a viewer does not apply baked color corrections
 twice on a cache hit

---
 src/node/viewer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 7290fbe..ba70901 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -35,6 +35,7 @@ use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
 use crate::cxxbridge::ffi::ImageSpec;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -268,6 +269,11 @@ impl Operation for ViewerOperation {
             if bake_option == BakeOption::All {
                 stream_data.clear_deformers();
             }
+            // The same applies to the baked color corrections.
+            if bake_option == BakeOption::All || bake_option == BakeOption::ColorSpaceAndGrade {
+                stream_data.set_color_matrix(Matrix4::identity());
+                stream_data.clear_color_ops();
+            }
 
             stream_data.set_data_window(data_window);
             stream_data.set_display_window(display_window);
-- 
2.43.0


From bc48dccc4627216c217db8b47393cd32944c9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:54 +0000
Subject: [PATCH 10/31] fix: a read node without an image file does not output
 another node's data

---
 src/node/read_image.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 385f688..41b41f3 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -220,14 +220,13 @@ impl Operation for ReadImageOperation {
 
                 *output = std::rc::Rc::new(stream_data);
             } else {
-                let enable = attr_block.get_attr_i32("enable");
-                if enable != 1 {
-                    let mut stream_data = StreamDataImpl::new();
-                    stream_data.set_hash(hash_value);
-                    *output = std::rc::Rc::new(stream_data);
-                    return NodeStatus::Valid;
-                }
+                // The path exists, but is not an image file.
+                let stream_data = StreamDataImpl::new();
+                *output = std::rc::Rc::new(stream_data);
+                return NodeStatus::Warning;
             }
+        } else {
+            *output = std::rc::Rc::new(StreamDataImpl::new());
         }
         NodeStatus::Valid
     }
-- 
2.43.0


From 112d16c45291cbd53ce30641425e2a0566ab6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:02 +0000
Subject: [PATCH 11/31] fix: the hash of an enabled read node always depends on
 the file path

---
 src/node/read_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 41b41f3..c26bb23 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -235,7 +235,7 @@ impl Operation for ReadImageOperation {
 impl AttrBlock for ReadImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
-- 
2.43.0


From bf19437a46acd166b85f02a025362e59f5340b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:40 +0000
Subject: [PATCH 12/31] fix: the hash of a lens distort node depends on the
 direction

---
 src/node/lens_distort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/lens_distort.rs b/src/node/lens_distort.rs
index da2a418..6822b22 100644
--- a/src/node/lens_distort.rs
+++ b/src/node/lens_distort.rs
@@ -75,6 +75,7 @@ impl hash::Hash for LensDistortAttrs {
         if self.enable == 0 {
             return;
         }
+        self.direction.hash(state);
         HashableF32::new(self.lens_center_offset_x).hash(state);
         HashableF32::new(self.lens_center_offset_y).hash(state);
         HashableF32::new(self.distortion).hash(state);
-- 
2.43.0


From 206bcb0c18698200af3abd1a53df5c2cb503d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:49 +0000
Subject: [PATCH 13/31] fix: merge uses the data window of the baked B image

---
 src/node/merge_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index 59ad026..a8dba4b 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -161,8 +161,8 @@ fn do_image_process(
     let pixel_block_b_box = Box::new(pixel_block_b);
     let image_b = ImageShared {
         pixel_block: pixel_block_b_box,
-        display_window: stream_data_b.display_window(),
-        data_window: stream_data_b.data_window(),
+        display_window: display_window_b,
+        data_window: data_window_b,
         spec: image_spec_b,
     };
 
-- 
2.43.0


From dca8431938cab8b41c08aec10cc550ab3dd3979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 14/31] fix: cropping with black outside adds the black edge to
 the pixels

---
 src/ops/imagecrop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ops/imagecrop.rs b/src/ops/imagecrop.rs
index bc0708e..375fe02 100644
--- a/src/ops/imagecrop.rs
+++ b/src/ops/imagecrop.rs
@@ -104,11 +104,19 @@ pub fn crop_image_in_place(
         true => crop_window,
     };
 
-    let pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+    let mut pixel_block_box = Box::new(PixelBlock::from_pixel_block(
         &src_pixel_block,
         src_data_window,
         crop_window,
     ));
+    if black_outside {
+        // Add the black edge pixels around the cropped pixels.
+        pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+            &pixel_block_box,
+            crop_window,
+            new_data_window,
+        ));
+    }
 
     debug!("Display Window: {:?}", new_display_window);
     debug!("Data Window: {:?}", new_data_window);
-- 
2.43.0


From aa21100323595606ff2fb68a9af2c4fa027813fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:08 +0000
Subject: [PATCH 15/31] fix: the crop node's output is the baked image on a
 cache hit and a miss alike

---
 src/node/crop_image.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index f2a39f1..df5f31d 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -32,6 +32,7 @@ use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -191,12 +192,13 @@ impl Operation for CropImageOperation {
 
         let mut status = NodeStatus::Valid;
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -221,12 +223,17 @@ impl Operation for CropImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
@@ -243,14 +250,26 @@ impl Operation for CropImageOperation {
                 }
 
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
+        // The pixels are baked; the stream must not apply the color
+        // corrections and deformers again, also on a cache hit.
+        stream_data.set_color_matrix(Matrix4::identity());
+        stream_data.clear_color_ops();
+        stream_data.clear_deformers();
+
         stream_data.set_hash(hash_value);
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
-- 
2.43.0


From a6a0953041b9d4bdd0e337001f91807cf0a5030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:18 +0000
Subject: [PATCH 16/31] fix: a failed resample is not cached

---
 src/node/resample_image.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/node/resample_image.rs b/src/node/resample_image.rs
index d68e213..fed27b1 100644
--- a/src/node/resample_image.rs
+++ b/src/node/resample_image.rs
@@ -177,13 +177,15 @@ impl Operation for ResampleImageOperation {
                         }
 
                         let pixel_block_rc = Rc::new(*img.pixel_block);
-                        let cached_img = CachedImage {
-                            pixel_block: pixel_block_rc.clone(),
-                            spec: img.spec,
-                            data_window: img.data_window,
-                            display_window: img.display_window,
-                        };
-                        cache.insert(hash_value, cached_img);
+                        if ok {
+                            let cached_img = CachedImage {
+                                pixel_block: pixel_block_rc.clone(),
+                                spec: img.spec,
+                                data_window: img.data_window,
+                                display_window: img.display_window,
+                            };
+                            cache.insert(hash_value, cached_img);
+                        }
                         (pixel_block_rc.clone(), img.data_window, img.display_window)
                     }
                 },
-- 
2.43.0


From 6677041228bc80f8bdf11ab7734eb19089008fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:07 +0000
Subject: [PATCH 17/31] fix: the pixel buffer covers all bytes of the pixels

---
 src/pixelblock/utils.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/pixelblock/utils.rs b/src/pixelblock/utils.rs
index f639306..aa4d9a5 100644
--- a/src/pixelblock/utils.rs
+++ b/src/pixelblock/utils.rs
@@ -193,7 +193,12 @@ pub fn get_pixel_index(
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f32], &[u8]>(pixel_slice) };
+    let pixels_u8 = unsafe {
+        std::slice::from_raw_parts(
+            pixel_slice.as_ptr() as *const u8,
+            std::mem::size_of_val(pixel_slice) / std::mem::size_of::<u8>(),
+        )
+    };
     pixels_u8
 }
 
@@ -202,7 +207,12 @@ pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f16], &[u8]>(pixel_slice) };
+    let pixels_u8 = unsafe {
+        std::slice::from_raw_parts(
+            pixel_slice.as_ptr() as *const u8,
+            std::mem::size_of_val(pixel_slice) / std::mem::size_of::<u8>(),
+        )
+    };
     pixels_u8
 }
 
@@ -211,7 +221,12 @@ pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_u16_to_u8(pixel_slice: &[u16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[u16], &[u8]>(pixel_slice) };
+    let pixels_u8 = unsafe {
+        std::slice::from_raw_parts(
+            pixel_slice.as_ptr() as *const u8,
+            std::mem::size_of_val(pixel_slice) / std::mem::size_of::<u8>(),
+        )
+    };
     pixels_u8
 }
 
@@ -220,7 +235,12 @@ pub fn transmute_slice_u16_to_u8(pixel_slice: &[u16]) -> &[u8] {
 /// aligned. u16 is 2-byte aligned, which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f32_to_u16(pixel_slice: &[f32]) -> &[u16] {
-    let pixels_u16 = unsafe { std::mem::transmute::<&[f32], &[u16]>(pixel_slice) };
+    let pixels_u16 = unsafe {
+        std::slice::from_raw_parts(
+            pixel_slice.as_ptr() as *const u16,
+            std::mem::size_of_val(pixel_slice) / std::mem::size_of::<u16>(),
+        )
+    };
     pixels_u16
 }
 
@@ -229,7 +249,12 @@ pub fn transmute_slice_f32_to_u16(pixel_slice: &[f32]) -> &[u16] {
 /// aligned. f16 is 2-byte aligned, which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f32_to_f16(pixel_slice: &[f32]) -> &[f16] {
-    let pixels_f16 = unsafe { std::mem::transmute::<&[f32], &[f16]>(pixel_slice) };
+    let pixels_f16 = unsafe {
+        std::slice::from_raw_parts(
+            pixel_slice.as_ptr() as *const f16,
+            std::mem::size_of_val(pixel_slice) / std::mem::size_of::<f16>(),
+        )
+    };
     pixels_f16
 }
 
-- 
2.43.0


From 5c560411bb21378c4d123af27ac05053d7675012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 18/31] fix: clamp the configured cache capacity to 0-100
 percent

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index f5dc195..8f1a802 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -59,7 +59,7 @@ impl ConfigCache {
     }
 
     pub fn ram_capacity_percent(&self) -> f32 {
-        (self.ram_capacity_percent / 100.0).min(0.0).max(1.0)
+        (self.ram_capacity_percent / 100.0).max(0.0).min(1.0)
     }
 }
 
-- 
2.43.0


From 27817e64918b2d2cd97eea4a439adc280fad1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:24 +0000
Subject: [PATCH 19/31] fix: row and column lookups of pixel blocks

---
 src/pixelblock/pixelblock/index.rs | 4 ++--
 src/pixelblock/pixelblock/row.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pixelblock/pixelblock/index.rs b/src/pixelblock/pixelblock/index.rs
index ca4d4ef..c475671 100644
--- a/src/pixelblock/pixelblock/index.rs
+++ b/src/pixelblock/pixelblock/index.rs
@@ -53,11 +53,11 @@ impl BlockIndex {
     }
 
     pub fn column(&self) -> usize {
-        self.index % (self.width * self.num_channels)
+        (self.index / self.num_channels) % self.width
     }
 
     pub fn row(&self) -> usize {
-        self.index / (self.height * self.num_channels)
+        self.index / (self.width * self.num_channels)
     }
 }
 
diff --git a/src/pixelblock/pixelblock/row.rs b/src/pixelblock/pixelblock/row.rs
index 2ba0507..43e1eee 100644
--- a/src/pixelblock/pixelblock/row.rs
+++ b/src/pixelblock/pixelblock/row.rs
@@ -58,7 +58,7 @@ impl<'a> Index<usize> for RowFloat32<'a> {
     type Output = RowValue;
 
     fn index(&self, ix: usize) -> &Self::Output {
-        &self.inner.as_slice_f32()[(self.row_index * self.inner.width() as usize) + ix]
+        &self.inner.as_slice_f32()[(self.row_index * self.inner.width() as usize * self.inner.num_channels() as usize) + ix]
     }
 }
 
-- 
2.43.0


From 09618e2b862ccb71e1912bdd44efc4f465867285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 20/31] fix: frame padding of any length

---
 src/pathutils.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/pathutils.rs b/src/pathutils.rs
index bf0f454..425fc6c 100644
--- a/src/pathutils.rs
+++ b/src/pathutils.rs
@@ -71,22 +71,7 @@ fn create_expanded_string(
         index_range.start_index, index_range.end_index, index_range.padding_count
     );
 
-    // FIXME: Create a way to use the padding_count to dynamically
-    // change the number formatted into the string. "format!" is a
-    // compile time creation. This is a pretty bad hack.
-    let frame_string = match index_range.padding_count {
-        0 => "".to_string(),
-        1 => format!("{:01}", frame),
-        2 => format!("{:02}", frame),
-        3 => format!("{:03}", frame),
-        4 => format!("{:04}", frame),
-        5 => format!("{:05}", frame),
-        6 => format!("{:06}", frame),
-        7 => format!("{:07}", frame),
-        8 => format!("{:08}", frame),
-        9 => format!("{:09}", frame),
-        _ => "".to_string(),
-    };
+    let frame_string = format!("{:0width$}", frame, width = index_range.padding_count);
     expanded_string.replace_range(
         index_range.start_index..index_range.end_index,
         &frame_string,
-- 
2.43.0


From 82319d253dbc3ad415556020d9123a081ff6b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 21/31] fix: a crop window with its maximum below its minimum
 is empty

---
 src/ops/imagecrop.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops/imagecrop.rs b/src/ops/imagecrop.rs
index 375fe02..14d2df3 100644
--- a/src/ops/imagecrop.rs
+++ b/src/ops/imagecrop.rs
@@ -75,6 +75,13 @@ pub fn crop_image_in_place(
     _intersect: bool,
 ) -> bool {
     let start = Instant::now();
+    // A window with its maximum below its minimum is empty.
+    let crop_window = BBox2Di::new(
+        crop_window.min_x,
+        crop_window.min_y,
+        i32::max(crop_window.min_x, crop_window.max_x),
+        i32::max(crop_window.min_y, crop_window.max_y),
+    );
     let src_pixel_block = &mut *image.pixel_block;
     let src_display_window = image.display_window;
     let src_data_window = image.data_window;
-- 
2.43.0


From b33f13b8fd486671518a9d555444c3d5b2d45eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 22/31] fix: reversing a grade undoes the gamma as well as the
 linear part

---
 src/ops/colorgrade.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 393a32b..9da978f 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -72,7 +72,7 @@ fn grade_single(
                 a = 1.0;
             }
             b = -b * a;
-            value = pixel * a + b;
+            value = value * a + b;
         }
         value
     }
-- 
2.43.0


From 7ec3fba1dfdf05800fd77e92ab09cdfd83cc2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 23/31] fix: written images keep their image specification

---
 src/imageio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageio.rs b/src/imageio.rs
index 52c305b..25375a1 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -109,7 +109,7 @@ pub fn write_image(
         pixel_block: Box::new(new_pixel_block),
         display_window: new_display_window,
         data_window: new_data_window,
-        spec: ImageSpec::new(),
+        spec: image.spec.clone(),
     };
 
     if crop_to_display_window == true {
-- 
2.43.0


From 7097bdd3218616932cae5159ad306fc65bf11ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 24/31] fix: vertical translation is relative to the height of
 the window

---
 src/deformer/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deformer/transform.rs b/src/deformer/transform.rs
index bc5d7a2..bd17ac9 100644
--- a/src/deformer/transform.rs
+++ b/src/deformer/transform.rs
@@ -99,7 +99,7 @@ fn _apply(
 ) -> (f32, f32) {
     // Normalise the translate values between the image window.
     let tx = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_x);
-    let ty = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_y);
+    let ty = interp::inverse_lerp(image_window.min_y, image_window.max_y, obj.translate_y);
     let transformation_order = TransformationOrder::SRT;
     let mut out_matrix = xform::create_transform_2d(
         transformation_order,
-- 
2.43.0


From ffdf9de578d3b9db8aa49c2019ef94532caa4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 25/31] fix: rotate about the rotation center

---
 src/math/xform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/xform.rs b/src/math/xform.rs
index 0dfec13..23ddadc 100644
--- a/src/math/xform.rs
+++ b/src/math/xform.rs
@@ -54,13 +54,13 @@ fn create_rotate_2d(center_x: f32, center_y: f32, angle_degree: f32) -> na::Matr
     na::Matrix4::<f32>::new(
         c,
         -s,
-        center_x * (1.0 - c) + center_y * s,
         0.0,
+        center_x * (1.0 - c) + center_y * s,
         //
         s,
         c,
-        center_y * (1.0 - c) - center_x * s,
         0.0,
+        center_y * (1.0 - c) - center_x * s,
         //
         0.0,
         0.0,
-- 
2.43.0


From bebda4116231d4839d4c1014342a23ca25ba967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 26/31] fix: undo deformations in reverse order when baking

---
 src/deformutils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deformutils.rs b/src/deformutils.rs
index cff5f19..57865b8 100644
--- a/src/deformutils.rs
+++ b/src/deformutils.rs
@@ -136,7 +136,8 @@ pub fn apply_deformers_to_pixels(
     // user has requested, so that we can map the destination to
     // source.
     let inverse = true;
-    for deformer in &enabled_deformers {
+    // The last deformation applied is the first one to undo.
+    for deformer in enabled_deformers.iter().rev() {
         let buffer = pixel_coords.as_mut_slice();
         deformer.apply_slice_in_place(buffer, display_window_f32, inverse, stride);
     }
-- 
2.43.0


From a5932eb9407e1d201fc2cd763b51407f43252278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:24 +0000
Subject: [PATCH 27/31] fix: a transform without translation does not move
 anything

---
 src/deformer/transform.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/deformer/transform.rs b/src/deformer/transform.rs
index bd17ac9..b78b7ad 100644
--- a/src/deformer/transform.rs
+++ b/src/deformer/transform.rs
@@ -33,7 +33,6 @@ use crate::cxxbridge::ffi::TransformationOrder;
 use crate::data::FrameValue;
 use crate::deformer::Deformer;
 use crate::hashutils::HashableF32;
-use crate::math::interp;
 use crate::math::xform;
 
 #[derive(Debug, Clone)]
@@ -98,8 +97,8 @@ fn _apply(
     inverse: bool,
 ) -> (f32, f32) {
     // Normalise the translate values between the image window.
-    let tx = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_x);
-    let ty = interp::inverse_lerp(image_window.min_y, image_window.max_y, obj.translate_y);
+    let tx = obj.translate_x / (image_window.max_x - image_window.min_x);
+    let ty = obj.translate_y / (image_window.max_y - image_window.min_y);
     let transformation_order = TransformationOrder::SRT;
     let mut out_matrix = xform::create_transform_2d(
         transformation_order,
-- 
2.43.0


From 49796907b040bb39eb42b7b4b9f852f6f9040647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:49 +0000
Subject: [PATCH 28/31] fix: baked deformations keep the pixels of the data
 window in place

---
 src/ops/pixelremap.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index da43889..f1a8adf 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -21,10 +21,8 @@
 
 use log::{debug, error};
 
-use crate::cxxbridge::ffi::BBox2Df;
 use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::DataType;
-use crate::math;
 use crate::pixel::get_pixel_rgb;
 use crate::pixel::get_pixel_rgba;
 use crate::pixelblock::pixelblock::PixelBlock;
@@ -42,9 +40,7 @@ pub fn pixels_remap_coords(
     assert_eq!(src_pixel_block.data_type(), DataType::Float32);
     assert_eq!(dst_pixel_block.data_type(), DataType::Float32);
 
-    let display_window_f32 = BBox2Df::from(display_window);
     debug!("display_window = {:?}", display_window);
-    debug!("display_window_f32 = {:?}", display_window_f32);
     debug!("display_window.width() = {}", display_window.width());
     debug!("display_window.height() = {}", display_window.height());
 
@@ -102,20 +98,10 @@ pub fn pixels_remap_coords(
             let x = pixel_coords[pixel_coord_index + 0];
             let y = pixel_coords[pixel_coord_index + 1];
 
-            let x = math::interp::remap(
-                display_window_f32.min_x,
-                display_window_f32.max_x,
-                src_data_window.min_x as f32,
-                (src_data_window.max_x - 1) as f32,
-                x,
-            );
-            let y = math::interp::remap(
-                display_window_f32.min_y,
-                display_window_f32.max_y,
-                src_data_window.min_y as f32,
-                (src_data_window.max_y - 1) as f32,
-                y,
-            );
+            // The pixel of the source data window that contains the
+            // coordinate, pixel centers are at half coordinates.
+            let x = x - (src_data_window.min_x as f32) - 0.5;
+            let y = y - (src_data_window.min_y as f32) - 0.5;
 
             if src_num_channels == 4 {
                 let (r, g, b, a) = get_pixel_rgba(
-- 
2.43.0


From 9575c8f0908519ed33b155192d53726c253b06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:49 +0000
Subject: [PATCH 29/31] fix: baking deformations of an empty image

---
 src/ops/pixelremap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index f1a8adf..b1fa10b 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -79,7 +79,7 @@ pub fn pixels_remap_coords(
         dst_pixels_max_index,
     );
 
-    let pixel_coords_max_index = ((dst_height * dst_width) + 1) as usize;
+    let pixel_coords_max_index = (dst_height * dst_width * 2) as usize;
     assert!(
         pixel_coords.len() >= pixel_coords_max_index,
         "pixel_coords.len()={} pixel_coords_max_index={}",
-- 
2.43.0


From e222f72896c079ba57811375d8dd554751171f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:40 +0000
Subject: [PATCH 30/31] fix: a grade leaves channels alone that it does not
 process

---
 src/ops/colorgrade.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 9da978f..fb603fd 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -78,6 +78,15 @@ fn grade_single(
     }
 }
 
+fn mix_single(graded: f32, pixel: f32, mask: f32) -> f32 {
+    if mask == 0.0 {
+        // Not processed; the graded value may not even be finite.
+        pixel
+    } else {
+        (graded * mask) + (pixel * (1.0 - mask))
+    }
+}
+
 fn grade(
     pixel: Vector4f32,
     mask: Vector4f32,
@@ -150,10 +159,10 @@ fn grade(
         premult,
     );
     Vector4f32::new(
-        (r * mask.x) + (pixel.x * (1.0 - mask.x)),
-        (g * mask.y) + (pixel.y * (1.0 - mask.y)),
-        (b * mask.z) + (pixel.z * (1.0 - mask.z)),
-        (a * mask.w) + (pixel.w * (1.0 - mask.w)),
+        mix_single(r, pixel.x, mask.x),
+        mix_single(g, pixel.y, mask.y),
+        mix_single(b, pixel.z, mask.z),
+        mix_single(a, pixel.w, mask.w),
     )
 }
 
-- 
2.43.0


From 80028efa867b7980c32abfe0ad4b1d9cc4df37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 31/31] fix: lookup tables of colour spaces with ambiguous
 names are not mixed up in the cache

---
 src/colorlutimage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/colorlutimage.rs b/src/colorlutimage.rs
index c4a358c..aeb6bda 100644
--- a/src/colorlutimage.rs
+++ b/src/colorlutimage.rs
@@ -26,7 +26,7 @@
 //
 use log::debug;
 use std::collections::hash_map::DefaultHasher;
-use std::hash::Hasher;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
 use crate::cache::CacheImpl;
@@ -152,9 +152,9 @@ pub fn get_color_transform_3dlut(
     hasher.write(b"3DLUT Size:");
     hasher.write_i32(cube_size);
     hasher.write(b"From:");
-    hasher.write(from_color_space.as_bytes());
+    from_color_space.hash(&mut hasher);
     hasher.write(b"To:");
-    hasher.write(to_color_space.as_bytes());
+    to_color_space.hash(&mut hasher);
     let hash_value = hasher.finish();
 
     match cache.get(&hash_value) {
-- 
2.43.0

