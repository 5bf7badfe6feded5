From bfd0a38d3083f09c9155b37ec56d9af428502987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 01/15] fix: keep early PCA messages and wait for all column
 means

The decompositions of faster cluster nodes (or helper threads) could be
combined and finalized before their column means were taken in, and messages
that arrived before the node started its own decomposition were discarded.
---
 src/training/rotation/mod.rs        |  4 +++-
 src/training/rotation/pca/helper.rs |  7 ++++++-
 src/training/rotation/pca/mod.rs    | 24 +++++++++++++++++++++---
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..f0c5143 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .init(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/helper.rs b/src/training/rotation/pca/helper.rs
index 9b93b3e..a1ca02a 100644
--- a/src/training/rotation/pca/helper.rs
+++ b/src/training/rotation/pca/helper.rs
@@ -99,11 +99,15 @@ impl PCAHelper {
         } else if self.r_count == 0 && (id + threshold) >= self.neighbors.len() {
             self.r_count += 1;
             self.send_to_neighbor_or_finalize();
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0 && threshold == 0 && self.has_all_means() {
             self.finalize();
         }
     }
 
+    fn has_all_means(&self) -> bool {
+        self.n.as_ref().unwrap().len() == self.neighbors.len()
+    }
+
     fn combine_sent_r(&mut self, remote_r: Array2<f32>) {
         match &self.local_r {
             Some(local_r) => {
@@ -194,6 +198,7 @@ impl Handler<PCAHelperMessage> for PCAHelper {
                             self.n.as_ref().unwrap().clone(),
                             arr1(&[n as f32])
                         ]);
+                        self.send_to_neighbor_or_finalize();
                     } else {
                         self.means_buffer
                             .push(PCAHelperMessage::Means { columns_means, n });
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..81acc6f 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -45,8 +45,17 @@ impl PCA {
         }
     }
 
+    pub fn init(&mut self, id: usize, n_components: usize) {
+        // messages of faster cluster nodes may have arrived already
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
+    }
+
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.init(self.id, self.n_components);
     }
 }
 
@@ -59,6 +68,7 @@ pub trait PCAnalyzer {
     fn send_to_main(&mut self);
     fn next_2_power(&mut self) -> usize;
     fn send_to_neighbor_or_finalize(&mut self);
+    fn has_all_means(&self) -> bool;
     fn combine_remote_r(&mut self, remote_r: Array2<f32>);
     fn finalize(&mut self);
     fn normalize(&mut self, v: &Array2<f32>) -> Array2<f32>;
@@ -111,6 +121,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_buffer();
+        self.resolve_means_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -183,11 +195,15 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0 && threshold == 0 && self.has_all_means() {
             self.finalize()
         }
     }
 
+    fn has_all_means(&self) -> bool {
+        self.rotation.pca.n.as_ref().unwrap().len() == self.cluster_nodes.len_incl_own()
+    }
+
     fn combine_remote_r(&mut self, remote_r: Array2<f32>) {
         match &self.rotation.pca.local_r {
             Some(r) => {
@@ -271,7 +287,8 @@ impl Handler<PCAMeansMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAMeansMessage, _ctx: &mut Self::Context) -> Self::Result {
-        if self.rotation.pca.column_means.is_some() {
+        // means that arrive after the components were found belong to the next decomposition
+        if self.rotation.pca.column_means.is_some() && self.rotation.pca.components.is_none() {
             self.rotation.pca.column_means = Some(concatenate![
                 Axis(0),
                 self.rotation.pca.column_means.as_ref().unwrap().clone(),
@@ -282,6 +299,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.send_to_neighbor_or_finalize();
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
-- 
2.43.0


From 45c53e029c787c9c349304224312bf7fa6497527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 02/15] fix: order edges of the same transition independently
 of their arrival

Edges with the same target point were kept in the order in which the cluster
nodes' messages arrived, so score windows depended on the message schedule.
---
 src/data_store/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..38fb806 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -189,8 +189,9 @@ impl DataStore {
     }
 
     pub fn sort_edges(&mut self) {
+        // the edge that enters a transition precedes the edges within that transition
         self.edges
-            .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
+            .sort_by_key(|edge| (edge.get_to_id(), edge.get_from_node().get_from_id()));
     }
 
     // --- Misc
-- 
2.43.0


From eea43980fb1b9fa0bb10d9869f85c8838f553616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 03/15] fix: share the edge that closes the last score window
 with the neighbor

The overlap sent to the previous cluster node could miss the edge following
the last point of its last windows, which changed scores at partition borders.
---
 src/training/scoring/overlap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..9c3dd43 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,7 +11,9 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a score window includes the first edge after its last point
+        let to_edge_idx = (self.scoring.edges_in_time[self.parameters.query_length - 1] + 1)
+            .min(self.data_store.get_edges().len());
         let overlap = self
             .data_store
             .slice_edges(0..to_edge_idx)
-- 
2.43.0


From aa41d3f1f3831f83481fe1ce09ebc89ed024101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:41 +0000
Subject: [PATCH 04/15] fix: ask for foreign nodes between the last and first
 transition of neighbors

The first transition of a partition was connected to its predecessor only if
the previous partition's last transition ended on another cluster node, so
edges at partition borders were lost or connected to a wrong node.
---
 src/training/segmentation/mod.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..444604c 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -390,7 +390,7 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -427,21 +427,22 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
-
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+            last_transition = spanning_transition;
         }
 
+        // the next cluster node does not know which transition precedes its first transition
+        let transition = msg.transition.into_transition();
+        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+        let last_to_node_id = self.segment_id_to_assignment(last_transition.get_to_segment());
+        self.find_splits(
+            Some(last_transition),
+            Some(last_to_node_id),
+            &transition,
+            from_node_id,
+            to_node_id,
+        );
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From e5ada5413cbc2d3780f3b73733b2c786db4f03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 05/15] fix: keep the next cluster node's first point until the
 own points are segmented

The handler panicked if the message arrived before this node had rotated its
data, and joined it with an uncorrected point during self-correction.
---
 src/training/segmentation/messages.rs |  2 +-
 src/training/segmentation/mod.rs      | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..da4d70c 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,7 +9,7 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
     pub(crate) transition: MaterializedTransition,
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 444604c..0d8ebb0 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,10 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// the own points are segmented, but the next cluster node's first point is missing
+    waits_for_first_point: bool,
+    /// message of the next cluster node that arrived before the own points were segmented
+    first_point_buffer: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -97,6 +101,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waits_for_first_point = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -386,6 +394,12 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waits_for_first_point {
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+        self.segmentation.waits_for_first_point = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
-- 
2.43.0


From a2ede6c4c3d7199d6a2f355debddbf25eb53bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:11 +0000
Subject: [PATCH 06/15] fix: count own transitions once when deciding on
 self-correction

In a cluster, the transitions a node keeps were counted twice against the
clockwise ones, so a cluster skipped corrections a single node performs.
---
 src/training/segmentation/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 0d8ebb0..a5403fd 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -308,11 +308,11 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .resolve_buffer(ctx.address().recipient());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                // includes the own transitions
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From b4b1e13ae50f84ca33c1d99a41106fbb42094910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:49 +0000
Subject: [PATCH 07/15] fix: let the last cluster node take all remaining lines
 of the input

The last receiver was never recognized, so it was limited to the overlap of the
other receivers and reading panicked if more lines remained.
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..e6cead8 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -200,7 +200,7 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From 9e07c333e8859eb37fe13b23860b95170e8d9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:49 +0000
Subject: [PATCH 08/15] fix: weight the mean difference when merging standard
 deviations

The squared deviations of two partitions differ by n * m / (n + m) times the
squared difference of their means, not by one time.
---
 src/data_manager/stats_collector/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/stats_collector/std.rs b/src/data_manager/stats_collector/std.rs
index b3f7cd2..b38bc83 100644
--- a/src/data_manager/stats_collector/std.rs
+++ b/src/data_manager/stats_collector/std.rs
@@ -77,7 +77,7 @@ impl Handler<StdNodeMessage> for DataManager {
                     std_calcuation.m2 = Some(
                         msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32),
+                            + delta.clone() * delta * (*n as f32 * msg.n as f32 / global_n as f32),
                     );
 
                     std_calcuation.mean =
@@ -96,7 +96,7 @@ impl Handler<StdNodeMessage> for DataManager {
                         let delta: Array1<f32> = msg.mean.clone() - mean;
                         let m2 = msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32);
+                            + delta.clone() * delta * (*n as f32 * msg.n as f32 / global_n as f32);
                         std_calcuation.n = Some(global_n);
                         (m2 / (global_n - 1) as f32)
                             .iter()
-- 
2.43.0


From cbfe621f1b8cb1bbb39a34279aebc7ba7c1a14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:49 +0000
Subject: [PATCH 09/15] fix: do not send empty scoring instructions

With fewer scores than threads, several instructions started at the same
position and their responses overwrote each other, so scoring never ended.
---
 src/training/scoring/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..91a0704 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -84,7 +84,6 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -132,11 +131,14 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
-
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        // instructions are identified by their start, so none of them may be empty
+        let n_instructions = self.parameters.n_threads.min(score_length).max(1);
+        let n_per_thread = score_length / n_instructions;
+        let n_rest = score_length % n_instructions;
+        self.scoring.helper_protocol.n_total = n_instructions;
+
+        for i in 0..n_instructions {
+            let rest = if i == n_instructions - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From 9351335b5148f62ec6ac5a60953769745bb177f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:49 +0000
Subject: [PATCH 10/15] fix: start only as many PCA helpers as there are chunks

Helpers without a chunk never answered the helpers waiting for them.
---
 src/training/rotation/pca/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 81acc6f..4f5373d 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -127,7 +127,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let n_rows = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!")
+            .shape()[0];
+        let chunk_size = num_integer::div_ceil(n_rows, self.parameters.n_threads);
+        // every helper needs a chunk, because the other helpers wait for its decomposition
+        self.rotation.pca.helpers = (0..num_integer::div_ceil(n_rows, chunk_size))
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -144,7 +153,6 @@ impl PCAnalyzer for Training {
             .data
             .as_ref()
             .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From bda707bb26393561aa9dc4613bef6036b5eaddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 11/15] fix: report errors when writing the last scores and
 contributions

The writers' buffers were flushed on drop only, where errors are ignored, so a
truncated file looked like success.
---
 src/training/scoring/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 91a0704..e06c804 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -253,6 +253,7 @@ impl Scorer for Training {
         for s in score.iter() {
             writer.serialize(s)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -384,6 +385,7 @@ impl Handler<QueryClusterContributionResponse> for Training {
             last = Some(ser);
             writer.serialize(ser.to_vec()).unwrap();
         }
+        writer.flush().unwrap();
         ctx.address().do_send(ScoringDone);
     }
 }
-- 
2.43.0


From 2c93b0e683fba0fc33f178c29379244ce4c48905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:51 +0000
Subject: [PATCH 12/15] fix: use at least one thread by default in the Python
 estimator

min() limited the default to a single thread and gave none on one core.
---
 s2gpp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2gpp/__init__.py b/s2gpp/__init__.py
index f3c8a3f..c430771 100644
--- a/s2gpp/__init__.py
+++ b/s2gpp/__init__.py
@@ -28,7 +28,7 @@ class Series2GraphPP(BaseEstimator):
         self.latent = latent or int(self.pattern_length / 3)
         self.rate = rate
         self.query_length = query_length or self.pattern_length
-        self.n_threads = n_threads if n_threads > 0 else min(cpu_count() - 1, 1)
+        self.n_threads = n_threads if n_threads > 0 else max(cpu_count() - 1, 1)
         self.clustering = clustering
         self.self_correction = self_correction
         self.local_host = local_host
-- 
2.43.0


From 8d48d0bc53f9c4beafb1b6ab2ef1f1e601994923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:02 +0000
Subject: [PATCH 13/15] fix: order a first transition that wraps around with
 its last node

---
 src/training/edge_estimation/edges_orderer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..2d27eda 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -55,6 +55,7 @@ impl EdgesOrderer {
                     current_node.clone(),
                 ));
             }
+            self.first_node = Some(current_node.clone());
             true
         } else {
             false
@@ -88,9 +89,9 @@ impl EdgesOrderer {
                 let previous_node = self
                     .edges_large
                     .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                    .map(|edge| edge.get_to_node())
+                    .or_else(|| self.first_node.clone())
+                    .expect("Should be filled, we have a middle_node!");
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From 30513d4831c1e64996bc81c99c8570b824111264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:26 +0000
Subject: [PATCH 14/15] fix: partition input by its records, not by its lines
 (blank lines shifted the partitions)

---
 src/data_manager/data_reader/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..da1dec1 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -31,12 +31,12 @@ pub trait DataReader {
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
         let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
-        } else {
-            count_reader.lines().count()
-        };
+        // count records instead of lines: the reader skips blank lines
+        let n_lines = ReaderBuilder::new()
+            .has_headers(self.data_reading.as_ref().unwrap().with_header)
+            .from_reader(file)
+            .records()
+            .count();
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From 91ceb90030b05a8d8763c2d73364a99c47b5b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 15/15] fix: explain windows before the first contribution
 instead of panicking

---
 src/training/scoring/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e06c804..65de8be 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -353,7 +353,8 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // windows before the first contribution keep their zeros
+                *c = last_contribution.unwrap_or(*c);
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0

