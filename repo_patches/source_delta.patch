From bdc1164d53c3850aae8ee77d286a06a0fcafe92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:04 +0000
Subject: [PATCH 01/19] verification hooks: cfg(s2gpp_verif) modules included
 from S2GPP_VERIF_HOOKS

---
 src/cluster_listener.rs                              | 5 +++++
 src/data_manager/data_reader/mod.rs                  | 5 +++++
 src/data_manager/mod.rs                              | 5 +++++
 src/data_manager/preprocessor/mod.rs                 | 5 +++++
 src/data_manager/stats_collector/mod.rs              | 5 +++++
 src/data_store/mod.rs                                | 5 +++++
 src/interface/mod.rs                                 | 5 +++++
 src/lib.rs                                           | 5 +++++
 src/training/anomaly_contribution/mod.rs             | 5 +++++
 src/training/edge_estimation/mod.rs                  | 5 +++++
 src/training/intersection_calculation/mod.rs         | 5 +++++
 src/training/mod.rs                                  | 5 +++++
 src/training/node_estimation/mod.rs                  | 5 +++++
 src/training/node_estimation/multi_kde/actors/mod.rs | 5 +++++
 src/training/node_estimation/multi_kde/mod.rs        | 5 +++++
 src/training/rotation/mod.rs                         | 5 +++++
 src/training/rotation/pca/mod.rs                     | 5 +++++
 src/training/scoring/mod.rs                          | 5 +++++
 src/training/segmentation/mod.rs                     | 5 +++++
 src/training/transposition/mod.rs                    | 5 +++++
 src/utils/mod.rs                                     | 5 +++++
 21 files changed, 105 insertions(+)

diff --git a/src/cluster_listener.rs b/src/cluster_listener.rs
index 8e197aa..4ce2ffb 100644
--- a/src/cluster_listener.rs
+++ b/src/cluster_listener.rs
@@ -145,3 +145,8 @@ impl Handler<SortedMembersMessage> for ClusterMemberListener {
 }
 
 impl ClusterListener for ClusterMemberListener {}
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/cluster_listener.rs"));
+}
diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..4962aa6 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -131,3 +131,8 @@ pub fn read_data_(file_path: &str) -> Array2<f32> {
         .into_shape((n_rows, n_columns))
         .expect("Could not deserialize sent data")
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/data_reader.rs"));
+}
diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 884c039..06e5f16 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -272,3 +272,8 @@ impl Handler<PoisonPill> for DataManager {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/data_manager.rs"));
+}
diff --git a/src/data_manager/preprocessor/mod.rs b/src/data_manager/preprocessor/mod.rs
index 586cfaa..8f361c4 100644
--- a/src/data_manager/preprocessor/mod.rs
+++ b/src/data_manager/preprocessor/mod.rs
@@ -79,3 +79,8 @@ impl Handler<ProcessedColumnMessage> for DataManager {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/preprocessor.rs"));
+}
diff --git a/src/data_manager/stats_collector/mod.rs b/src/data_manager/stats_collector/mod.rs
index 7b9d080..6d09717 100644
--- a/src/data_manager/stats_collector/mod.rs
+++ b/src/data_manager/stats_collector/mod.rs
@@ -34,3 +34,8 @@ impl DatasetStats {
         )
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/stats_collector.rs"));
+}
diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..e65ee53 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -204,3 +204,8 @@ impl DataStore {
         materialized
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/data_store.rs"));
+}
diff --git a/src/interface/mod.rs b/src/interface/mod.rs
index 2ee53d8..9492409 100644
--- a/src/interface/mod.rs
+++ b/src/interface/mod.rs
@@ -48,3 +48,8 @@ pub async fn actor_fit(actor: Training, data: Array2<f32>) -> Result<SyncResult>
         Err(Error::msg("Await resulted in None value!"))
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/interface.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 44c1119..8ba16f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -63,3 +63,8 @@ pub async fn s2gpp_async(params: Parameters) -> Result<()> {
 
     Ok(())
 }
+
+#[cfg(s2gpp_verif)]
+pub mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/root.rs"));
+}
diff --git a/src/training/anomaly_contribution/mod.rs b/src/training/anomaly_contribution/mod.rs
index 5bc07eb..653b8a6 100644
--- a/src/training/anomaly_contribution/mod.rs
+++ b/src/training/anomaly_contribution/mod.rs
@@ -189,3 +189,8 @@ impl Handler<QueryClustercontributionDone> for AnomalyContribution {
             })
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/anomaly_contribution.rs"));
+}
diff --git a/src/training/edge_estimation/mod.rs b/src/training/edge_estimation/mod.rs
index 6c0572a..8520ffe 100644
--- a/src/training/edge_estimation/mod.rs
+++ b/src/training/edge_estimation/mod.rs
@@ -65,3 +65,8 @@ impl EdgeEstimator for Training {
         ctx.address().do_send(EdgeEstimationDone);
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/edge_estimation.rs"));
+}
diff --git a/src/training/intersection_calculation/mod.rs b/src/training/intersection_calculation/mod.rs
index 8b8963d..48ec315 100644
--- a/src/training/intersection_calculation/mod.rs
+++ b/src/training/intersection_calculation/mod.rs
@@ -342,3 +342,8 @@ impl Handler<IntersectionRotationMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/intersection_calculation.rs"));
+}
diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..d730481 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -277,3 +277,8 @@ impl Handler<ScoringDone> for Training {
         System::current().stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/training.rs"));
+}
diff --git a/src/training/node_estimation/mod.rs b/src/training/node_estimation/mod.rs
index 8bfb297..72c14ef 100644
--- a/src/training/node_estimation/mod.rs
+++ b/src/training/node_estimation/mod.rs
@@ -336,3 +336,8 @@ pub struct ClusteringResponse<A> {
     pub cluster_centers: Array2<A>,
     pub labels: Vec<usize>,
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/node_estimation.rs"));
+}
diff --git a/src/training/node_estimation/multi_kde/actors/mod.rs b/src/training/node_estimation/multi_kde/actors/mod.rs
index a26fce9..d763a78 100644
--- a/src/training/node_estimation/multi_kde/actors/mod.rs
+++ b/src/training/node_estimation/multi_kde/actors/mod.rs
@@ -122,3 +122,8 @@ impl Handler<PoisonPill> for MultiKDEActor {
         ctx.stop();
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/kde_actors.rs"));
+}
diff --git a/src/training/node_estimation/multi_kde/mod.rs b/src/training/node_estimation/multi_kde/mod.rs
index 8cdf208..1c74c0d 100644
--- a/src/training/node_estimation/multi_kde/mod.rs
+++ b/src/training/node_estimation/multi_kde/mod.rs
@@ -275,3 +275,8 @@ mod tests {
         assert_eq!(assignments, expected);
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/multi_kde.rs"));
+}
diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..3915648 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -276,3 +276,8 @@ impl Handler<RotationMatrixMessage> for Training {
 
 #[cfg(test)]
 mod tests;
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/rotation.rs"));
+}
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..3a7174c 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -341,3 +341,8 @@ impl Handler<PCAHelperMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/pca.rs"));
+}
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..7045ded 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -385,3 +385,8 @@ impl Handler<QueryClusterContributionResponse> for Training {
         ctx.address().do_send(ScoringDone);
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/scoring.rs"));
+}
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..b4a7529 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -469,3 +469,8 @@ impl Handler<SegmentMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/segmentation.rs"));
+}
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index 9b48be1..e1acd31 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -117,3 +117,8 @@ impl Handler<TranspositionRotationMessage> for Training {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/transposition.rs"));
+}
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..1b5dd25 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -240,3 +240,8 @@ impl<T: Actor> From<AnyClusterNodes<T>> for AnyClusterNodesIterator<T> {
         }
     }
 }
+
+#[cfg(s2gpp_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("S2GPP_VERIF_HOOKS"), "/utils.rs"));
+}
-- 
2.43.0


From 7f865bc29a9236863b84e150e7ea6a36391cb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:26 +0000
Subject: [PATCH 02/19] fix: connect a wrapping first transition with a single
 node before the wrap-around

---
 src/training/edge_estimation/edges_orderer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..14ce725 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -45,6 +45,8 @@ impl EdgesOrderer {
         let last_segment = previous_node.get_segment_id();
         if this_segment.ne(&(last_segment + 1)) {
             self.last_node = Some(previous_node.clone());
+            // the transition starts after the gap
+            self.first_node = Some(current_node.clone());
             self.middle_node = Some(match self.edges_small.get(0) {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
@@ -85,12 +87,13 @@ impl EdgesOrderer {
     pub fn into_vec(mut self) -> Vec<Edge> {
         match &self.middle_node {
             Some(middle_node) => {
-                let previous_node = self
-                    .edges_large
-                    .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                let previous_node = match self.edges_large.last() {
+                    Some(edge) => edge.get_to_node(),
+                    None => self
+                        .first_node
+                        .clone()
+                        .expect("Should be filled, we have a middle_node!"),
+                };
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From cc2fedcdf583ca2bca7d8b8fce03ecc3388d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:04 +0000
Subject: [PATCH 03/19] fix: do not send scoring helpers empty instructions
 when there are fewer scores than threads

---
 src/training/scoring/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 7045ded..acde507 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -84,7 +84,6 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -132,11 +131,14 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
-
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        // an instruction without scores could not be told apart from its successor
+        let n_instructions = self.parameters.n_threads.min(score_length).max(1);
+        self.scoring.helper_protocol.n_total = n_instructions;
+        let n_per_thread = score_length / n_instructions;
+        let n_rest = score_length % n_instructions;
+
+        for i in 0..n_instructions {
+            let rest = if i == n_instructions - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From 2a20d9664abc81d6eb54e07051d4c239a8d161b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:53 +0000
Subject: [PATCH 04/19] fix: handle early rotation messages before the ones
 waiting in the mailbox

---
 src/training/scoring/mod.rs      | 16 +++++++++++-----
 src/training/scoring/weights.rs  | 20 +++++++-------------
 src/training/segmentation/mod.rs |  6 +++---
 src/utils/rotation_protocol.rs   | 14 ++++++--------
 4 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index acde507..8e46211 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -70,8 +70,14 @@ impl Scorer for Training {
         self.scoring.edge_weight = self.calculate_edge_weight();
 
         if self.cluster_nodes.len() > 0 {
-            self.start_node_degrees_rotation(ctx);
-            self.start_edge_weight_rotation(ctx);
+            self.start_node_degrees_rotation();
+            self.start_edge_weight_rotation();
+            for msg in self.scoring.node_degrees_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
+            for msg in self.scoring.edge_weight_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             // non-distributed
             self.score(ctx);
@@ -167,9 +173,6 @@ impl Scorer for Training {
             self.scoring
                 .score_rotation_protocol
                 .start(self.cluster_nodes.len());
-            self.scoring
-                .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
@@ -182,6 +185,9 @@ impl Scorer for Training {
                     first_empty: self.scoring.first_empty,
                 });
             self.scoring.score_rotation_protocol.sent();
+            for msg in self.scoring.score_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..dbe461b 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -13,8 +13,8 @@ pub(crate) trait ScoringWeights {
     fn count_edges_in_time(&mut self) -> Vec<usize>;
     fn calculate_edge_weight(&mut self) -> HashMap<MaterializedEdge, usize>;
     fn calculate_node_degrees(&mut self) -> HashMap<NodeRef, usize>;
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>);
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>);
+    fn start_node_degrees_rotation(&mut self);
+    fn start_edge_weight_rotation(&mut self);
     fn init_done(&mut self) -> bool;
 }
 
@@ -115,13 +115,10 @@ impl ScoringWeights for Training {
         node_degrees
     }
 
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_node_degrees_rotation(&mut self) {
         self.scoring
             .node_degrees_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -136,13 +133,10 @@ impl ScoringWeights for Training {
         self.scoring.node_degrees_rotation_protocol.sent();
     }
 
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_edge_weight_rotation(&mut self) {
         self.scoring
             .edge_weight_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -233,9 +227,9 @@ impl Handler<ScoreInitDone> for Training {
             self.send_overlap_to_neighbor(ctx);
         } else {
             self.scoring.overlap_rotation_protocol.start(1);
-            self.scoring
-                .overlap_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
+            for msg in self.scoring.overlap_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         }
     }
 }
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index b4a7529..b1fc00c 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -297,9 +297,6 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                self.segmentation
-                    .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
                 let transition_count = self.data_store.count_transitions()
                     + node_transitions
                         .iter()
@@ -312,6 +309,9 @@ impl Segmenter for Training {
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
+                for msg in self.segmentation.transition_count_protocol.take_buffer() {
+                    self.handle(msg, ctx);
+                }
             }
             None => {
                 self.segmentation.global_transition_count = self.data_store.count_transitions();
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..8133185 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -1,4 +1,4 @@
-use actix::{Message, Recipient};
+use actix::Message;
 use actix_telepathy::RemoteMessage;
 
 #[derive(Default, Clone)]
@@ -32,12 +32,10 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
         (self.n_received < self.n_total) || (self.n_sent < self.n_total)
     }
 
-    pub fn resolve_buffer(&mut self, rec: Recipient<T>)
-    where
-        T::Result: Send,
-    {
-        for _ in 0..self.buffer.len() {
-            rec.do_send(self.buffer.remove(0));
-        }
+    /// The messages that arrived too early, in order of arrival. They must be handled before any
+    /// message that is already waiting in the mailbox, because only the last message of a rotation
+    /// is not passed on.
+    pub fn take_buffer(&mut self) -> Vec<T> {
+        std::mem::take(&mut self.buffer)
     }
 }
-- 
2.43.0


From 91dd5a75b9e0362ea5ffa63d03a64a2cdf9c5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:55 +0000
Subject: [PATCH 05/19] fix: weigh the mean difference by n*m/(n+m) when
 merging the standard deviations of cluster nodes

---
 src/data_manager/stats_collector/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/stats_collector/std.rs b/src/data_manager/stats_collector/std.rs
index b3f7cd2..b38bc83 100644
--- a/src/data_manager/stats_collector/std.rs
+++ b/src/data_manager/stats_collector/std.rs
@@ -77,7 +77,7 @@ impl Handler<StdNodeMessage> for DataManager {
                     std_calcuation.m2 = Some(
                         msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32),
+                            + delta.clone() * delta * (*n as f32 * msg.n as f32 / global_n as f32),
                     );
 
                     std_calcuation.mean =
@@ -96,7 +96,7 @@ impl Handler<StdNodeMessage> for DataManager {
                         let delta: Array1<f32> = msg.mean.clone() - mean;
                         let m2 = msg.m2
                             + m2
-                            + delta.clone() * delta * ((n + msg.n) as f32 / global_n as f32);
+                            + delta.clone() * delta * (*n as f32 * msg.n as f32 / global_n as f32);
                         std_calcuation.n = Some(global_n);
                         (m2 / (global_n - 1) as f32)
                             .iter()
-- 
2.43.0


From d5834e867892e9c00b5246e400034ae0ce4bcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 06/19] fix: let the last cluster node take the whole remainder
 of the input rows

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1b5dd25..c208496 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -200,7 +200,7 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From ba200e1201a143184c85cace0a5e262ada06752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 07/19] fix: start only as many PCA helpers as there are chunks
 of rows

---
 src/training/rotation/pca/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 3a7174c..ebbcb7b 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -115,7 +115,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let data = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!");
+        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
+        // there can be fewer chunks than threads; helpers without data would never answer
+        let n_helpers = num_integer::div_ceil(data.shape()[0], chunk_size);
+        self.rotation.pca.helpers = (0..n_helpers)
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -126,13 +135,6 @@ impl PCAnalyzer for Training {
             .iter()
             .map(|addr| addr.clone().recipient())
             .collect();
-        let data = self
-            .rotation
-            .pca
-            .data
-            .as_ref()
-            .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From c573c2decfc897380a83395b1c6b920f3ebec829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 08/19] fix: keep early PCA messages of other cluster nodes and
 wait for all means

---
 src/training/rotation/mod.rs     |  4 +++-
 src/training/rotation/pca/mod.rs | 22 +++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index 3915648..402b7b1 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .restart(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index ebbcb7b..fb03815 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -45,8 +45,17 @@ impl PCA {
         }
     }
 
+    /// prepares the next decomposition; messages of other nodes that are ahead are kept
+    pub fn restart(&mut self, id: usize, n_components: usize) {
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(id, n_components)
+        };
+    }
+
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        self.restart(self.id, self.n_components);
     }
 }
 
@@ -111,6 +120,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_buffer();
+        self.resolve_means_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -185,7 +196,10 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0
+            && threshold == 0
+            && self.rotation.pca.n.as_ref().unwrap().len() == self.cluster_nodes.len_incl_own()
+        {
             self.finalize()
         }
     }
@@ -273,7 +287,8 @@ impl Handler<PCAMeansMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAMeansMessage, _ctx: &mut Self::Context) -> Self::Result {
-        if self.rotation.pca.column_means.is_some() {
+        // with components, this decomposition is over and the means belong to the next one
+        if self.rotation.pca.column_means.is_some() && self.rotation.pca.components.is_none() {
             self.rotation.pca.column_means = Some(concatenate![
                 Axis(0),
                 self.rotation.pca.column_means.as_ref().unwrap().clone(),
@@ -284,6 +299,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.send_to_neighbor_or_finalize();
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
-- 
2.43.0


From d9acb244666965a3b65b459ed2a869cdbe29989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:07 +0000
Subject: [PATCH 09/19] fix: do not invert the singular covariance of equal
 intersection coordinates

---
 .../node_estimation/multi_kde/actors/gaussian_kde.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..eda8198 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -44,6 +44,16 @@ impl GaussianKDEActor {
     fn estimate(&mut self, data: ArcArray2<f32>, ctx: &mut Context<Self>) {
         let grid_min = *data.min().unwrap();
         let grid_max = *data.max().unwrap();
+        if grid_min == grid_max {
+            // the covariance of equal values is singular; a flat estimate has no peaks
+            self.receiver
+                .as_ref()
+                .unwrap()
+                .do_send(GaussianKDEResponse {
+                    kernel_estimate: Array1::zeros(self.resolution),
+                });
+            return;
+        }
         let padding = (grid_max - grid_min).mul(0.1);
         let grid = Array::linspace(grid_min - padding, grid_max + padding, self.resolution)
             .insert_axis(Axis(1));
-- 
2.43.0


From 2a7996574b170c93366c6f834ab8e5fe4cda2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:59 +0000
Subject: [PATCH 10/19] fix: explanations no longer panic when the first
 windows have no contribution

---
 src/training/scoring/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 8e46211..3dea559 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -358,7 +358,9 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                if let Some(last_contribution) = last_contribution {
+                    *c = last_contribution;
+                }
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 106ff692ffeefd40086a51ba8c9b7564d8b37438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:57 +0000
Subject: [PATCH 11/19] fix: cluster self-correction counts every transition
 once

---
 src/training/segmentation/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index b1fc00c..e1ea0ca 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -297,11 +297,10 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                let transition_count = node_transitions
+                    .values()
+                    .map(|transitions| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From 5b2df94b6689cf1a40b39c7f20a5bd4ce6e8fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:57 +0000
Subject: [PATCH 12/19] fix: connect the first transition of a cluster node to
 the one before it

---
 src/training/segmentation/mod.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index e1ea0ca..3a09dd8 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -389,7 +389,7 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -426,21 +426,22 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
-
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+            last_transition = spanning_transition;
         }
 
+        // the next cluster node does not know the transition before its first one
+        let transition = msg.transition.into_transition();
+        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+        let last_to_node_id = self.segment_id_to_assignment(last_transition.get_to_segment());
+        self.find_splits(
+            Some(last_transition),
+            Some(last_to_node_id),
+            &transition,
+            from_node_id,
+            to_node_id,
+        );
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From 7c81736eca1ef398ead4e706ba4cf1c441724da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:57 +0000
Subject: [PATCH 13/19] fix: keep the next node's first point until the own
 segments are built

---
 src/training/segmentation/messages.rs |  2 +-
 src/training/segmentation/mod.rs      | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..da4d70c 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,7 +9,7 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
     pub(crate) transition: MaterializedTransition,
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 3a09dd8..5fe2b6c 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,10 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// the own segments are built, only the next cluster node's first point is missing
+    waits_for_first_point: bool,
+    /// first point of the next cluster node that arrived before the own segments were built
+    early_first_point: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -97,6 +101,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waits_for_first_point = true;
+            if let Some(msg) = self.segmentation.early_first_point.take() {
+                self.handle(msg, ctx);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -385,6 +393,12 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waits_for_first_point {
+            self.segmentation.early_first_point = Some(msg);
+            return;
+        }
+        self.segmentation.waits_for_first_point = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
-- 
2.43.0


From 907b1e51b319fec3e6db8aa8649aa072468339dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:17 +0000
Subject: [PATCH 14/19] fix: send the next edge along with the scoring overlap

If no edge belongs to the point after the overlap, the last windows of a
cluster node missed the next edge that the same windows use on one machine.
---
 src/training/scoring/overlap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..477aa80 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,7 +11,9 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // the last window also uses the next edge if there is one
+        let to_edge_idx = (self.scoring.edges_in_time[self.parameters.query_length - 1] + 1)
+            .min(self.data_store.get_edges().len());
         let overlap = self
             .data_store
             .slice_edges(0..to_edge_idx)
-- 
2.43.0


From d9f7bdabf01ff3ad99d73d2a5496544eef9f80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:17 +0000
Subject: [PATCH 15/19] fix: count edges in time if all of them belong to point
 0

The closing pseudo edge had the same point id, so these edges were not
counted and the windows of a cluster node were shifted.
---
 src/training/scoring/weights.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index dbe461b..f97b682 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -23,7 +23,7 @@ impl ScoringWeights for Training {
         let start_point = self.transposition.range_start_point.unwrap_or(0);
         let pseudo_edge = Edge::new(
             IndependentNode::new(0, 0, 0).into_ref(),
-            IndependentNode::new(0, 0, 0).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(), // differs from every point
         )
         .into_ref();
         let mut edges_in_time = vec![];
-- 
2.43.0


From 3051ef4dc196e5bb173d173cd857de89b548453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:17 +0000
Subject: [PATCH 16/19] fix: keep the traversal order of edges in the
 transposition

Edges of one transition that come from different cluster nodes were ordered
by the arrival of the messages.
---
 src/data_store/mod.rs             | 18 ++++++++++++++++++
 src/training/transposition/mod.rs |  3 ++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index e65ee53..9f5e151 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -8,6 +8,7 @@ use crate::data_store::transition::{
     MaterializedTransition, Transition, TransitionMixin, TransitionRef,
 };
 use ndarray::Array1;
+use std::cmp::Ordering;
 use std::ops::Range;
 use std::slice::Iter;
 
@@ -193,6 +194,23 @@ impl DataStore {
             .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
     }
 
+    /// Sorts by time; edges of the same transition are put in the order in which it crosses the segments.
+    /// A transition crosses at most half of the segments.
+    pub fn sort_edges_along_ring(&mut self, rate: usize) {
+        self.edges.sort_by(|edge_a, edge_b| {
+            edge_a.get_to_id().cmp(&edge_b.get_to_id()).then_with(|| {
+                let segment_a = edge_a.get_to_node().get_segment_id();
+                let segment_b = edge_b.get_to_node().get_segment_id();
+                let distance = (segment_b + rate - segment_a) % rate;
+                match distance {
+                    0 => Ordering::Equal,
+                    d if 2 * d <= rate => Ordering::Less,
+                    _ => Ordering::Greater,
+                }
+            })
+        });
+    }
+
     // --- Misc
 
     pub fn wipe_graph(&mut self) -> Vec<MaterializedEdge> {
diff --git a/src/training/transposition/mod.rs b/src/training/transposition/mod.rs
index e1acd31..a8f3ca7 100644
--- a/src/training/transposition/mod.rs
+++ b/src/training/transposition/mod.rs
@@ -93,7 +93,8 @@ impl Transposer for Training {
     }
 
     fn transpose_finalize(&mut self, ctx: &mut Context<Training>) {
-        self.data_store.sort_edges();
+        self.data_store
+            .sort_edges_along_ring(self.parameters.rate);
         ctx.address().do_send(TranspositionDone);
     }
 }
-- 
2.43.0


From c109b7e3143b8f0e0e5fdd5f17959d8fd806a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 17/19] fix: do not count empty lines as rows

---
 src/data_manager/data_reader/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index 4962aa6..abdf2dd 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -32,11 +32,16 @@ impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
         let file = File::open(file_path).unwrap();
         let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
-        } else {
-            count_reader.lines().count()
-        };
+        // empty lines are no records
+        let n_lines = count_reader
+            .lines()
+            .filter(|line| !matches!(line, Ok(line) if line.is_empty()))
+            .count()
+            - if self.data_reading.as_ref().unwrap().with_header {
+                1
+            } else {
+                0
+            };
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0


From 3f5c91b34ff22a02e246924d49d13d3e5906ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 18/19] fix: accept a negative column end on the command line

---
 src/parameters.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parameters.rs b/src/parameters.rs
index 7e382bd..9a087c0 100644
--- a/src/parameters.rs
+++ b/src/parameters.rs
@@ -56,7 +56,11 @@ pub struct Parameters {
     #[structopt(long = "column-start-idx", default_value = "0")]
     pub column_start: usize,
 
-    #[structopt(long = "column-end-idx", default_value = "0")]
+    #[structopt(
+        long = "column-end-idx",
+        default_value = "0",
+        allow_hyphen_values = true
+    )]
     pub column_end: isize,
 
     #[structopt(long = "clustering", default_value = "kde")]
-- 
2.43.0


From bcc84adb7d6aa2ffe31d4a7c4fb33c010648f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 19/19] fix: a cluster node without transitions no longer
 blocks its neighbour

---
 src/training/segmentation/messages.rs |  3 +-
 src/training/segmentation/mod.rs      | 65 ++++++++++++++++++---------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index da4d70c..f9fb22d 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -12,7 +12,8 @@ pub struct SegmentMessage {
 #[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    /// first transition from that point on, if there is any
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 5fe2b6c..1f362c9 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -255,15 +255,20 @@ impl Segmenter for Training {
         let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
             Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
+                let own_id = self.cluster_nodes.get_own_idx();
+                let wait_for_points = own_id.ne(&self.cluster_nodes.len()); // last cluster node does not receive a SendFirstPointMessage
+
+                if wait_for_points && transition.is_none() {
+                    // the first transition is one of the next cluster nodes'
+                    self.segmentation.send_point = point;
+                } else if let Some(point) = point {
                     self.cluster_nodes
                         .get_as(&prev_idx, "Training")
                         .unwrap()
                         .do_send(SendFirstPointMessage { point, transition });
                 }
 
-                let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
+                wait_for_points
             }
             None => {
                 // local only case
@@ -403,7 +408,8 @@ impl Handler<SendFirstPointMessage> for Training {
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let mut last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.clone();
+        let mut first_transition = msg.transition.clone();
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -412,8 +418,9 @@ impl Handler<SendFirstPointMessage> for Training {
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
             let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+            let last_transition_to_cluster_id = last_transition
+                .as_ref()
+                .map(|t| self.segment_id_to_assignment(t.get_to_segment()));
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
@@ -421,8 +428,8 @@ impl Handler<SendFirstPointMessage> for Training {
             }
 
             self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
+                last_transition,
+                last_transition_to_cluster_id,
                 &spanning_transition,
                 from_node_id,
                 to_node_id,
@@ -440,21 +447,39 @@ impl Handler<SendFirstPointMessage> for Training {
                         .insert(from_node_id, vec![spanning_transition.materialize()]);
                 }
             }
-            last_transition = spanning_transition;
+            first_transition = Some(spanning_transition.clone().materialize());
+            last_transition = Some(spanning_transition);
         }
 
         // the next cluster node does not know the transition before its first one
-        let transition = msg.transition.into_transition();
-        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
-        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
-        let last_to_node_id = self.segment_id_to_assignment(last_transition.get_to_segment());
-        self.find_splits(
-            Some(last_transition),
-            Some(last_to_node_id),
-            &transition,
-            from_node_id,
-            to_node_id,
-        );
+        if let (Some(last_transition), Some(transition)) = (last_transition, msg.transition) {
+            let transition = transition.into_transition();
+            let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+            let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+            let last_to_node_id = self.segment_id_to_assignment(last_transition.get_to_segment());
+            self.find_splits(
+                Some(last_transition),
+                Some(last_to_node_id),
+                &transition,
+                from_node_id,
+                to_node_id,
+            );
+        }
+
+        // without own transitions, the previous cluster node still waits for the first point
+        if let Some(point) = self.segmentation.send_point.take() {
+            let prev_idx = self
+                .cluster_nodes
+                .get_previous_idx()
+                .expect("There is suddenly no more previous node.");
+            self.cluster_nodes
+                .get_as(&prev_idx, "Training")
+                .unwrap()
+                .do_send(SendFirstPointMessage {
+                    point,
+                    transition: first_transition,
+                });
+        }
 
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
-- 
2.43.0

