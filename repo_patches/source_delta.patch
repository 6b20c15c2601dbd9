From 355868ef289707c01ed1c52b2852b3016ced49c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 01/37] fix: base64 decoding indexes the table with the
 unsigned character

---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 7ae685b7c0246261beab6e19ace3d50243268cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 02/37] fix: assigning a value whose copy throws no longer
 destroys the old value twice

---
 include/common_robotics_utilities/maybe.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..6974af5 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -52,6 +57,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -69,7 +79,13 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
+    // If constructing the new value throws, there is no value to clean up.
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +95,7 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  enum {TYPE_A, TYPE_B, TYPE_NONE} type_{};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From ddf43d20ac9ca377d6f72391582fc53530d0faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 03/37] fix: VoxelGridBase::OnMutableAccess(GridIndex) passes
 the z index

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From 4ccc1bd4b8420f8293ebf3e90faf1aaadcdea502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 04/37] fix: dynamic async parallel loops honour the start of
 the range

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From 5bb90d55b5afa8990fb6d0fabfe2949d7a4d9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 05/37] fix: dynamic time warping takes the minimum when both
 neighbours tie

---
 include/common_robotics_utilities/simple_dtw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..46c5de8 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -91,7 +91,7 @@ public:
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
+        if (im1j < im1jm1 && im1j <= ijm1)
         {
           prev_cost = im1j;
         }
-- 
2.43.0


From c3b65f28dad4fea038740f87344b23c46782bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 06/37] fix: parallel nearest neighbours keep all ranges when
 fewer threads run

---
 .../simple_knearest_neighbors.hpp                         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..dfcc6e0 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,17 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const auto range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+        // A thread may run more than one range if fewer threads were provided
+        // than requested.
+        auto& thread_nearests = per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From e1ebd8f5ed1452d2677872009aec57ef6e6f5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 07/37] fix: k-means refuses more clusters than elements

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..f1f5eff 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,10 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 9185778388e3e32253b8f745cb179df7e6eac9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 08/37] fix: in-place network serialization checks positions
 near the top of the range

---
 include/common_robotics_utilities/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..3f0bc20 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -747,7 +747,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     memcpy(&temp_buffer[0], &swapped, 8);
   }
   // Move to buffer
-  if ((buffer_position + sizeof(item_to_serialize)) <= buffer.size())
+  if (buffer.size() >= sizeof(item_to_serialize) &&
+      buffer_position <= (buffer.size() - sizeof(item_to_serialize)))
   {
     memcpy(&buffer[buffer_position],
            temp_buffer.data(),
-- 
2.43.0


From 08babaa71187ae4d7525958254970523eab00ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 09/37] fix: deserializing vectors and matrices checks
 untrusted sizes without overflow

---
 .../serialization.hpp                         |  8 +++++--
 .../serialization.cpp                         | 24 +++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index 3f0bc20..32dca59 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -473,11 +473,11 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -1005,6 +1005,10 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..6e960ec 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,7 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -50,7 +51,12 @@ uint64_t SerializeMatrixXd(
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
   // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -136,14 +142,24 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  const uint64_t max_items =
+      (buffer.size() - current_position) / sizeof(double);
+  const uint64_t max_index =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  if (rows > max_index || cols > max_index ||
+      (cols > 0 && rows > (max_items / cols)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From b3e3d5f885552e6600dab46cb1891554a1944096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 10/37] fix: roadmap edges to a new state keep their own
 direction's validity and distance

---
 .../simple_prm_planner.hpp                    | 33 ++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..bb98419 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,8 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
+    // Direction of the KNN distance depends on nn_distance_direction
+    const double knn_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +283,29 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(knn_distance, knn_distance);
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+      const bool knn_distance_is_graph_to_node =
+          nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
+      const double graph_to_node_distance
+          = (knn_distance_is_graph_to_node)
+              ? knn_distance : distance_fn(nearest_neighbor_state, state);
       const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+          = (knn_distance_is_graph_to_node)
+              ? distance_fn(state, nearest_neighbor_state) : knn_distance;
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      // Set the distance values of both directions
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From df4326402c788c34b27bd76137b25a8337101465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 11/37] fix: RRT calls the goal callback for initial goal
 states only if provided

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..24b104b 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
-- 
2.43.0


From 30ada339089ed3d8f3598abc657925dc4f4945d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 12/37] fix: bidirectional RRT calls the bridge callback for
 initially connected trees only if provided

---
 .../common_robotics_utilities/simple_rrt_planner.hpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 24b104b..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -961,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From 603f928e1457f2536af53f8a5034d34ff1169852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 13/37] fix: re-seeding XorShift1024StarPRNG resets its
 position

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..ba6ae8a 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From 390ea285ce0402cf75898bcb2717bc61efa79c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 14/37] fix: OwningGraphOverlay inherits its overlay interface
 publicly

---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..8cc47c5 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -946,7 +946,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From 8930b87db6b2a99f424f4224bdddd7995d6a0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 15/37] fix: spatially hashed grids accept locations on rounded
 chunk boundaries

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 58 +++++++++++--------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..51d06b4 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -176,37 +176,49 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  // Get the cell along one axis for an offset from the base of the chunk, or -1
+  // if the offset is outside the chunk. Computing the base of the chunk rounds,
+  // which can leave locations on the boundary of the chunk slightly outside of
+  // it, so the first and last cells are extended outwards by half a cell.
+  static int64_t GetAxisCell(
+      const double offset, const double cell_size, const int64_t num_cells)
+  {
+    const double raw_cell = offset / cell_size;
+    if (raw_cell >= 0.0 && raw_cell < static_cast<double>(num_cells))
+    {
+      return static_cast<int64_t>(std::floor(raw_cell));
+    }
+    else if (raw_cell >= -0.5 && raw_cell < 0.0)
+    {
+      return 0;
+    }
+    else if (raw_cell >= static_cast<double>(num_cells)
+             && raw_cell < static_cast<double>(num_cells) + 0.5)
+    {
+      return num_cells - 1;
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
     const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
-    // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    const int64_t x_cell = GetAxisCell(
+        location_wrt_chunk(0), sizes_.CellXSize(), sizes_.NumXCells());
+    const int64_t y_cell = GetAxisCell(
+        location_wrt_chunk(1), sizes_.CellYSize(), sizes_.NumYCells());
+    const int64_t z_cell = GetAxisCell(
+        location_wrt_chunk(2), sizes_.CellZSize(), sizes_.NumZCells());
+    if (x_cell < 0 || y_cell < 0 || z_cell < 0)
     {
       return -1;
     }
-    // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From 947a03c52f1e9c11404da1239bf3ea91921b0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 16/37] fix: setting a spatially hashed grid location that is
 not a number is an error

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 51d06b4..f9d8777 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -751,6 +751,10 @@ private:
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
+    if (!chunk_region.Base().allFinite())
+    {
+      throw std::invalid_argument("Cannot allocate chunk at this location");
+    }
     const auto result = chunks_.emplace(
         chunk_region,
         GridChunk(chunk_region, chunk_sizes_, fill_type, default_value_));
-- 
2.43.0


From 59baf4cab96e66ff5d1ae306892b85c2d7bad260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 17/37] fix: connecting an RRT tree node to a parent that does
 not exist changes nothing

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..5bd92ed 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,11 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    // Make sure the parent exists before changing the tree
+    if ((parent_index < 0) || (parent_index >= Size()))
+    {
+      throw std::out_of_range("parent_index is not a node in the tree");
+    }
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From 958122a28577850eb5a480594f5e8f7a8113cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 18/37] fix: RRT helpers refuse step sizes, biases and timeouts
 that are not a number

---
 .../common_robotics_utilities/simple_rrt_planner.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 5bd92ed..66b6802 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1378,7 +1378,7 @@ private:
 public:
   explicit TimeoutCheckHelper(const double timeout)
   {
-    if (timeout <= 0.0)
+    if (!(timeout > 0.0))
     {
       throw std::runtime_error("timeout <= 0.0");
     }
@@ -1554,7 +1554,7 @@ SamplingFunction<SampleType> MakeStateAndGoalsSamplingFunction(
           uniform_unit_real_fn_(uniform_unit_real_fn),
           state_sampling_fn_(state_sampling_fn)
     {
-      if ((goal_bias_ < 0.0) || (goal_bias_ > 1.0))
+      if (!((goal_bias_ >= 0.0) && (goal_bias_ <= 1.0)))
       {
         throw std::invalid_argument(
             "goal_bias is not a valid probability");
@@ -1732,7 +1732,7 @@ MakeKinematicRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1776,7 +1776,7 @@ MakeKinematicBiRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1822,7 +1822,7 @@ MakeKinematicRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1902,7 +1902,7 @@ MakeKinematicBiRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
-- 
2.43.0


From d6d64b4310ab55873d2a0e9e48e648fc467b4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 19/37] fix: RRT connect reaches targets within an unlimited
 step

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 66b6802..0d98d71 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <chrono>
 #include <cmath>
 #include <cstdint>
@@ -1833,8 +1834,8 @@ MakeKinematicRRTConnectPropagationFunction(
     int64_t parent_offset = -1;
     // Compute a maximum number of steps to take
     const double total_distance = distance_fn(nearest, sampled);
-    const int32_t total_steps =
-        static_cast<int32_t>(std::ceil(total_distance / step_size));
+    const int32_t total_steps = std::max(
+        1, static_cast<int32_t>(std::ceil(total_distance / step_size)));
     StateType current = nearest;
     int32_t steps = 0;
     bool completed = false;
@@ -1915,8 +1916,8 @@ MakeKinematicBiRRTConnectPropagationFunction(
     int64_t parent_offset = -1;
     // Compute a maximum number of steps to take
     const double total_distance = distance_fn(nearest, sampled);
-    const int32_t total_steps =
-        static_cast<int32_t>(std::ceil(total_distance / step_size));
+    const int32_t total_steps = std::max(
+        1, static_cast<int32_t>(std::ceil(total_distance / step_size)));
     StateType current = nearest;
     int32_t steps = 0;
     bool completed = false;
-- 
2.43.0


From 13c867e87a7f2df45de6c9e57cf95d1b07fa6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 20/37] fix: restore the OpenMP thread-count setting, not the
 granted team size

---
 include/common_robotics_utilities/openmp_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index f10557c..ffd0197 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -162,7 +162,7 @@ public:
     {
       throw std::invalid_argument("num_threads must be greater than zero");
     }
-    starting_num_omp_threads_ = GetNumOmpThreads();
+    starting_num_omp_threads_ = GetContextMaxNumOmpThreads();
 #if defined(_OPENMP)
     omp_set_num_threads(num_threads);
 #endif
-- 
2.43.0


From ff62abf018f0f2a2abf5a047fa3ea12fbe5398e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 21/37] fix: no data race in the OpenMP thread-count queries

---
 include/common_robotics_utilities/openmp_helpers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index ffd0197..8bcae8a 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -98,6 +98,7 @@ inline int32_t GetMaxNumOmpThreads()
   int32_t max_num_threads = 0;
 #pragma omp parallel
   {
+#pragma omp master
     max_num_threads = GetContextMaxNumOmpThreads();
   }
   return max_num_threads;
@@ -116,6 +117,7 @@ inline int32_t GetNumOmpThreads()
   int32_t num_threads = 0;
 #pragma omp parallel
   {
+#pragma omp master
     num_threads = GetContextNumOmpThreads();
   }
   return num_threads;
-- 
2.43.0


From 665483497d5ca4846e0013c40d5c6957bd364b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 22/37] fix: colour interpolation over an empty range

---
 include/common_robotics_utilities/color_builder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/color_builder.hpp b/include/common_robotics_utilities/color_builder.hpp
index 03b993d..aa8a8ca 100644
--- a/include/common_robotics_utilities/color_builder.hpp
+++ b/include/common_robotics_utilities/color_builder.hpp
@@ -163,7 +163,10 @@ inline ColorType InterpolateHotToCold(
   }
   else
   {
-    g = 1.0 + 4.0 * (min_value + 0.75 * range - real_value) / range;
+    // An empty range has no interior to interpolate over, so its only value is
+    // the upper end of the pattern
+    g = (range > 0.0)
+        ? 1.0 + 4.0 * (min_value + 0.75 * range - real_value) / range : 0.0;
     b = 0.0;
   }
   return MakeFromFloatColors<ColorType>(
-- 
2.43.0


From 5b5d8d01ed7cf113d697571354115107fb7dab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:15 +0000
Subject: [PATCH 23/37] fix: task outcome hashes keep the state's hash

---
 include/common_robotics_utilities/simple_task_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_task_planner.hpp b/include/common_robotics_utilities/simple_task_planner.hpp
index 2d779f4..a1297ea 100644
--- a/include/common_robotics_utilities/simple_task_planner.hpp
+++ b/include/common_robotics_utilities/simple_task_planner.hpp
@@ -226,7 +226,7 @@ public:
   explicit OutcomeWithPrimitiveIndexHash(const StateHash& state_hasher)
       : state_hasher_(state_hasher) {}
 
-  bool operator()(const OutcomeWithPrimitiveIndex<State>& outcome) const
+  size_t operator()(const OutcomeWithPrimitiveIndex<State>& outcome) const
   {
     return state_hasher_(outcome.Outcome());
   }
-- 
2.43.0


From f92e689d58fe09e046aabfe17f7f87618d2582ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:12 +0000
Subject: [PATCH 24/37] fix: printing a forward_list compiles

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0


From c600ea9f6d3357ab58bf60d8261e1069afe1eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:37 +0000
Subject: [PATCH 25/37] fix: refuse all-zero weights when averaging quaternions

---
 src/common_robotics_utilities/math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 108a219..642b5bd 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <Eigen/Eigenvalues>
 #include <unsupported/Eigen/MatrixFunctions>
 #include <common_robotics_utilities/math.hpp>
@@ -799,6 +801,13 @@ Eigen::Quaterniond AverageEigenQuaterniond(const VectorQuaterniond& quaternions,
     }
     return quaternions[0];
   }
+  // If all weights are zero, result is undefined
+  if (use_weights
+      && std::all_of(weights.begin(), weights.end(),
+                     [] (const double weight) { return weight == 0.0; }))
+  {
+    throw std::invalid_argument("Provided weights are all zero");
+  }
   // Build the averaging matrix
   Eigen::MatrixXd q_matrix(4, quaternions.size());
   for (size_t idx = 0; idx < quaternions.size(); idx++)
-- 
2.43.0


From d66d5aabbcbcd2d0168ab6d60dc8341227d3051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 26/37] fix: gaussian_distributions.hpp compiles

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From 5a2b72775b85de483e7c8b3e6c353828b2b3ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:37 +0000
Subject: [PATCH 27/37] fix: truncated gaussian draws from the standardized
 range

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..848dda9 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -305,8 +305,7 @@ public:
   TruncatedGaussianDistribution(
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
-    : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
+    : uniform_unit_dist_(0.0, 1.0), uniform_range_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
     // Set operating parameters
@@ -351,6 +350,9 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          // Draws are made from the standardized range
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From be1508feddc021a180ad42b6cfd54344cd60e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 28/37] fix: multivariate gaussian accepts means of any
 dimension

---
 .../gaussian_distributions.hpp                      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 848dda9..7cb5843 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -392,8 +392,12 @@ private:
   }
 
   static Eigen::MatrixXd CalculateNormTransform(
-      const Eigen::MatrixXd& covariance)
+      const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
   {
+    if (mean.rows() != covariance.rows() || mean.rows() != covariance.cols())
+    {
+      throw std::invalid_argument("mean and covariance are different sizes");
+    }
     Eigen::MatrixXd norm_transform;
     Eigen::LLT<Eigen::MatrixXd> chol_solver(covariance);
     if (chol_solver.info() == Eigen::Success)
@@ -415,13 +419,10 @@ private:
 public:
   MultivariteGaussianDistribution(
       const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
-      : mean_(mean), norm_transform_(CalculateNormTransform(covariance)),
+      : mean_(mean),
+        norm_transform_(CalculateNormTransform(mean, covariance)),
         unit_gaussian_dist_(0.0, 1.0)
   {
-    if (mean_.rows() != covariance.rows() || mean_.cols() != covariance.cols())
-    {
-      throw std::invalid_argument("mean and covariance are different sizes");
-    }
     const auto nan_check = [] (const double& val) { return std::isnan(val); };
     if ((norm_transform_.unaryExpr(nan_check)).any())
     {
-- 
2.43.0


From 7545acfe789597a2b45a61779666e7c6f1089306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 29/37] fix: truncated gaussian refuses inverted bounds

---
 include/common_robotics_utilities/gaussian_distributions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 7cb5843..5d3738a 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -308,6 +308,10 @@ public:
     : uniform_unit_dist_(0.0, 1.0), uniform_range_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
+    if (lower_bound > upper_bound)
+    {
+      throw std::invalid_argument("lower_bound > upper_bound");
+    }
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
-- 
2.43.0


From e5d6ec44e8c82f031923c403687fb1fc84076c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:03 +0000
Subject: [PATCH 30/37] fix: CloseEnough on vectors is false for NaN components
 and thresholds

---
 src/common_robotics_utilities/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 642b5bd..d90da12 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -55,15 +55,15 @@ bool CloseEnough(const Eigen::Vector3d& v1,
                  const double threshold)
 {
   const double real_threshold = std::abs(threshold);
-  if (std::abs(v1.x() - v2.x()) > real_threshold)
+  if (!(std::abs(v1.x() - v2.x()) <= real_threshold))
   {
     return false;
   }
-  if (std::abs(v1.y() - v2.y()) > real_threshold)
+  if (!(std::abs(v1.y() - v2.y()) <= real_threshold))
   {
     return false;
   }
-  if (std::abs(v1.z() - v2.z()) > real_threshold)
+  if (!(std::abs(v1.z() - v2.z()) <= real_threshold))
   {
     return false;
   }
-- 
2.43.0


From 2de639024919526f2f7ef0c76523bad9c7c7628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 31/37] fix: GetArbitraryOrthogonalVector does not return
 rounding errors

---
 include/common_robotics_utilities/math.hpp | 25 +++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 5e885d5..a22dfe1 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -446,23 +446,22 @@ template <typename DerivedV>
 Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
 GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
 {
-  // We're going to try arbitrary possibilities until one of them works
+  // Reject the axis that is furthest from parallel to the vector, so that what
+  // remains is never just the rounding error of a parallel axis.
   const ssize_t vector_size = vector.size();
   if (vector_size > 0)
   {
-    for (ssize_t idx = 0; idx < vector_size; idx++)
+    ssize_t axis = 0;
+    vector.cwiseAbs().minCoeff(&axis);
+    Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> test_vector
+        = Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
+        ::Zero(vector_size);
+    test_vector(axis) = static_cast<typename DerivedV::Scalar>(1.0);
+    const auto rejected_vector = VectorRejection(vector, test_vector);
+    // In two or more dimensions, at least half of the squared norm remains.
+    if (rejected_vector.squaredNorm() > 0.25)
     {
-      Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> test_vector
-          = Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
-          ::Zero(vector_size);
-      test_vector(idx) = static_cast<typename DerivedV::Scalar>(1.0);
-      const auto rejected_vector = VectorRejection(vector, test_vector);
-      const typename DerivedV::Scalar rejected_vector_squared_norm
-          = rejected_vector.squaredNorm();
-      if (rejected_vector_squared_norm > 0)
-      {
-        return rejected_vector;
-      }
+      return rejected_vector;
     }
     throw std::runtime_error("Vector rejection failed to find orthogonal"
                              " vector, probably numerical error");
-- 
2.43.0


From 6da280c07f4aae700b9c69340fe141e39052f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:38 +0000
Subject: [PATCH 32/37] fix: copies of a TOTP trajectory do not use the segment
 cache of the original

---
 .../time_optimal_trajectory_parametrization.cpp       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..bdd648d 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -273,6 +273,17 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // The cached segment refers to the trajectory of the object it belongs to, so
+  // copies start without one.
+  Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
-- 
2.43.0


From 8eba5ceab0a1810f7886462eee6f9fd33ade42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:38 +0000
Subject: [PATCH 33/37] fix: TOTP trajectories refuse negative and NaN query
 times before looking them up

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index bdd648d..3a86c0c 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1181,6 +1181,10 @@ public:
   PositionVelocityTimePoint GetPositionVelocityTimePoint(
       const double time) const override
   {
+    if (!(time >= 0.0))
+    {
+      throw std::invalid_argument("time must be >= 0");
+    }
     const auto position_velocity = totp_trajectory_.GetPositionVelocity(time);
     return PositionVelocityTimePoint(
         position_velocity.first, position_velocity.second, time);
-- 
2.43.0


From 0d3ca7f85a2d7f2cd19ae1889b888f509111703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:38 +0000
Subject: [PATCH 34/37] fix: TOTP refuses paths without length and limits of
 the wrong size or sign

---
 ...ime_optimal_trajectory_parametrization.cpp | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 3a86c0c..93b59a5 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -377,6 +377,13 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
     throw std::invalid_argument(
         "TOTP for paths with fewer than two waypoints is ill-defined");
   }
+  for (const auto& waypoint : path)
+  {
+    if (waypoint.size() != path.front().size())
+    {
+      throw std::invalid_argument("waypoints must all have the same size");
+    }
+  }
   if (!std::isfinite(max_deviation))
   {
     throw std::invalid_argument("max_deviation must be finite");
@@ -553,6 +560,27 @@ Trajectory::Trajectory(const Path& path,
   {
     throw std::invalid_argument("timestep must be finite");
   }
+  if (!(path_.Length() > 0.0))
+  {
+    throw std::invalid_argument("TOTP for paths without length is ill-defined");
+  }
+  const ssize_t path_dimensions = path_.GetConfig(0.0).size();
+  if (max_velocity_.size() != path_dimensions
+      || max_acceleration_.size() != path_dimensions)
+  {
+    throw std::invalid_argument(
+        "max_velocity and max_acceleration must have the size of a waypoint");
+  }
+  if ((max_velocity_.array() < 0.0).any()
+      || (max_acceleration_.array() < 0.0).any())
+  {
+    throw std::invalid_argument(
+        "max_velocity and max_acceleration must be >= 0");
+  }
+  if (time_step_ <= 0.0)
+  {
+    throw std::invalid_argument("timestep must be > 0");
+  }
 
   trajectory_.push_back(TrajectoryStep(0.0, 0.0));
   double after_acceleration = GetMinMaxPathAcceleration(0.0, 0.0, true);
-- 
2.43.0


From a8c5d0c87ae48e1c5355f176126a75311adf0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 35/37] fix: repeated waypoints at the end of a TOTP path

---
 ...ime_optimal_trajectory_parametrization.cpp | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 93b59a5..d23e6af 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -410,17 +410,33 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
         path_segments_.push_back(
               new LinearPathSegment(start_config, end_config));
       }
-      path_segments_.push_back(blend_segment);
       start_config = blend_segment->GetConfig(blend_segment->Length());
+      // Straight and repeated waypoints have nothing to blend.
+      if (blend_segment->Length() > 0.0)
+      {
+        path_segments_.push_back(blend_segment);
+      }
+      else
+      {
+        delete blend_segment;
+      }
     }
     else
     {
-      path_segments_.push_back(new LinearPathSegment(start_config, *config2));
-      start_config = *config2;
+      // Repeated waypoints have no direction to move in between them.
+      if ((*config2 - start_config).norm() > 0.0)
+      {
+        path_segments_.push_back(new LinearPathSegment(start_config, *config2));
+        start_config = *config2;
+      }
     }
     config1 = config2;
     config2++;
   }
+  if (path_segments_.empty())
+  {
+    throw std::invalid_argument("TOTP for paths without length is ill-defined");
+  }
   // Create std::list of switching point candidates,
   // calculate total path length and absolute positions of path segments
   for (std::list<PathSegment*>::iterator segment = path_segments_.begin();
-- 
2.43.0


From e347ce87bce300f43b5070ac7698976b46416d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:22 +0000
Subject: [PATCH 36/37] fix: TOTP blends of reversing paths are numbers

---
 .../time_optimal_trajectory_parametrization.cpp                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index d23e6af..5f79524 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -157,7 +157,8 @@ public:
     }
     double distance = std::min((start - intersection).norm(),
                                (end - intersection).norm());
-    const double angle = std::acos(start_direction.dot(end_direction));
+    const double angle = std::acos(utility::ClampValue(
+        start_direction.dot(end_direction), -1.0, 1.0));
     // Enforce max deviation limit
     const double deviation_limited_distance
         = max_deviation * std::sin(0.5 * angle) / (1.0 - std::cos(0.5 * angle));
-- 
2.43.0


From 06a6b96bc3ae9885cdb8b002fcaf3d5261d96038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:32 +0000
Subject: [PATCH 37/37] fix: TOTP does not blend reversing corners

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 5f79524..1a270b0 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -146,7 +146,9 @@ public:
     }
     const Eigen::VectorXd start_direction = (intersection - start).normalized();
     const Eigen::VectorXd end_direction = (end - intersection).normalized();
-    if ((start_direction - end_direction).norm() < 0.000001)
+    // Neither straight nor reversing corners have an arc to blend with
+    if ((start_direction - end_direction).norm() < 0.000001
+        || (start_direction + end_direction).norm() < 0.000001)
     {
       length_ = 0.0;
       radius_ = 1.0;
-- 
2.43.0

