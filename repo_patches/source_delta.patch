From a73e11c09f43aa89cc58f7d5ce14ddef91d72dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 01/57] fix: order samples exactly in partition and median
 shift

Values closer than epsilon were treated as equal when partitioning around
a pivot, so samples of small magnitude landed on the wrong side of a cut
and the searches that prune on it returned wrong neighbours.
---
 include/ffcl/common/algorithms/Sorting.hpp               | 6 ++----
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..de81e3b 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (!(pivot_value < samples_range_first[indices_range_first[left_index] * n_features + feature_index])) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..5841428 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               !(samples_range_first[left_neighbor_it[0] * n_features + feature_index] < cut_value)) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From a2467542ad74020ff580098635ee0ae9723a4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 02/57] fix: let trees built with default options split

The default depth limit was common::infinity<std::size_t>(), which is 0,
so every default-constructed tree was a single leaf whatever its bucket
size.
---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..9b16f91 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>  // std::size_t
+#include <limits>
 #include <memory>
 #include <tuple>
 
@@ -60,7 +61,7 @@ class KDTree {
     struct Options {
         Options()
           : bucket_size_{40}
-          , max_depth_{common::infinity<std::size_t>()}
+          , max_depth_{std::numeric_limits<std::size_t>::max()}
           , axis_selection_policy_ptr_{std::make_shared<
                 kdtree::policy::HighestVarianceBuild<IndicesIteratorType, SamplesIteratorType, BoundType>>()}
           , splitting_rule_policy_ptr_{
@@ -113,7 +114,7 @@ class KDTree {
                 writer.Int64(bucket_size_);
 
                 writer.String("max_depth");
-                writer.Int64(max_depth_);
+                writer.Uint64(max_depth_);
             }
             writer.EndObject();
         }
-- 
2.43.0


From 02b77c0f4cfd829b74c731df42d458fc2d4c0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 03/57] fix: use every selected sample in masked variances

The masked per-feature variance repeated the first index of the range
instead of visiting all of them, so the axis picked through a feature
mask did not depend on the spread of the data.
---
 include/ffcl/common/math/statistics/Statistics.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..15199b1 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,8 +315,9 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
@@ -417,8 +418,9 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
-- 
2.43.0


From 8625df66ea4e0269c718c2f8b2353cae4f456a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 04/57] fix: keep axis selection inside the node and the
 feature mask

With two samples left the variance policy measured the whole dataset
instead of the node, and masked selection could fall back to feature 0
or to a random feature that is not in the mask.
---
 .../ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 5841428..56c6c12 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -30,7 +30,7 @@ std::size_t select_longest_axis(const Bound& bound, const std::vector<std::size_
     static_assert(std::is_trivial_v<DataType>, "DataType must be trivial.");
 
     // feature index of the greatest range dimension in the kd bounding box at the indices of the feature_mask
-    std::size_t current_max_range_feature_index = 0;
+    std::size_t current_max_range_feature_index = feature_mask[0];
     DataType    current_max_range               = 0;
 
     // "feature_index"s are only the ones specified in the feature_mask
@@ -88,7 +88,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator& indices_range_fi
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound);
     }
@@ -147,12 +148,13 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound, feature_mask);
     }
     // return a random axis if theres only one sample left
-    return common::math::random::uniform_distribution<std::size_t>(0, n_features - 1)();
+    return feature_mask[common::math::random::uniform_distribution<std::size_t>(0, feature_mask.size() - 1)()];
 }
 template <typename ForwardedIndicesIteratorPair, typename SamplesIterator>
 auto shift_median_to_leftmost_equal_value(std::size_t                    median_index,
-- 
2.43.0


From ed128f322c55f4516858b6e207755c39f090c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 05/57] fix: round the centre of negative integer intervals to
 the left

An even negative sum was lowered by one although it divides exactly, so
the centre of e.g. [-3,-1] was -3.
---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..30a777c 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -447,7 +447,7 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     const auto lower_plus_upper = lower + upper;
 
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        return lower_plus_upper < 0 ? (lower_plus_upper - 1) / 2 : lower_plus_upper / 2;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From 44ba9e3598d3b1f259faa0de62b981b7e0befc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:05 +0000
Subject: [PATCH 06/57] fix: make the default buffer capacity unlimited

The default capacity was common::infinity<std::size_t>(), which is 0: an
empty buffer reported no remaining room, so searches over integer samples
pruned every sibling until something had been found.
---
 include/ffcl/search/buffer/StaticBuffer.hpp  |  3 ++-
 include/ffcl/search/buffer/Unsorted.hpp      |  5 +++--
 include/ffcl/search/buffer/WithMemory.hpp    | 17 +++++++++--------
 include/ffcl/search/buffer/WithUnionFind.hpp |  5 +++--
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..3c5b6b9 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -40,7 +41,7 @@ class StaticBuffer {
     static_assert(common::is_iterator<IndicesIteratorType>::value, "IndicesIteratorType is not an iterator");
     static_assert(common::is_iterator<DistancesIteratorType>::value, "DistancesIteratorType is not an iterator");
 
-    explicit StaticBuffer(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit StaticBuffer(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : bound_{std::forward<BoundType>(bound)}
       , indices_{}
       , distances_{}
diff --git a/include/ffcl/search/buffer/Unsorted.hpp b/include/ffcl/search/buffer/Unsorted.hpp
index 7a40f53..8e576f6 100644
--- a/include/ffcl/search/buffer/Unsorted.hpp
+++ b/include/ffcl/search/buffer/Unsorted.hpp
@@ -8,6 +8,7 @@
 
 #include "ffcl/common/Utils.hpp"
 
+#include <limits>
 #include <vector>
 
 namespace ffcl::search::buffer {
@@ -26,12 +27,12 @@ class Unsorted : public StaticBuffer<Unsorted<DistancesIterator, Bound>> {
     using IndicesIteratorType   = typename IndicesType::iterator;
     using DistancesIteratorType = DistancesIterator;
 
-    explicit Unsorted(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit Unsorted(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<Unsorted<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity) {}
 
     explicit Unsorted(const DistancesIteratorType& centroid_features_query_first,
                       const DistancesIteratorType& centroid_features_query_last,
-                      const IndexType&             max_capacity = common::infinity<IndexType>())
+                      const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : Unsorted{BoundType{centroid_features_query_first, centroid_features_query_last}, max_capacity} {}
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..b5ddbd0 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -8,6 +8,7 @@
 
 #include "ffcl/common/Utils.hpp"
 
+#include <limits>
 #include <unordered_set>
 #include <vector>
 
@@ -31,21 +32,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     using VisitedIndicesIteratorType = typename VisitedIndices::iterator;
 
-    explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
       , visited_indices_const_reference_{visited_indices_} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
-               const IndexType&      max_capacity = common::infinity<IndexType>())
+               const IndexType&      max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
       , visited_indices_const_reference_{visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
-               const IndexType& max_capacity = common::infinity<IndexType>())
+               const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
       , visited_indices_const_reference_{visited_indices_} {}
@@ -53,18 +54,18 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
                const VisitedIndicesIteratorType& visited_indices_last,
-               const IndexType&                  max_capacity = common::infinity<IndexType>())
+               const IndexType&                  max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(std::move(bound), VisitedIndices(visited_indices_first, visited_indices_last), max_capacity) {}
 
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last}, max_capacity) {}
 
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
                const VisitedIndices&        visited_indices_reference,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    visited_indices_reference,
                    max_capacity) {}
@@ -72,7 +73,7 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
                VisitedIndices&&             visited_indices,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    std::move(visited_indices),
                    max_capacity) {}
@@ -81,7 +82,7 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
                const DistancesIteratorType&      centroid_features_query_last,
                const VisitedIndicesIteratorType& visited_indices_first,
                const VisitedIndicesIteratorType& visited_indices_last,
-               const IndexType&                  max_capacity = common::infinity<IndexType>())
+               const IndexType&                  max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    visited_indices_first,
                    visited_indices_last,
diff --git a/include/ffcl/search/buffer/WithUnionFind.hpp b/include/ffcl/search/buffer/WithUnionFind.hpp
index ea59ec0..7a80f8b 100644
--- a/include/ffcl/search/buffer/WithUnionFind.hpp
+++ b/include/ffcl/search/buffer/WithUnionFind.hpp
@@ -6,6 +6,7 @@
 
 #include "ffcl/datastruct/UnionFind.hpp"
 
+#include <limits>
 #include <vector>
 
 namespace ffcl::search::buffer {
@@ -29,7 +30,7 @@ class WithUnionFind : public StaticBuffer<WithUnionFind<DistancesIterator, Bound
     WithUnionFind(BoundType&&             bound,
                   UnionFindConstReference union_find_const_reference,
                   const IndexType&        query_representative,
-                  const IndexType&        max_capacity = common::infinity<IndexType>())
+                  const IndexType&        max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithUnionFind<DistancesIterator, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , union_find_const_reference_{union_find_const_reference}
       , query_representative_{query_representative} {}
@@ -38,7 +39,7 @@ class WithUnionFind : public StaticBuffer<WithUnionFind<DistancesIterator, Bound
                   const DistancesIterator& centroid_features_query_last,
                   UnionFindConstReference  union_find_const_reference,
                   const IndexType&         query_representative,
-                  const IndexType&         max_capacity = common::infinity<IndexType>())
+                  const IndexType&         max_capacity = std::numeric_limits<IndexType>::max())
       : WithUnionFind(BoundType(centroid_features_query_first, centroid_features_query_last),
                       union_find_const_reference,
                       query_representative,
-- 
2.43.0


From 998c38f08b2ddb0b9a048c43bf05ea6ce1c12a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 07/57] fix: keep the visited set of a search buffer valid when
 it moves

A buffer that owns its visited set referred to itself; the copy made by
the searcher then consulted the moved-from (empty) set of the original and
returned samples that had to be excluded.
---
 include/ffcl/search/buffer/WithMemory.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index b5ddbd0..e9f7b5e 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -35,21 +35,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , borrowed_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , borrowed_visited_indices_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , borrowed_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -90,8 +90,9 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices = borrowed_visited_indices_ ? *borrowed_visited_indices_ : visited_indices_;
+
+        const bool is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -121,8 +122,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    // the visited indices owned by the buffer
+    VisitedIndices visited_indices_;
+    // the visited indices owned by the caller, or nullptr if the buffer owns them
+    const VisitedIndices* borrowed_visited_indices_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From 83068b0204481991b16926e78c3d7a6bdb524266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:45 +0000
Subject: [PATCH 08/57] fix: keep the k shortest edges of a dual-tree search
 for every distance type

---
 .../search/buffer/IndicesToBuffersMap.hpp     | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..b21fb5b 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -6,6 +6,7 @@
 #include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"  // for ffcl::datastruct::mst::Edge
 
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <queue>
 #include <unordered_map>
@@ -136,6 +137,11 @@ class IndicesToBuffersMap {
     bool emplace_nodes_combination_if_not_found(const QueryNodePtr& query_node, const ReferenceNodePtr& reference_node);
 
   private:
+    // No distance is greater than this one, including for the types that cannot represent infinity.
+    static constexpr DistanceType unbounded_distance_ = std::numeric_limits<DistanceType>::has_infinity
+                                                            ? std::numeric_limits<DistanceType>::infinity()
+                                                            : std::numeric_limits<DistanceType>::max();
+
     struct BoundsLimits {
         void try_update_closest_limit(const DistanceType& closest_limit_candidate) {
             closest_limit = std::min(closest_limit, closest_limit_candidate);
@@ -151,12 +157,12 @@ class IndicesToBuffersMap {
         }
 
         auto compute_adjusted_bound(const DistanceType& node_diameter) const -> DistanceType {
-            return (closest_limit < common::infinity<DistanceType>() - node_diameter)
+            return (closest_limit < unbounded_distance_ - node_diameter)
                        ? std::min(furthest_limit, closest_limit + node_diameter)
-                       : common::infinity<DistanceType>();
+                       : unbounded_distance_;
         }
 
-        DistanceType closest_limit  = common::infinity<DistanceType>();
+        DistanceType closest_limit  = unbounded_distance_;
         DistanceType furthest_limit = 0;
     };
 
@@ -364,8 +370,6 @@ auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::query_node_fur
 template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
 auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_bounds_limits(const QueryNodePtr& query_node)
     -> typename std::unordered_map<QueryNodePtr, BoundsLimits>::iterator {
-    static constexpr auto infinity = common::infinity<DistanceType>();
-
     // Try to emplace if the 'query_node' key is not already present. Return 'first' to discard the bool (not) inserted.
     auto query_node_to_bound_limits_it = query_nodes_to_bounds_limits_map_.emplace(query_node, BoundsLimits{}).first;
 
@@ -375,12 +379,12 @@ auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_bounds_
         // default. We also don't need to iterate further since the next nodes will never be greater than
         // infinity.
         if (index_to_buffer_it == queries_to_buffers_map_.cend()) {
-            query_node_to_bound_limits_it->second.furthest_limit = infinity;
+            query_node_to_bound_limits_it->second.furthest_limit = unbounded_distance_;
         }
         // If there's remaining space in the buffers, then candidates might potentially be further than the
         // buffer's current furthest distance.
         else if (index_to_buffer_it->second.remaining_capacity()) {
-            query_node_to_bound_limits_it->second.furthest_limit = infinity;
+            query_node_to_bound_limits_it->second.furthest_limit = unbounded_distance_;
 
         } else {
             const auto query_buffer_furthest_distance = index_to_buffer_it->second.furthest_distance();
@@ -428,19 +432,16 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
-                                         ? common::infinity<DistanceType>()
-                                         : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
+    // Any element is a valid candidate as long as the priority queue has remaining space.
+    if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+        buffer.closest_distance() < std::get<2>(kth_closest_edge_priority_queue_.top())) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
         for (std::size_t buffer_index = 0; buffer_index < buffer.size(); ++buffer_index) {
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
-                                                  ? common::infinity<DistanceType>()
-                                                  : std::get<2>(kth_closest_edge_priority_queue_.top());
-
-            if (candidate_distance < pq_furthest_distance) {
+            if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+                candidate_distance < std::get<2>(kth_closest_edge_priority_queue_.top())) {
                 // Insert the combination and check if it was newly inserted.
                 if (priority_queue_visited_combinations_set_.insert({query_index, candidate_index}).second) {
                     kth_closest_edge_priority_queue_.emplace(query_index, candidate_index, candidate_distance);
-- 
2.43.0


From 0dc37502e3112718a010c3c7c32d9a2b743538bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:45 +0000
Subject: [PATCH 09/57] fix: start the shortest edge of integer samples from
 the largest distance

---
 .../graph/spanning_tree/MinimumSpanningTree.hpp           | 8 +++++++-
 include/ffcl/search/ClosestPairOfSamples.hpp              | 5 ++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
index 5f105ea..8fb63fd 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
@@ -3,6 +3,7 @@
 #include "ffcl/common/Utils.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -23,7 +24,12 @@ constexpr auto make_edge(const Index& index_1, const Index& index_2, const Dista
 
 template <typename Index, typename Distance>
 constexpr auto make_default_edge() {
-    return make_edge(common::infinity<Index>(), common::infinity<Index>(), common::infinity<Distance>());
+    // The distance must compare greater than any other, including for the types that cannot represent infinity.
+    constexpr auto unbounded_distance = std::numeric_limits<Distance>::has_infinity
+                                            ? std::numeric_limits<Distance>::infinity()
+                                            : std::numeric_limits<Distance>::max();
+
+    return make_edge(common::infinity<Index>(), common::infinity<Index>(), unbounded_distance);
 }
 
 template <typename Index, typename Distance>
diff --git a/include/ffcl/search/ClosestPairOfSamples.hpp b/include/ffcl/search/ClosestPairOfSamples.hpp
index 57de4dc..1628f76 100644
--- a/include/ffcl/search/ClosestPairOfSamples.hpp
+++ b/include/ffcl/search/ClosestPairOfSamples.hpp
@@ -33,9 +33,8 @@ auto simple_dual_set_shortest_edge(
     std::size_t                                                                              other_n_features,
     const datastruct::mst::Edge<typename std::iterator_traits<IndicesIterator>::value_type,
                                 typename std::iterator_traits<SamplesIterator>::value_type>& initial_shortest_edge =
-        datastruct::mst::make_edge(common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
-                                   common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
-                                   common::infinity<typename std::iterator_traits<SamplesIterator>::value_type>()))
+        datastruct::mst::make_default_edge<typename std::iterator_traits<IndicesIterator>::value_type,
+                                           typename std::iterator_traits<SamplesIterator>::value_type>())
     -> datastruct::mst::Edge<typename std::iterator_traits<IndicesIterator>::value_type,
                              typename std::iterator_traits<SamplesIterator>::value_type> {
     common::ignore_parameters(samples_range_last, other_samples_range_last);
-- 
2.43.0


From bc7c7ae09ff2be2abf51ae9b63406afa7ce937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:34 +0000
Subject: [PATCH 10/57] fix: select the shortest mutual reachability edge of
 each component

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 119 +++++++++++-------
 1 file changed, 74 insertions(+), 45 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..eeed011 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -6,6 +6,8 @@
 
 #include "ffcl/datastruct/UnionFind.hpp"
 
+#include "ffcl/datastruct/bounds/Ball.hpp"
+
 #include "ffcl/search/buffer/WithUnionFind.hpp"
 
 #include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
@@ -203,6 +205,17 @@ class BoruvkasAlgorithm {
         UnionFindType union_find_;
     };
 
+    /**
+     * @brief Updates 'closest_edge' if the query has a shorter k-mutual reachability distance with a sample that doesn't
+     * belong to its component. The nearest sample is not necessarily the one with the shortest mutual reachability.
+     */
+    void update_closest_edge(const search::Searcher<Indexer>& searcher,
+                             const CoreDistancesArrayType&    core_distances,
+                             const Forest&                    forest,
+                             const IndexType&                 component_representative,
+                             const IndexType&                 query_index,
+                             EdgeType&                        closest_edge) const;
+
     void step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const;
 
     void step_sequential(const search::Searcher<Indexer>& searcher,
@@ -277,6 +290,59 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
 }
 
+template <typename Indexer>
+void BoruvkasAlgorithm<Indexer>::update_closest_edge(const search::Searcher<Indexer>& searcher,
+                                                     const CoreDistancesArrayType&    core_distances,
+                                                     const Forest&                    forest,
+                                                     const IndexType&                 component_representative,
+                                                     const IndexType&                 query_index,
+                                                     EdgeType&                        closest_edge) const {
+    auto try_update_closest_edge = [&](const IndexType& neighbor_index, const ValueType& neighbor_distance) {
+        const auto k_mutual_reachability_distance =
+            std::max({core_distances[query_index], core_distances[neighbor_index], neighbor_distance});
+
+        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
+        // current shortest edge distance
+        if (k_mutual_reachability_distance < std::get<2>(closest_edge)) {
+            closest_edge = EdgeType{query_index, neighbor_index, k_mutual_reachability_distance};
+        }
+    };
+    // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
+    // the same component using the UnionFind data structure
+    const auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
+                                                                        searcher.features_range_last(query_index),
+                                                                        forest.get_union_find_const_reference(),
+                                                                        component_representative,
+                                                                        /*max_capacity=*/static_cast<IndexType>(1)));
+
+    // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
+    try_update_closest_edge(nn_buffer_query.furthest_index(), nn_buffer_query.furthest_distance());
+
+    // no mutual reachability distance with the query can be lesser than this one
+    const auto shortest_possible_distance =
+        std::max(core_distances[query_index], nn_buffer_query.furthest_distance());
+
+    // a shorter edge can still exist with a sample that is further than the nearest one but has a lesser core distance
+    if (shortest_possible_distance < std::get<2>(closest_edge)) {
+        using FeaturesIteratorType = decltype(searcher.features_range_first(query_index));
+        using BallViewType         = datastruct::bounds::BallView<FeaturesIteratorType>;
+
+        const auto candidates_buffer = searcher(search::buffer::WithUnionFind<FeaturesIteratorType, BallViewType>(
+            BallViewType(searcher.features_range_first(query_index),
+                         searcher.features_range_last(query_index),
+                         std::get<2>(closest_edge)),
+            forest.get_union_find_const_reference(),
+            component_representative));
+
+        const auto candidates_indices   = candidates_buffer.indices();
+        const auto candidates_distances = candidates_buffer.distances();
+
+        for (std::size_t candidate_index = 0; candidate_index < candidates_indices.size(); ++candidate_index) {
+            try_update_closest_edge(candidates_indices[candidate_index], candidates_distances[candidate_index]);
+        }
+    }
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher,
                                                  const CoreDistancesArrayType&    core_distances,
@@ -290,29 +356,12 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-            // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
-            // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-            }
+            update_closest_edge(searcher,
+                                core_distances,
+                                forest,
+                                component_representative,
+                                query_index,
+                                components_closest_edge[component_representative]);
         }
     }
     // merge components based on the best edges found in each component so far
@@ -390,28 +439,8 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
-        // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-        }
+        update_closest_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index, closest_edge);
     }
     // merge components based on the best edge found
     forest.merge_components(closest_edge);
-- 
2.43.0


From 2800677eb4d519745ff60e47eb5c43ec4ece85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 11/57] fix: label the components below the cut level of a
 single linkage tree

---
 .../SingleLinkageClusterTree.hpp                    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..868023a 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,14 +153,15 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
-    // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
-        // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level
+    // update the cluster label only if the current node has been separated from its sibling at or above the desired cut
+    // level else the cluster label of the ancestor is used for all the descendant nodes from the current node
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
+        // set the cluster label as noise (0) if the current node is parent of less than 'min cluster size' nodes
+        // else set the cluster label from the current node. The representatives start from 0, which denotes noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                             ? 0
-                            : single_linkage_cluster_node->representative_;
+                            : single_linkage_cluster_node->representative_ + 1;
     }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-- 
2.43.0


From fa447a08c121924525f0d6ce1353daff518e2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:31 +0000
Subject: [PATCH 12/57] fix: keep every integer level below the default cut
 level

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 868023a..4bdec89 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -4,6 +4,7 @@
 #include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"
 
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <unordered_map>
@@ -56,7 +57,9 @@ class SingleLinkageClusterTree {
             return *this;
         }
 
-        ValueType   cut_level_        = common::infinity<ValueType>();
+        ValueType   cut_level_        = std::numeric_limits<ValueType>::has_infinity
+                                            ? std::numeric_limits<ValueType>::infinity()
+                                            : std::numeric_limits<ValueType>::max();
         std::size_t min_cluster_size_ = 1;
     };
 
-- 
2.43.0


From ab3a4b4e037bb712806bc84b92a5168c25c6c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 13/57] fix: divide by small denominators instead of treating
 them as zero

---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 30a777c..8f401cc 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -430,7 +430,7 @@ constexpr bool inequality(const T& a, const U& b) noexcept {
 template <typename T, typename U>
 constexpr auto division(const T& numerator, const U& denominator, const U& default_return_value = 0)
     -> std::common_type_t<T, U> {
-    if (equality(denominator, static_cast<U>(0))) {
+    if (denominator == static_cast<U>(0)) {
 #if defined(VERBOSE) && VERBOSE == true
         printf("[WARN] attempted division by zero: returning default_return_value.\n");
 #endif
-- 
2.43.0


From 3cc7969fd49e225a24fc2a57fcbed5d1080943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 14/57] fix: give clusters merged at distance zero the highest
 density

---
 .../tree/condensed_cluster_tree/CondensedClusterNode.hpp     | 4 +++-
 .../tree/condensed_cluster_tree/CondensedClusterTree.hpp     | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..02827ae 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -54,7 +54,9 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? common::division(1,
+                                       single_linkage_cluster_node_root_->parent_->level_,
+                                       std::numeric_limits<ValueType>::max())
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index fd6628a..1eb4060 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -5,6 +5,7 @@
 #include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
 
+#include <limits>
 #include <map>
 #include <memory>
 #include <type_traits>
@@ -152,7 +153,9 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             single_linkage_cluster_node->right_->size() >= options_.min_cluster_size_;
 
         // the lambda value needs to be computed for any of the if/else branches
-        const auto lambda_value = common::division(1, single_linkage_cluster_node->level_);
+        // samples merged at distance zero are infinitely dense
+        const auto lambda_value =
+            common::division(1, single_linkage_cluster_node->level_, std::numeric_limits<ValueType>::max());
 
         // if both children are split candidates (they hold enough samples to be considered as their own cluster), we
         // consider the event as a true split and split the condensed cluster node in two new condensed cluster nodes
-- 
2.43.0


From 7ee1f146b28192e3c00f5420045a210d84117864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 15/57] fix: label noise reached through any dense sample as a
 border sample

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..bb4b20b 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been visited already or if they were only known as noise until now
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&visited_indices, &predictions](const auto& inner_neighbor_index) {
+                                 return !visited_indices[inner_neighbor_index] ||
+                                        predictions[inner_neighbor_index] ==
+                                            static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 340b165738cc2648f33e8c07f4cf35bb701d450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:01 +0000
Subject: [PATCH 16/57] fix: report the actual total deviation of Hamerly's
 algorithm

---
 include/ffcl/kmeans/Hamerly.hpp | 48 +++++++++++----------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..8f63db4 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -24,10 +24,6 @@ class Hamerly {
 
     Hamerly(const DatasetDescriptorType& dataset_descriptor, const std::vector<DataType>& centroids);
 
-    Hamerly(const DatasetDescriptorType& dataset_descriptor,
-            const std::vector<DataType>& centroids,
-            const DataType&              loss);
-
     Hamerly(const Hamerly&) = delete;
 
     auto total_deviation() const;
@@ -62,37 +58,33 @@ class Hamerly {
 
     void update_centroids_velocities(const std::vector<DataType>& previous_centroids);
 
-    auto update_bounds();
+    void update_bounds();
 
     DatasetDescriptorType    dataset_descriptor_;
     std::vector<DataType>    centroids_;
     std::unique_ptr<Buffers> buffers_ptr_;
-    DataType                 loss_;
 };
 
 template <typename SamplesIterator>
 Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
                                   const std::vector<DataType>& centroids)
-  : Hamerly<SamplesIterator>::Hamerly(dataset_descriptor, centroids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::reduce(buffers_ptr_->samples_to_nearest_centroid_distances_.begin(),
-                        buffers_ptr_->samples_to_nearest_centroid_distances_.end(),
-                        static_cast<DataType>(0),
-                        std::plus<>());
-}
-
-template <typename SamplesIterator>
-Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
-                                  const std::vector<DataType>& centroids,
-                                  const DataType&              loss)
   : dataset_descriptor_{dataset_descriptor}
   , centroids_{centroids}
-  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)}
-  , loss_{loss} {}
+  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)} {}
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
-    return loss_;
+    // the buffers only hold bounds on the distances: the loss is computed from the current centroids when requested
+    const auto nearest_centroid_distances =
+        kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                             std::get<1>(dataset_descriptor_),
+                                                             std::get<2>(dataset_descriptor_),
+                                                             centroids_);
+
+    return std::reduce(nearest_centroid_distances.begin(),
+                       nearest_centroid_distances.end(),
+                       static_cast<DataType>(0),
+                       std::plus<>());
 }
 
 template <typename SamplesIterator>
@@ -109,8 +101,8 @@ auto Hamerly<SamplesIterator>::step() {
     // upate the centroids velocities based on the previous centroids and the updated centroids
     update_centroids_velocities(previous_centroids);
 
-    // recompute the loss w.r.t. the updated buffers
-    loss_ = update_bounds();
+    // move the bounds by the distances travelled by the centroids
+    update_bounds();
 
     return centroids_;
 }
@@ -146,8 +138,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                 centroids_.begin() + assigned_centroid_index * n_features,
                 centroids_.begin() + assigned_centroid_index * n_features + n_features);
 
-            const auto previous_assigned_centroid_distance = samples_to_nearest_centroid_distances[sample_index];
-
             samples_to_nearest_centroid_distances[sample_index] = upper_bound;
 
             // second bound test
@@ -205,10 +195,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                                    samples_range_first + sample_index * n_features,
                                    cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                    std::plus<>());
-
-                    // update the loss by removing its previous contribution and adding the new one
-                    loss_ -= previous_assigned_centroid_distance;
-                    loss_ += upper_bound;
                 }
             }
         }
@@ -258,7 +244,7 @@ void Hamerly<SamplesIterator>::update_centroids_velocities(const std::vector<Dat
 }
 
 template <typename SamplesIterator>
-auto Hamerly<SamplesIterator>::update_bounds() {
+void Hamerly<SamplesIterator>::update_bounds() {
     const auto [furthest_moving_centroid_index, furthest_moving_centroid_distance] =
         common::math::statistics::get_max_index_value_pair(buffers_ptr_->centroid_velocities_.begin(),
                                                            buffers_ptr_->centroid_velocities_.end());
@@ -287,8 +273,6 @@ auto Hamerly<SamplesIterator>::update_bounds() {
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-
-    return loss_;
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 6778fc068cc53e9e0452749feea7c8aa52e754ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:17 +0000
Subject: [PATCH 17/57] fix: keep the centroid of an empty cluster where it is

---
 include/ffcl/kmeans/Lloyd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..24cc05e 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,12 +111,8 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
+        // a centroid without associated samples keeps its previous position
+        if (cluster_sizes[centroid_index]) {
             // Compute the new centroid position for the centroid that has more than 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
-- 
2.43.0


From 7900fb0cea1e1f1abcc623f484b2c95b46b7e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:09 +0000
Subject: [PATCH 18/57] fix: count equally near centroids when looking for the
 second nearest one

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From e948f7221562373e82e9d172e00c8b73b82e1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:18 +0000
Subject: [PATCH 19/57] fix: start nearest centroid searches of integer samples
 from the largest distance

---
 include/ffcl/kmeans/KMeansUtils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index 108dafa..31d2995 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -3,6 +3,8 @@
 #include "ffcl/common/Utils.hpp"
 #include "ffcl/common/math/heuristics/Distances.hpp"
 
+#include <limits>
+
 namespace kmeans::utils {
 
 template <typename SamplesIterator>
@@ -21,7 +23,7 @@ std::vector<std::size_t> samples_to_nearest_centroid_indices(
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         // distance buffer for a given data sample to each cluster
-        auto        min_distance = ffcl::common::infinity<DataType>();
+        auto        min_distance = std::numeric_limits<DataType>::max();
         std::size_t min_index    = 0;
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
@@ -56,7 +58,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
     auto nearest_centroid_distances = std::vector<DataType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
             const auto nearest_candidate = ffcl::common::math::heuristics::auto_distance(
@@ -173,7 +175,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> nearest_
     auto neighbor_distances = std::vector<DataType>(n_rows);
 
     for (std::size_t row_index = 0; row_index < n_rows; ++row_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t other_row_index = 0; other_row_index < n_rows; ++other_row_index) {
             if (row_index != other_row_index) {
-- 
2.43.0


From b58b7243c5224e16fe1aa9e2f5d1d8defe3ff012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 20/57] fix: never propose a medoid as its own replacement

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..7935298 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -146,11 +146,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..ead8bc1 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From f47a4daa321bf3d0eb63f0b6cf140cd6325cfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 21/57] fix: count equally near medoids when looking for the
 second and third nearest one

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From 4172e2969f785379dc20ab1f76ed535dc0924f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 22/57] fix: do not mistake the first medoid for a missing
 third nearest one

---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 7935298..24d36d4 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -333,7 +333,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -373,7 +373,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -417,7 +417,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From c33cd8c60de0329860fee9ffc64a67bb0be642fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:40 +0000
Subject: [PATCH 23/57] fix: keep the two medoid silhouette objective exact

---
 include/ffcl/kmedoids/FasterMSC.hpp | 78 +++++++++++++++++++----------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 24d36d4..2b8b3f2 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -73,6 +73,8 @@ class FasterMSC {
 
         Buffers(const Buffers&) = delete;
 
+        DataType compute_loss() const;
+
         void update_losses_with_closest_medoid_removal(std::size_t n_medoids);
 
         std::vector<std::size_t> samples_to_nearest_medoid_indices_;
@@ -104,9 +106,7 @@ FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_de
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = buffers_ptr_->compute_loss();
 }
 
 template <typename SamplesIterator>
@@ -124,9 +124,7 @@ FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_d
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = buffers_ptr_->compute_loss();
 }
 
 template <typename SamplesIterator>
@@ -470,8 +468,8 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
         if (other_sample_index == medoid_candidate_index) {
-            index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
+            index_1 = best_swap_index;
+            (best_swap_index == 0 ? distance_1 : distance_2) = 0;
             continue;
         }
         // candidate_to_other_distance
@@ -482,7 +480,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
 
         if (best_swap_index == 0) {
             distance_1 = distance_oc;
-            if (distance_oc < distance_2 || (common::equality(distance_oc, distance_2) && index_1 == 0)) {
+            if (distance_oc < distance_2 || (distance_oc <= distance_2 && index_1 == 0)) {
                 index_1 = 0;
                 loss += common::division(distance_oc, distance_2);
             } else {
@@ -491,7 +489,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
             }
         } else {
             distance_2 = distance_oc;
-            if (distance_oc < distance_1 || (common::equality(distance_oc, distance_1) && index_1 == 1)) {
+            if (distance_oc < distance_1 || (distance_oc <= distance_1 && index_1 == 1)) {
                 index_1 = 1;
                 loss += common::division(distance_oc, distance_1);
             } else {
@@ -530,16 +528,23 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SamplesIterator&          sam
                                                                                                    /*n_closest=*/3)
                                                : std::vector<std::size_t>({})}
 
-  , samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
-                                                                                             samples_range_last,
-                                                                                             n_features,
-                                                                                             medoids,
-                                                                                             /*n_closest=*/1)}
-  , samples_to_second_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
-                                                                                                    samples_range_last,
-                                                                                                    n_features,
-                                                                                                    medoids,
-                                                                                                    /*n_closest=*/2)}
+  , /* Distances by medoid position, not closeness, when n_medoids = 2 (K2) */
+  samples_to_nearest_medoid_distances_{
+      (medoids.size() != 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
+                                                                                 samples_range_last,
+                                                                                 n_features,
+                                                                                 medoids,
+                                                                                 /*n_closest=*/1)
+                           : pam::utils::samples_to_nearest_medoid_distances(
+                                 samples_range_first, samples_range_last, n_features, {medoids[0]})}
+  , samples_to_second_nearest_medoid_distances_{
+        (medoids.size() != 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
+                                                                                   samples_range_last,
+                                                                                   n_features,
+                                                                                   medoids,
+                                                                                   /*n_closest=*/2)
+                             : pam::utils::samples_to_nearest_medoid_distances(
+                                   samples_range_first, samples_range_last, n_features, {medoids[1]})}
   , /* Not required when n_medoids = 2 (K2) */
   samples_to_third_nearest_medoid_distances_{
       (medoids.size() > 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(samples_range_first,
@@ -586,13 +591,19 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SecondVariantType&        pai
                                                                                /*n_closest=*/3)
                            : std::vector<std::size_t>({})}
 
-  , samples_to_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
-                                                                                             medoids,
-                                                                                             /*n_closest=*/1)}
-  , samples_to_second_nearest_medoid_distances_{pam::utils::samples_to_nth_nearest_medoid_distances(
-        pairwise_distance_matrix,
-        medoids,
-        /*n_closest=*/2)}
+  , /* Distances by medoid position, not closeness, when n_medoids = 2 (K2) */
+  samples_to_nearest_medoid_distances_{
+      (medoids.size() != 2)
+          ? pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
+                                                                medoids,
+                                                                /*n_closest=*/1)
+          : pam::utils::samples_to_nearest_medoid_distances(pairwise_distance_matrix, {medoids[0]})}
+  , samples_to_second_nearest_medoid_distances_{
+        (medoids.size() != 2)
+            ? pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
+                                                                  medoids,
+                                                                  /*n_closest=*/2)
+            : pam::utils::samples_to_nearest_medoid_distances(pairwise_distance_matrix, {medoids[1]})}
   , /* Not required when n_medoids = 2 (K2) */
   samples_to_third_nearest_medoid_distances_{
       (medoids.size() > 2) ? pam::utils::samples_to_nth_nearest_medoid_distances(pairwise_distance_matrix,
@@ -610,6 +621,19 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SecondVariantType&        pai
                                                 medoids.size())
                                           : std::vector<DataType>({})} {}
 
+template <typename SamplesIterator>
+typename FasterMSC<SamplesIterator>::DataType FasterMSC<SamplesIterator>::Buffers::compute_loss() const {
+    DataType loss = 0;
+
+    for (std::size_t sample_index = 0; sample_index < samples_to_nearest_medoid_distances_.size(); ++sample_index) {
+        const auto& distance_1 = samples_to_nearest_medoid_distances_[sample_index];
+        const auto& distance_2 = samples_to_second_nearest_medoid_distances_[sample_index];
+        // the distances are stored by medoid position, not closeness, when n_medoids = 2 (K2)
+        loss += common::division(std::min(distance_1, distance_2), std::max(distance_1, distance_2));
+    }
+    return loss;
+}
+
 template <typename SamplesIterator>
 void FasterMSC<SamplesIterator>::Buffers::update_losses_with_closest_medoid_removal(std::size_t n_medoids) {
     losses_with_closest_medoid_removal_ =
-- 
2.43.0


From 4631a970468559aa46f632cba278f481f2df8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:56 +0000
Subject: [PATCH 24/57] fix: only swap medoids when the loss itself decreases

---
 include/ffcl/kmedoids/FasterMSC.hpp | 42 ++++++++++++++++++++++++++++-
 include/ffcl/kmedoids/FasterPAM.hpp | 27 ++++++++++++++++++-
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 2b8b3f2..65033cb 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -90,6 +90,8 @@ class FasterMSC {
 
     std::pair<DataType, std::size_t> find_best_swap_k2(std::size_t medoid_candidate_index) const;
 
+    DataType compute_swap_loss(std::size_t medoid_candidate_index, std::size_t best_swap_index) const;
+
     DataType swap_buffers(std::size_t medoid_candidate_index, std::size_t best_swap_index);
 
     DataType swap_buffers_k2(std::size_t medoid_candidate_index, std::size_t best_swap_index);
@@ -159,7 +161,8 @@ auto FasterMSC<SamplesIterator>::step() {
                 // the total deviation change for the best swap candidate and its index in the dataset
                 const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-                if (best_swap_delta_td > 0) {
+                // rounding errors can make the delta of an equivalent swap positive, so the loss itself has to decrease
+                if (best_swap_delta_td > 0 && compute_swap_loss(medoid_candidate_index, best_swap_index) < loss_) {
                     // swap roles of medoid m* and non-medoid x_o
                     medoids_[best_swap_index] = medoid_candidate_index;
                     // update FasterMSC buffers
@@ -279,6 +282,43 @@ FasterMSC<SamplesIterator>::find_best_swap_k2(std::size_t medoid_candidate_index
     return {delta_td_xc + best_swap_distance, best_swap_index};
 }
 
+template <typename SamplesIterator>
+typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIterator>::compute_swap_loss(
+    std::size_t medoid_candidate_index,
+    std::size_t best_swap_index) const {
+    DataType loss = 0;
+
+    for (std::size_t other_sample_index = 0; other_sample_index < n_samples_; ++other_sample_index) {
+        // candidate_to_other_distance
+        const auto distance_oc =
+            std::holds_alternative<FirstVariantType>(storage_variant_)
+                ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
+                : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);
+
+        const auto& index_1 = buffers_ptr_->samples_to_nearest_medoid_indices_[other_sample_index];
+        const auto& index_2 = buffers_ptr_->samples_to_second_nearest_medoid_indices_[other_sample_index];
+        // distances to the nearest and second nearest of the remaining medoids
+        auto distance_1 = buffers_ptr_->samples_to_nearest_medoid_distances_[other_sample_index];
+        auto distance_2 = buffers_ptr_->samples_to_second_nearest_medoid_distances_[other_sample_index];
+
+        if (index_1 == best_swap_index) {
+            distance_1 = distance_2;
+        }
+        if (index_1 == best_swap_index || index_2 == best_swap_index) {
+            distance_2 = buffers_ptr_->samples_to_third_nearest_medoid_distances_[other_sample_index];
+        }
+        if (distance_oc < distance_1) {
+            distance_2 = distance_1;
+            distance_1 = distance_oc;
+
+        } else if (distance_oc < distance_2) {
+            distance_2 = distance_oc;
+        }
+        loss += common::division(distance_1, distance_2);
+    }
+    return loss;
+}
+
 template <typename SamplesIterator>
 typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIterator>::swap_buffers(
     std::size_t medoid_candidate_index,
diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index ead8bc1..57fbcc4 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -80,6 +80,8 @@ class FasterPAM {
 
     auto find_best_swap(std::size_t medoid_candidate_index) const;
 
+    auto compute_swap_loss(std::size_t medoid_candidate_index, std::size_t best_swap_index) const;
+
     auto swap_buffers(std::size_t medoid_candidate_index, std::size_t best_swap_index);
 
     StorageVariantType       storage_variant_;
@@ -142,7 +144,8 @@ auto FasterPAM<SamplesIterator>::step() {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-            if (best_swap_delta_td < 0) {
+            // rounding errors can make the delta of an equivalent swap negative, so the loss itself has to decrease
+            if (best_swap_delta_td < 0 && compute_swap_loss(medoid_candidate_index, best_swap_index) < loss_) {
                 // swap roles of medoid m* and non-medoid x_o
                 medoids_[best_swap_index] = medoid_candidate_index;
                 // update FasterPAM buffers
@@ -198,6 +201,28 @@ auto FasterPAM<SamplesIterator>::find_best_swap(std::size_t medoid_candidate_ind
     return std::make_pair(delta_td_xc + best_swap_distance, best_swap_index);
 }
 
+template <typename SamplesIterator>
+auto FasterPAM<SamplesIterator>::compute_swap_loss(std::size_t medoid_candidate_index,
+                                                   std::size_t best_swap_index) const {
+    DataType loss = 0;
+
+    for (std::size_t other_sample_index = 0; other_sample_index < n_samples_; ++other_sample_index) {
+        // candidate_to_other_distance
+        const auto distance_oc =
+            std::holds_alternative<FirstVariantType>(storage_variant_)
+                ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
+                : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);
+
+        // distance to the nearest of the remaining medoids
+        const auto distance_om = buffers_ptr_->samples_to_nearest_medoid_indices_[other_sample_index] == best_swap_index
+                                     ? buffers_ptr_->samples_to_second_nearest_medoid_distances_[other_sample_index]
+                                     : buffers_ptr_->samples_to_nearest_medoid_distances_[other_sample_index];
+
+        loss += std::min(static_cast<DataType>(distance_oc), distance_om);
+    }
+    return loss;
+}
+
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::swap_buffers(std::size_t medoid_candidate_index, std::size_t best_swap_index) {
     DataType loss = 0;
-- 
2.43.0


From 3cab0a3f9cde3a99ea49fc7dcc94db50e3827b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:20 +0000
Subject: [PATCH 25/57] fix: keep the upper bound when the lower bound of a
 segment with length moves

---
 include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
index 989ec1d..0b62e98 100644
--- a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
+++ b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
@@ -47,6 +47,7 @@ constexpr auto LowerBoundAndLength<Value>::lower_bound_impl() const {
 
 template <typename Value>
 void LowerBoundAndLength<Value>::update_lower_bound_impl(const ValueType& new_lower_bound) {
+    segment_representation_.second += segment_representation_.first - new_lower_bound;
     segment_representation_.first = new_lower_bound;
 }
 
-- 
2.43.0


From cb1a7d08172974508c2fddf3aea9a97bed3093c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:20 +0000
Subject: [PATCH 26/57] fix: derive fixed size boxes with centroid from their
 own static bound

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..d88af90 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -11,7 +11,7 @@
 namespace ffcl::datastruct::bounds {
 
 template <typename Segment, std::size_t NFeatures = 0>
-class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment>> {
+class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment, NFeatures>> {
     static_assert(common::is_crtp_of<Segment, segment::StaticSegment>::value,
                   "Provided a Segment that does not inherit from segment::StaticSegment<Derived>");
 
-- 
2.43.0


From 8443e748cae507dd0a43d215939380e9ce867454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 27/57] fix: keep the fractional part of the distance to the
 furthest border of a box

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index d88af90..8090dba 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From 92f6c4433921eb71997bf33e7d00d48d02027bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 28/57] fix: give unbounded balls of integers an unbounded
 extent

---
 .../ffcl/datastruct/bounds/UnboundedBall.hpp  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/bounds/UnboundedBall.hpp b/include/ffcl/datastruct/bounds/UnboundedBall.hpp
index aa366ad..ce60150 100644
--- a/include/ffcl/datastruct/bounds/UnboundedBall.hpp
+++ b/include/ffcl/datastruct/bounds/UnboundedBall.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <limits>
 #include <vector>
 #include "ffcl/common/Utils.hpp"
 #include "ffcl/datastruct/bounds/StaticBoundWithCentroid.hpp"
@@ -7,6 +8,17 @@
 
 namespace ffcl::datastruct::bounds {
 
+// the largest representable distance, integers do not have an infinity
+template <typename Value>
+constexpr Value unbounded_extent() {
+    if constexpr (std::numeric_limits<Value>::has_infinity) {
+        return common::infinity<Value>();
+
+    } else {
+        return std::numeric_limits<Value>::max();
+    }
+}
+
 template <typename Value, std::size_t NFeatures = 0>
 class UnboundedBall : public StaticBoundWithCentroid<UnboundedBall<Value, NFeatures>> {
   public:
@@ -55,7 +67,7 @@ UnboundedBall<Value, NFeatures>::UnboundedBall(CentroidType&& centroid) noexcept
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::diameter_impl() const {
-    return common::infinity<ValueType>();
+    return unbounded_extent<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
@@ -93,13 +105,13 @@ constexpr auto UnboundedBall<Value, NFeatures>::compute_distance_to_centroid_if_
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    return common::infinity<ValueType>();
+    return unbounded_extent<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
 constexpr auto UnboundedBall<Value, NFeatures>::centroid_to_bound_distance_impl(std::size_t feature_index) const {
     common::ignore_parameters(feature_index);
-    return common::infinity<ValueType>();
+    return unbounded_extent<ValueType>();
 }
 
 template <typename Value, std::size_t NFeatures>
@@ -198,13 +210,13 @@ constexpr auto UnboundedBallView<FeaturesIterator>::compute_distance_to_centroid
 
 template <typename FeaturesIterator>
 constexpr auto UnboundedBallView<FeaturesIterator>::centroid_to_furthest_bound_distance_impl() const {
-    return common::infinity<ValueType>();
+    return unbounded_extent<ValueType>();
 }
 
 template <typename FeaturesIterator>
 constexpr auto UnboundedBallView<FeaturesIterator>::centroid_to_bound_distance_impl(std::size_t feature_index) const {
     common::ignore_parameters(feature_index);
-    return common::infinity<ValueType>();
+    return unbounded_extent<ValueType>();
 }
 
 template <typename FeaturesIterator>
-- 
2.43.0


From 6ee244dcc77b994b625a898a883d5e1c8d4f59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:26 +0000
Subject: [PATCH 29/57] fix: accept every integer edge length in the spanning
 tree assertions

---
 .../datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index eeed011..255750c 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -284,7 +284,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::numeric_limits<ValueType>::max());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -366,7 +366,7 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::numeric_limits<ValueType>::max());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -529,7 +529,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_sequential(const search::Searche
     }
     // merge components based on the best edges found in each component so far
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::numeric_limits<ValueType>::max());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
@@ -586,7 +586,7 @@ void BoruvkasAlgorithm<Indexer>::step_dual_tree_parallel(const search::Searcher<
 
     // Sequentially merge components based on the best edges found in each component
     for (const auto& [component_representative, edge] : components_closest_edge) {
-        assert(std::get<2>(edge) < common::infinity<ValueType>());
+        assert(std::get<2>(edge) < std::numeric_limits<ValueType>::max());
         common::ignore_parameters(component_representative);
         forest.merge_components(edge);
     }
-- 
2.43.0


From 259f954d66e91802a4805e56a8bf19c309c8f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:49 +0000
Subject: [PATCH 30/57] fix: accept unsigned samples in the unsigned distance
 from the origin

---
 include/ffcl/common/math/heuristics/Distances.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..7d41e05 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -120,8 +120,8 @@ template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
     -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
+                  "Input must be unsigned integer.");
 
     using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
-- 
2.43.0


From 7936ceb43830c6483a9c9a3db3fa5b15167f2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:20 +0000
Subject: [PATCH 31/57] fix: return the distance from the origin by value

---
 include/ffcl/common/math/heuristics/Distances.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 7d41e05..1413acf 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,11 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +119,11 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
     static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
                   "Input must be unsigned integer.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From 042712c952c12d2bbf8194d5ba2ec154593cabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:12 +0000
Subject: [PATCH 32/57] fix: score samples alone in their cluster zero

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..9715aa6 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,9 +238,15 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
+        // the score of a sample that is alone in its cluster is zero
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            continue;
+        }
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-- 
2.43.0


From 3ad1dfda8381b77ea24a2a51ff1c73a4e010b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 33/57] fix: select random elements from the whole sequence

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From aa3a53c8bd1293187e62373e6666d045bae768fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 34/57] fix: pass the number of choices when selecting random
 samples from indices

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..f86327d 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From e73a3273d417c8620be161c7ffe808b593911a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 35/57] fix: keep spatial seeding inside the bounding box of
 negative samples

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index f86327d..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 9d4b31bc164f76733e4dff1585011521ccadc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:26 +0000
Subject: [PATCH 36/57] fix: divide the sums of signed integer features by a
 signed count

---
 include/ffcl/common/math/statistics/Statistics.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 15199b1..f5f93a8 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -246,7 +246,7 @@ auto compute_variance_per_feature(const SamplesIterator& samples_range_first,
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
     return variance_per_feature;
 }
@@ -290,7 +290,7 @@ auto compute_variance_per_feature(const IndicesIterator& indices_range_first,
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
     return variance_per_feature;
 }
@@ -324,7 +324,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
     return variance_per_feature;
 }
-- 
2.43.0


From 0b47a3547d6fde7fc1e6635b227036908d55edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:26 +0000
Subject: [PATCH 37/57] fix: return extreme positions as indices whatever the
 element type

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index f5f93a8..ffcfc1e 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From 74985df159d44cf7d07599d77798bc0b95124a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:26 +0000
Subject: [PATCH 38/57] fix: never return the maximum as the second maximum

---
 include/ffcl/common/math/statistics/Statistics.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index ffcfc1e..dd81943 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,17 +97,16 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the index of the maximum element among the remaining ones, on both sides of the maximum element
+    const auto left_max_it  = std::max_element(first, max_it);
+    const auto right_max_it = std::max_element(std::next(max_it), last);
+
+    const auto second_max_it =
+        left_max_it == max_it || (right_max_it != last && *left_max_it < *right_max_it) ? right_max_it : left_max_it;
 
-    // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
     std::size_t    second_max_idx   = std::distance(first, second_max_it);
     const DataType second_max_value = *second_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
-
     return {second_max_idx, second_max_value};
 }
 
-- 
2.43.0


From f70e46becc13ea98a7c0ea97434d934dd77e2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:26 +0000
Subject: [PATCH 39/57] fix: normalize integer ranges without integer division

---
 include/ffcl/common/math/statistics/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index dd81943..f1eec65 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -21,7 +21,7 @@ std::vector<DataType> normalize_min_max(const Iterator& first, const Iterator& l
     auto res = std::vector<DataType>(last - first);
     // closest objects get a higher score. Distance zero -> 1
     std::transform(first, last, res.begin(), [&min, &max](const auto& dist) {
-        return static_cast<DataType>(1) - (dist - *min) / (*max - *min);
+        return static_cast<DataType>(1) - static_cast<DataType>(dist - *min) / static_cast<DataType>(*max - *min);
     });
     return res;
 }
-- 
2.43.0


From 19aed43c3c77d534b6a48662b85af0ea61998b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:00 +0000
Subject: [PATCH 40/57] fix: keep the number of samples of a moved tree

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 9b16f91..81f7c44 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -245,6 +245,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From 61ae034a39348538fe4de1c94ba5c7d7808de399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:31 +0000
Subject: [PATCH 41/57] fix: save floating point values of trees without losing
 digits

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp                  | 2 +-
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 81f7c44..c24d53d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -452,7 +452,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 4bdec89..a0128b9 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -275,7 +275,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
-- 
2.43.0


From d225dcb7d983c6b0aafc4c9732dd75cfeaaaada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:05 +0000
Subject: [PATCH 42/57] fix: build dual tree spanning trees with the mutual
 reachability distance

---
 .../datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 255750c..6b32c2b 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -607,7 +607,13 @@ auto BoruvkasAlgorithm<Indexer>::make_tree_2(ForwardedIndexer&& indexer) const {
         std::cout << "forest.n_components(): " << forest.n_components() << "\n";
         counter += forest.n_components();
 
-        step_dual_tree_sequential(searcher, core_distances, forest);
+        // the dual tree search compares plain distances, it can't be used with the k_nearest_reachability_distance
+        if (options_.k_nearest_neighbors_ > 1) {
+            step_sequential(searcher, core_distances, forest);
+
+        } else {
+            step_dual_tree_sequential(searcher, core_distances, forest);
+        }
     }
     std::cout << "Counter: " << counter << "\n";
     return std::move(forest).minimum_spanning_tree();
-- 
2.43.0


From 36d267d38974a20a9964215bf8814a3097792d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 43/57] fix: count the cluster sizes in std::size_t instead of
 the label type

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 9715aa6..aab01f7 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -27,7 +27,7 @@ namespace ffcl::common::math::heuristics {
  * @tparam ClusterLabelsIterator
  * @param cluster_labels_range_first
  * @param cluster_labels_range_last
- * @return std::vector<IndexType>
+ * @return std::vector<std::size_t>
  */
 template <typename ClusterLabelsIterator>
 auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
@@ -39,7 +39,7 @@ auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
     // n_centroids = 1 + greatest_centroid_index
     const auto n_centroids = 1 + *std::max_element(cluster_labels_range_first, cluster_labels_range_last);
     // n_labels = 1 + largest_label_index
-    auto labels_histogram = std::vector<ClusterLabelType>(n_centroids);
+    auto labels_histogram = std::vector<std::size_t>(n_centroids);
 
     auto cluster_labels_range_it = cluster_labels_range_first;
 
-- 
2.43.0


From d88d08ce0c7d4a014a9b4cfa2b0c4781499f2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 44/57] fix: compute the centre of integer intervals without
 overflow

---
 include/ffcl/common/Utils.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 8f401cc..3db7043 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -444,14 +444,15 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     static_assert(std::is_trivial_v<T>, "T must be trivial.");
     static_assert(std::is_trivial_v<U>, "U must be trivial.");
 
-    const auto lower_plus_upper = lower + upper;
-
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? (lower_plus_upper - 1) / 2 : lower_plus_upper / 2;
+        // halve before adding: the sum of the bounds may not be representable
+        const auto remainders = lower % 2 + upper % 2;
+
+        return lower / 2 + upper / 2 + (remainders < 0 ? (remainders - 1) / 2 : remainders / 2);
 
     } else {
         // For floating point, regular calculation suffices
-        return lower_plus_upper / 2;
+        return (lower + upper) / 2;
     }
 }
 
-- 
2.43.0


From 96195c131ef345bf3ec7bb7d75351c79fd323734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:25 +0000
Subject: [PATCH 45/57] fix: make the greedy medoid initialisation compile and
 add the sample that lowers the total deviation most

---
 include/ffcl/kmedoids/PAMBuild.hpp | 77 +++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMBuild.hpp b/include/ffcl/kmedoids/PAMBuild.hpp
index 01c1657..bce939f 100644
--- a/include/ffcl/kmedoids/PAMBuild.hpp
+++ b/include/ffcl/kmedoids/PAMBuild.hpp
@@ -3,8 +3,11 @@
 #include "ffcl/common/Utils.hpp"
 #include "ffcl/common/math/heuristics/Distances.hpp"
 #include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
+#include "ffcl/kmedoids/PAMUtils.hpp"
 
 #include <algorithm>
+#include <limits>
+#include <tuple>
 #include <vector>
 
 namespace pam {
@@ -23,12 +26,12 @@ build(const SamplesIterator& samples_range_first,
 
     // the first medoid chosen associated with the current total deviation cost
     auto [total_deviation, medoid_index_first] =
-        first_medoid_td_index_pair(samples_range_first, samples_range_last, n_features);
+        utils::first_medoid_td_index_pair(samples_range_first, samples_range_last, n_features);
     // Create and put the first chosen medoid index in the medoid indices vector
     auto medoids_indices = std::vector<std::size_t>(1, medoid_index_first);
 
     // initialize the distance from the first medoid to all samples
-    auto sample_to_nearest_medoid_distances = samples_to_nth_nearest_medoid_distances(
+    auto sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
         samples_range_first, samples_range_last, n_features, medoids_indices, /*nth_closest*/ 1);
 
     auto compute_distance = [&](std::size_t left_idx, std::size_t right_idx) -> DataType {
@@ -41,7 +44,7 @@ build(const SamplesIterator& samples_range_first,
     // select the remaining medoids
     for (std::size_t medoid_index = 1; medoid_index < n_medoids; ++medoid_index) {
         // (∆TD*, x∗) ← (∞, null);
-        auto selected_deviation_candidate = ffcl::common::infinity<DataType>();
+        auto selected_deviation_candidate = std::numeric_limits<DataType>::max();
         // the index of the next chosen medoid
         std::size_t selected_medoid_index = 0;
         // foreach x_c !∈ {m_1 , ..., m_i}
@@ -50,17 +53,16 @@ build(const SamplesIterator& samples_range_first,
             if (ffcl::common::is_element_not_in(medoids_indices.begin(), medoids_indices.end(), medoid_candidate_idx)) {
                 DataType loss_accumulator = 0;
 
-                // foreach x_o !∈ {m_0, ..., m_i, x c}
+                // foreach x_o !∈ {m_0, ..., m_i}: the candidate itself gets closer to its nearest medoid too
                 for (std::size_t other_sample_idx = 0; other_sample_idx < n_samples; ++other_sample_idx) {
-                    if (medoid_candidate_idx != other_sample_idx &&
-                        ffcl::common::is_element_not_in(
+                    if (ffcl::common::is_element_not_in(
                             medoids_indices.begin(), medoids_indices.end(), other_sample_idx)) {
                         const auto candidate_to_other_distance =
                             compute_distance(medoid_candidate_idx, other_sample_idx);
 
                         if (candidate_to_other_distance < sample_to_nearest_medoid_distances[other_sample_idx]) {
-                            // "-" to accumulate positive loss (acc of reduction of total deviation)
-                            loss_accumulator -=
+                            // accumulate the (negative) variation of the total deviation
+                            loss_accumulator +=
                                 candidate_to_other_distance - sample_to_nearest_medoid_distances[other_sample_idx];
                         }
                     }
@@ -75,7 +77,7 @@ build(const SamplesIterator& samples_range_first,
         total_deviation += selected_deviation_candidate;
         // Update the distances from each non medoid sample to its nearest medoid.
         // No need to take care about the medoids indices bc they are not swapped.
-        sample_to_nearest_medoid_distances = samples_to_nth_nearest_medoid_distances(
+        sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
             samples_range_first, samples_range_last, n_features, medoids_indices, /*nth_closest=*/1);
     }
     return {total_deviation, medoids_indices, sample_to_nearest_medoid_distances};
@@ -87,10 +89,59 @@ std::tuple<typename std::iterator_traits<SamplesIterator>::value_type,
            std::vector<typename std::iterator_traits<SamplesIterator>::value_type>>
 build(const ffcl::datastruct::PairwiseDistanceMatrix<SamplesIterator>& pairwise_distance_matrix,
       std::size_t                                                      n_medoids) {
-    return build(std::get<0>(pairwise_distance_matrix),
-                 std::get<1>(pairwise_distance_matrix),
-                 std::get<2>(pairwise_distance_matrix),
-                 n_medoids);
+    using DataType = typename std::iterator_traits<SamplesIterator>::value_type;
+
+    const std::size_t n_samples = pairwise_distance_matrix.n_rows();
+
+    // the first medoid chosen associated with the current total deviation cost
+    auto [total_deviation, medoid_index_first] = utils::first_medoid_td_index_pair(pairwise_distance_matrix);
+    // Create and put the first chosen medoid index in the medoid indices vector
+    auto medoids_indices = std::vector<std::size_t>(1, medoid_index_first);
+
+    // initialize the distance from the first medoid to all samples
+    auto sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
+        pairwise_distance_matrix, medoids_indices, /*nth_closest*/ 1);
+
+    // select the remaining medoids
+    for (std::size_t medoid_index = 1; medoid_index < n_medoids; ++medoid_index) {
+        // (∆TD*, x∗) ← (∞, null);
+        auto selected_deviation_candidate = std::numeric_limits<DataType>::max();
+        // the index of the next chosen medoid
+        std::size_t selected_medoid_index = 0;
+        // foreach x_c !∈ {m_1 , ..., m_i}
+        for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
+            // execute only if the current candidate is not already selected as a medoid
+            if (ffcl::common::is_element_not_in(medoids_indices.begin(), medoids_indices.end(), medoid_candidate_idx)) {
+                DataType loss_accumulator = 0;
+
+                // foreach x_o !∈ {m_0, ..., m_i}: the candidate itself gets closer to its nearest medoid too
+                for (std::size_t other_sample_idx = 0; other_sample_idx < n_samples; ++other_sample_idx) {
+                    if (ffcl::common::is_element_not_in(
+                            medoids_indices.begin(), medoids_indices.end(), other_sample_idx)) {
+                        const auto candidate_to_other_distance =
+                            pairwise_distance_matrix(medoid_candidate_idx, other_sample_idx);
+
+                        if (candidate_to_other_distance < sample_to_nearest_medoid_distances[other_sample_idx]) {
+                            // accumulate the (negative) variation of the total deviation
+                            loss_accumulator +=
+                                candidate_to_other_distance - sample_to_nearest_medoid_distances[other_sample_idx];
+                        }
+                    }
+                }
+                if (loss_accumulator < selected_deviation_candidate) {
+                    selected_deviation_candidate = loss_accumulator;
+                    selected_medoid_index        = medoid_candidate_idx;
+                }
+            }
+        }
+        medoids_indices.emplace_back(selected_medoid_index);
+        total_deviation += selected_deviation_candidate;
+        // Update the distances from each non medoid sample to its nearest medoid.
+        // No need to take care about the medoids indices bc they are not swapped.
+        sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
+            pairwise_distance_matrix, medoids_indices, /*nth_closest=*/1);
+    }
+    return {total_deviation, medoids_indices, sample_to_nearest_medoid_distances};
 }
 
 }  // namespace pam
\ No newline at end of file
-- 
2.43.0


From 2803d3de91d29ffed0a30b681a202de13cbdaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:25 +0000
Subject: [PATCH 46/57] fix: the first medoid of integer samples was compared
 with a total deviation of zero

---
 include/ffcl/kmedoids/PAMUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index 2926ac7..4cc6172 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -701,7 +701,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = ffcl::common::get_n_samples(samples_range_first, samples_range_last, n_features);
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
@@ -734,7 +734,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = pairwise_distance_matrix.n_rows();
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
-- 
2.43.0


From f50bdae22038624ddaf1987dfbca4bac336e133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 47/57] fix: accumulate the squared lengths of integer boxes
 without overflow

---
 include/ffcl/datastruct/bounds/AABB.hpp                |  5 +++--
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp    |  5 +++--
 .../ffcl/datastruct/bounds/distances/MinDistance.hpp   | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/datastruct/bounds/AABB.hpp b/include/ffcl/datastruct/bounds/AABB.hpp
index 14cc1e4..750c465 100644
--- a/include/ffcl/datastruct/bounds/AABB.hpp
+++ b/include/ffcl/datastruct/bounds/AABB.hpp
@@ -50,11 +50,12 @@ constexpr AABB<Segment, NFeatures>::AABB(SegmentsType&& segments) noexcept
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABB<Segment, NFeatures>::diameter_impl() const {
-    ValueType diameter = 0;
+    // The squared lengths of integers are accumulated in double since they can exceed the range of the lengths.
+    std::conditional_t<std::is_integral_v<ValueType>, double, ValueType> diameter = 0;
 
     for (const auto& segment : segments_) {
         const auto segment_length = segment.upper_bound() - segment.lower_bound();
-        diameter += segment_length * segment_length;
+        diameter += decltype(diameter)(segment_length) * segment_length;
     }
     return std::sqrt(diameter);
 }
diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index 8090dba..7167490 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -109,11 +109,12 @@ constexpr AABBWithCentroid<Segment, NFeatures>::AABBWithCentroid(CentroidType&&
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::diameter_impl() const {
-    ValueType diameter = 0;
+    // The squared lengths of integers are accumulated in double since they can exceed the range of the lengths.
+    std::conditional_t<std::is_integral_v<ValueType>, double, ValueType> diameter = 0;
 
     for (const auto& segment : segments_) {
         const auto segment_length = segment.upper_bound() - segment.lower_bound();
-        diameter += segment_length * segment_length;
+        diameter += decltype(diameter)(segment_length) * segment_length;
     }
     return std::sqrt(diameter);
 }
diff --git a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
index e3c4085..f2e401a 100644
--- a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
+++ b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
@@ -17,7 +17,8 @@ constexpr auto min_distance(const AABBWithCentroid<FirstSegment, NFeatures>&  fi
                             const AABBWithCentroid<SecondSegment, NFeatures>& second_aabb_with_centroids) {
     using ValueType = std::common_type_t<typename FirstSegment::ValueType, typename SecondSegment::ValueType>;
 
-    ValueType inner_lengths_sum = 0;
+    // The squared lengths of integers are accumulated in double since they can exceed the range of the lengths.
+    std::conditional_t<std::is_integral_v<ValueType>, double, ValueType> inner_lengths_sum = 0;
 
     // Compute inner lengths using the min_distance method of each segment.
     for (std::size_t feature_index = 0; feature_index < second_aabb_with_centroids.n_features(); ++feature_index) {
@@ -26,7 +27,7 @@ constexpr auto min_distance(const AABBWithCentroid<FirstSegment, NFeatures>&  fi
 
         const auto segments_min_distance = min_distance(first_segment, second_segment);
 
-        inner_lengths_sum += segments_min_distance * segments_min_distance;
+        inner_lengths_sum += decltype(inner_lengths_sum)(segments_min_distance) * segments_min_distance;
     }
     return std::sqrt(inner_lengths_sum);
 }
@@ -36,7 +37,8 @@ constexpr auto min_distance(const AABB<FirstSegment, NFeatures>&  first_aabb,
                             const AABB<SecondSegment, NFeatures>& second_aabb) {
     using ValueType = std::common_type_t<typename FirstSegment::ValueType, typename SecondSegment::ValueType>;
 
-    ValueType inner_lengths_sum = 0;
+    // The squared lengths of integers are accumulated in double since they can exceed the range of the lengths.
+    std::conditional_t<std::is_integral_v<ValueType>, double, ValueType> inner_lengths_sum = 0;
 
     // Compute inner lengths using the min_distance method of each segment.
     for (std::size_t feature_index = 0; feature_index < second_aabb.n_features(); ++feature_index) {
@@ -45,7 +47,7 @@ constexpr auto min_distance(const AABB<FirstSegment, NFeatures>&  first_aabb,
 
         const auto segments_min_distance = min_distance(first_segment, second_segment);
 
-        inner_lengths_sum += segments_min_distance * segments_min_distance;
+        inner_lengths_sum += decltype(inner_lengths_sum)(segments_min_distance) * segments_min_distance;
     }
     return std::sqrt(inner_lengths_sum);
 }
-- 
2.43.0


From 2df02ddf73ca551d288050c137719a0d3715fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 48/57] fix: compute the variance of values far from zero
 without cancellation

---
 .../ffcl/common/math/statistics/Statistics.hpp  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index f1eec65..765c69f 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -434,13 +434,16 @@ auto compute_variance(SamplesIterator samples_range_first, SamplesIterator sampl
 
     const auto n_elements = std::distance(samples_range_first, samples_range_last);
 
-    const auto sum = std::accumulate(samples_range_first, samples_range_last, static_cast<DataType>(0));
-
-    const auto sum_of_squares = std::inner_product(/**/ samples_range_first,
-                                                   /**/ samples_range_last,
-                                                   /**/ samples_range_first,
-                                                   /**/ static_cast<DataType>(0));
-
+    DataType sum            = 0;
+    DataType sum_of_squares = 0;
+    // The values are shifted by one of them: the variance remains the same and the digits that all the values share
+    // don't cancel out the ones that differ.
+    for (auto samples_range_it = samples_range_first; samples_range_it != samples_range_last; ++samples_range_it) {
+        const DataType shifted_value = *samples_range_it - *samples_range_first;
+
+        sum += shifted_value;
+        sum_of_squares += shifted_value * shifted_value;
+    }
     return (sum_of_squares - sum * sum / n_elements) / (n_elements - 1);
 }
 
-- 
2.43.0


From 2c673f56a727cfed41ef12e0aea51e501441e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:52 +0000
Subject: [PATCH 49/57] fix: the nodes of cluster hierarchies owned their
 parents and were never released

---
 .../CondensedClusterNode.hpp                  | 14 ++++++--
 .../SingleLinkageClusterNode.hpp              | 33 +++++++++++++++++--
 .../SingleLinkageClusterTree.hpp              |  2 +-
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index 02827ae..7a76cd3 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -24,6 +24,8 @@ struct CondensedClusterNode {
 
     CondensedClusterNode(SingleLinkageClusterNodePtr single_linkage_cluster_node);
 
+    ~CondensedClusterNode();
+
     bool is_leaf() const;
 
     bool& is_selected();
@@ -46,7 +48,9 @@ struct CondensedClusterNode {
     // selected cluster if marked as true if shallower cluster nodes are also marked as selected.
     bool is_selected_;
     // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // the children are owned by their parent, which they refer to without owning it
+    std::weak_ptr<NodeType> parent_;
+    NodePtr                 left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -55,12 +59,18 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
                     ? common::division(1,
-                                       single_linkage_cluster_node_root_->parent_->level_,
+                                       single_linkage_cluster_node_root_->parent_.lock()->level_,
                                        std::numeric_limits<ValueType>::max())
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
 
+template <typename IndexType, typename ValueType>
+CondensedClusterNode<IndexType, ValueType>::~CondensedClusterNode() {
+    release_nodes(std::move(left_));
+    release_nodes(std::move(right_));
+}
+
 template <typename IndexType, typename ValueType>
 bool CondensedClusterNode<IndexType, ValueType>::is_leaf() const {
     return left_ == nullptr && right_ == nullptr;
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..0b146d8 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -10,6 +10,25 @@
 
 namespace ffcl::datastruct {
 
+// releases a node and the descendants that nothing else owns one after the other, instead of recursively, as a
+// hierarchy might be as deep as the number of samples that it's made of
+template <typename NodePtr>
+void release_nodes(NodePtr node) {
+    while (node && node.use_count() == 1) {
+        if (node->left_ && node->left_.use_count() == 1) {
+            // rotate the left child up so that the current node becomes its right child
+            auto left_child    = std::move(node->left_);
+            node->left_        = std::move(left_child->right_);
+            left_child->right_ = std::move(node);
+            node               = std::move(left_child);
+
+        } else {
+            auto right_child = std::move(node->right_);
+            node             = std::move(right_child);
+        }
+    }
+}
+
 template <typename Index, typename Value>
 struct SingleLinkageClusterNode {
     using IndexType = Index;
@@ -23,6 +42,8 @@ struct SingleLinkageClusterNode {
 
     SingleLinkageClusterNode(const IndexType& representative, const ValueType& level = 0, std::size_t cluster_size = 1);
 
+    ~SingleLinkageClusterNode();
+
     bool is_leaf() const;
 
     std::size_t size() const;
@@ -38,7 +59,9 @@ struct SingleLinkageClusterNode {
     // the number of nodes that this node is an ancestor of (counting itself)
     std::size_t cluster_size_;
     // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // the children are owned by their parent, which they refer to without owning it
+    std::weak_ptr<NodeType> parent_;
+    NodePtr                 left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -49,6 +72,12 @@ SingleLinkageClusterNode<IndexType, ValueType>::SingleLinkageClusterNode(const I
   , level_{level}
   , cluster_size_{cluster_size} {}
 
+template <typename IndexType, typename ValueType>
+SingleLinkageClusterNode<IndexType, ValueType>::~SingleLinkageClusterNode() {
+    release_nodes(std::move(left_));
+    release_nodes(std::move(right_));
+}
+
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::is_leaf() const {
     // could do level_ == 0 but that might require performing float equality
@@ -62,7 +91,7 @@ std::size_t SingleLinkageClusterNode<IndexType, ValueType>::size() const {
 
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::has_parent() const {
-    return parent_ != nullptr;
+    return !parent_.expired();
 }
 
 template <typename IndexType, typename ValueType>
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index a0128b9..97dbab5 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -159,7 +159,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     // update the cluster label only if the current node has been separated from its sibling at or above the desired cut
     // level else the cluster label of the ancestor is used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
-        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
+        single_linkage_cluster_node->parent_.lock()->level_ >= options_.cut_level_) {
         // set the cluster label as noise (0) if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label from the current node. The representatives start from 0, which denotes noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From 24db5435554258e2c5628c62dc7159b3bc4fad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:50 +0000
Subject: [PATCH 50/57] fix: running out of memory for the core distances
 terminated the program

---
 .../ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
index 736198c..80041be 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
@@ -10,7 +10,7 @@ namespace ffcl::datastruct::mst {
 template <typename Value>
 class CoreDistancesArray {
   public:
-    CoreDistancesArray(std::size_t size) noexcept;
+    CoreDistancesArray(std::size_t size);
 
     Value& operator[](std::size_t index);
 
@@ -22,9 +22,9 @@ class CoreDistancesArray {
 };
 
 template <typename Value>
-CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size) noexcept
+CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size)
   : data_{std::make_unique<Value[]>(size)}
-  , size_{size_} {}
+  , size_{size} {}
 
 template <typename Value>
 Value& CoreDistancesArray<Value>::operator[](std::size_t index) {
-- 
2.43.0


From 0ded138ee6e67ca0be3ece934f924a23c2e26a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:25 +0000
Subject: [PATCH 51/57] fix: means and variances of integers overflowed the
 type of the samples

---
 .../common/math/statistics/Statistics.hpp     | 77 +++++++++++--------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 765c69f..8710fc3 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -4,11 +4,17 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
 #include <numeric>
+#include <type_traits>
 #include <vector>
 
 namespace ffcl::common::math::statistics {
 
+// the type that accumulates values of the data type: a sum of integers doesn't necessarily fit in the type of its terms
+template <typename DataType>
+using AccumulatorType = std::conditional_t<std::is_integral_v<DataType>, std::intmax_t, DataType>;
+
 template <typename DataType = double, typename Iterator>
 std::vector<DataType> normalize_min_max(const Iterator& first, const Iterator& last) {
     const auto [min, max] = std::minmax_element(first, last);
@@ -140,7 +146,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
 
     const auto n_samples = get_n_samples(samples_range_first, samples_range_last, n_features);
 
-    auto mean_per_feature = std::vector<DataType>(n_features);
+    auto mean_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (auto samples_range_it = samples_range_first; samples_range_it != samples_range_last;
          samples_range_it += n_features) {
@@ -154,7 +160,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
                    [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
-    return mean_per_feature;
+    return std::vector<DataType>(mean_per_feature.begin(), mean_per_feature.end());
 }
 
 template <typename IndicesIterator, typename SamplesIterator>
@@ -169,7 +175,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
 
     const std::size_t n_samples = std::distance(indices_range_first, indices_range_last);
 
-    auto mean_per_feature = std::vector<DataType>(n_features);
+    auto mean_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (auto indices_range_it = indices_range_first; indices_range_it != indices_range_last; ++indices_range_it) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
@@ -180,7 +186,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
                    [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
-    return mean_per_feature;
+    return std::vector<DataType>(mean_per_feature.begin(), mean_per_feature.end());
 }
 
 template <typename IndicesIterator, typename SamplesIterator>
@@ -196,7 +202,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
 
     const std::size_t n_samples = std::distance(indices_range_first, indices_range_last);
 
-    auto mean_per_feature = std::vector<DataType>(feature_mask.size());
+    auto mean_per_feature = std::vector<AccumulatorType<DataType>>(feature_mask.size());
 
     for (auto indices_range_it = indices_range_first; indices_range_it != indices_range_last; ++indices_range_it) {
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
@@ -209,7 +215,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
         [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
-    return mean_per_feature;
+    return std::vector<DataType>(mean_per_feature.begin(), mean_per_feature.end());
 }
 
 template <typename SamplesIterator>
@@ -222,17 +228,17 @@ auto compute_variance_per_feature(const SamplesIterator& samples_range_first,
 
     const auto mean_per_feature = compute_mean_per_feature(samples_range_first, samples_range_last, n_features);
 
-    auto variance_per_feature = std::vector<DataType>(n_features);
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(n_features);
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(n_features);
 
         std::transform(samples_range_first + sample_index * n_features,
                        samples_range_first + sample_index * n_features + n_features,
                        mean_per_feature.begin(),
                        features_accumulator.begin(),
                        [](const auto& x, const auto& mean) {
-                           const auto temp = x - mean;
+                           const auto temp = static_cast<AccumulatorType<DataType>>(x) - mean;
                            return temp * temp;
                        });
 
@@ -240,14 +246,14 @@ auto compute_variance_per_feature(const SamplesIterator& samples_range_first,
                        features_accumulator.end(),
                        variance_per_feature.begin(),
                        variance_per_feature.begin(),
-                       std::plus<DataType>());
+                       std::plus<>());
     }
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
                    [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
-    return variance_per_feature;
+    return std::vector<DataType>(variance_per_feature.begin(), variance_per_feature.end());
 }
 
 template <typename IndicesIterator, typename SamplesIterator>
@@ -266,17 +272,17 @@ auto compute_variance_per_feature(const IndicesIterator& indices_range_first,
                                                            /**/ samples_range_last,
                                                            /**/ n_features);
 
-    auto variance_per_feature = std::vector<DataType>(n_features);
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(n_features);
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(n_features);
 
         std::transform(samples_range_first + indices_range_first[sample_index] * n_features,
                        samples_range_first + indices_range_first[sample_index] * n_features + n_features,
                        mean_per_feature.begin(),
                        features_accumulator.begin(),
                        [](const auto& x, const auto& mean) {
-                           const auto temp = x - mean;
+                           const auto temp = static_cast<AccumulatorType<DataType>>(x) - mean;
                            return temp * temp;
                        });
 
@@ -284,14 +290,14 @@ auto compute_variance_per_feature(const IndicesIterator& indices_range_first,
                        features_accumulator.end(),
                        variance_per_feature.begin(),
                        variance_per_feature.begin(),
-                       std::plus<DataType>());
+                       std::plus<>());
     }
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
                    [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
-    return variance_per_feature;
+    return std::vector<DataType>(variance_per_feature.begin(), variance_per_feature.end());
 }
 
 template <typename IndicesIterator, typename SamplesIterator>
@@ -308,14 +314,15 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
     const auto mean_per_feature = compute_mean_per_feature(
         indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features, feature_mask);
 
-    auto variance_per_feature = std::vector<DataType>(feature_mask.size());
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(feature_mask.size());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(feature_mask.size());
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
             const auto temp =
-                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                static_cast<AccumulatorType<DataType>>(
+                    samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]]) -
                 mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -325,7 +332,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
                    variance_per_feature.begin(),
                    [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples - 1); });
 
-    return variance_per_feature;
+    return std::vector<DataType>(variance_per_feature.begin(), variance_per_feature.end());
 }
 
 template <typename SamplesIterator>
@@ -338,17 +345,17 @@ std::size_t argmax_variance_per_feature(const SamplesIterator& samples_range_fir
 
     const auto mean_per_feature = compute_mean_per_feature(samples_range_first, samples_range_last, n_features);
 
-    auto variance_per_feature = std::vector<DataType>(n_features);
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(n_features);
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(n_features);
 
         std::transform(samples_range_first + sample_index * n_features,
                        samples_range_first + sample_index * n_features + n_features,
                        mean_per_feature.begin(),
                        features_accumulator.begin(),
                        [](const auto& x, const auto& mean) {
-                           const auto temp = x - mean;
+                           const auto temp = static_cast<AccumulatorType<DataType>>(x) - mean;
                            return temp * temp;
                        });
 
@@ -356,7 +363,7 @@ std::size_t argmax_variance_per_feature(const SamplesIterator& samples_range_fir
                        features_accumulator.end(),
                        variance_per_feature.begin(),
                        variance_per_feature.begin(),
-                       std::plus<DataType>());
+                       std::plus<>());
     }
     return math::statistics::argmax(variance_per_feature.begin(), variance_per_feature.end());
 }
@@ -374,17 +381,17 @@ std::size_t argmax_variance_per_feature(const IndicesIterator& indices_range_fir
     const auto mean_per_feature = compute_mean_per_feature(
         indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
-    auto variance_per_feature = std::vector<DataType>(n_features);
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(n_features);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(n_features);
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(n_features);
 
         std::transform(samples_range_first + indices_range_first[sample_index] * n_features,
                        samples_range_first + indices_range_first[sample_index] * n_features + n_features,
                        mean_per_feature.begin(),
                        features_accumulator.begin(),
                        [](const auto& x, const auto& mean) {
-                           const auto temp = x - mean;
+                           const auto temp = static_cast<AccumulatorType<DataType>>(x) - mean;
                            return temp * temp;
                        });
 
@@ -392,7 +399,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator& indices_range_fir
                        features_accumulator.end(),
                        variance_per_feature.begin(),
                        variance_per_feature.begin(),
-                       std::plus<DataType>());
+                       std::plus<>());
     }
     return math::statistics::argmax(variance_per_feature.begin(), variance_per_feature.end());
 }
@@ -411,14 +418,15 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
     const auto mean_per_feature = compute_mean_per_feature(
         indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features, feature_mask);
 
-    auto variance_per_feature = std::vector<DataType>(feature_mask.size());
+    auto variance_per_feature = std::vector<AccumulatorType<DataType>>(feature_mask.size());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto features_accumulator = std::vector<DataType>(feature_mask.size());
+        auto features_accumulator = std::vector<AccumulatorType<DataType>>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
             const auto temp =
-                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                static_cast<AccumulatorType<DataType>>(
+                    samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]]) -
                 mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -434,12 +442,13 @@ auto compute_variance(SamplesIterator samples_range_first, SamplesIterator sampl
 
     const auto n_elements = std::distance(samples_range_first, samples_range_last);
 
-    DataType sum            = 0;
-    DataType sum_of_squares = 0;
+    AccumulatorType<DataType> sum            = 0;
+    AccumulatorType<DataType> sum_of_squares = 0;
     // The values are shifted by one of them: the variance remains the same and the digits that all the values share
     // don't cancel out the ones that differ.
     for (auto samples_range_it = samples_range_first; samples_range_it != samples_range_last; ++samples_range_it) {
-        const DataType shifted_value = *samples_range_it - *samples_range_first;
+        const auto shifted_value = static_cast<AccumulatorType<DataType>>(*samples_range_it) -
+                                   static_cast<AccumulatorType<DataType>>(*samples_range_first);
 
         sum += shifted_value;
         sum_of_squares += shifted_value * shifted_value;
-- 
2.43.0


From 813075fb69ee16aeb04d26a42a6fc777b6bafbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:25 +0000
Subject: [PATCH 52/57] fix: a search buffer without capacity collected every
 candidate

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 3c5b6b9..1f2067b 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -142,6 +142,10 @@ class StaticBuffer {
 
   protected:
     void update_static_buffers(const IndexType& index_candidate, const DistanceType& distance_candidate) {
+        // a buffer without capacity never holds anything
+        if (!max_capacity()) {
+            return;
+        }
         // update by default if it's being updated for the first time
         if (!size()) {
             closest_index_    = index_candidate;
-- 
2.43.0


From 7308076531d2b7581301a387b9881b6ef7541c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:25 +0000
Subject: [PATCH 53/57] fix: the dual tree search moved the samples to leave
 out into the buffer of the first query

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index b21fb5b..848da38 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -320,9 +320,10 @@ constexpr auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::find
     auto index_to_buffer_it = queries_to_buffers_map_.find(index);
     // If the current index does not have an associated buffer in the map,
     if (index_to_buffer_it == queries_to_buffers_map_.end()) {
+        // The arguments are shared by all the buffers so none of them can be moved from.
         auto buffer = BufferType(/**/ features_range_first,
                                  /**/ features_range_last,
-                                 /**/ std::forward<BufferArgs>(buffer_args)...);
+                                 /**/ buffer_args...);
         // Attempt to insert the newly created buffer into the map. If an element with the same
         // index already exists, emplace does nothing. Otherwise, it inserts the new element.
         // The method returns a pair, where the first element is an iterator to the inserted element
-- 
2.43.0


From 2c215498a8174edb1c27b2b616bd51201a5f740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:25 +0000
Subject: [PATCH 54/57] fix: the search for the shortest edge read past the end
 when no edge was permitted

---
 include/ffcl/search/ClosestPairOfSamples.hpp       | 4 ++++
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/ClosestPairOfSamples.hpp b/include/ffcl/search/ClosestPairOfSamples.hpp
index 1628f76..163ce27 100644
--- a/include/ffcl/search/ClosestPairOfSamples.hpp
+++ b/include/ffcl/search/ClosestPairOfSamples.hpp
@@ -198,6 +198,10 @@ auto sequential_dual_set_shortest_edge(
                                                    queries_representative,
                                                    /*max_capacity=*/static_cast<IndexType>(1)));
 
+        // no sample can be reached from this query
+        if (nn_buffer_query.empty()) {
+            continue;
+        }
         // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
         const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
         const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 848da38..4abaee3 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -245,7 +245,9 @@ IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::IndicesToBuffersMap
 
 template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
 auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::tightest_edge() const {
-    return kth_closest_edge_priority_queue_.top();
+    // There is no edge if none of the combinations of a query and a reference was permitted.
+    return kth_closest_edge_priority_queue_.empty() ? datastruct::mst::make_default_edge<IndexType, DistanceType>()
+                                                    : kth_closest_edge_priority_queue_.top();
 }
 
 template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
@@ -399,6 +401,10 @@ template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
 void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priority_queue(
     const IndicesToBuffersMapIterator& query_to_buffer_it) {
     const auto& [query_index, buffer] = *query_to_buffer_it;
+    // There is nothing to update the priority queue with.
+    if (buffer.empty()) {
+        return;
+    }
     // Ensure that the priority queue has the right size properties. A buffer current size could be lesser than its
     // max_capacity but a priority queue size should never exceed it.
     while (kth_closest_edge_priority_queue_.size() > buffer.max_capacity()) {
-- 
2.43.0


From 5b81859a3ae51ce83279a2020e1e674480cacb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 55/57] fix: sorting and selection took one partition for each
 one of the equal values

The values equal to the pivot were all left on its right, so the quicksort of
many equal values recursed once per value (and overflowed the stack) and the
selection of the median of many equal values took quadratic time.
---
 include/ffcl/common/algorithms/Sorting.hpp | 46 +++++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index de81e3b..7e341d2 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -148,6 +148,29 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
     return pivot_index;
 }
 
+// gathers the values equal to the pivot next to it, once the range has been partitioned around it. The values at its
+// right are not lesser than it. Otherwise, ranges of equal values would need one partition for each one of them
+template <typename IndicesIterator, typename SamplesIterator>
+std::size_t last_index_of_values_equal_to_pivot(const IndicesIterator& indices_range_first,
+                                                const IndicesIterator& indices_range_last,
+                                                const SamplesIterator& samples_range_first,
+                                                std::size_t            n_features,
+                                                std::size_t            pivot_index,
+                                                std::size_t            feature_index) {
+    const std::size_t n_samples = std::distance(indices_range_first, indices_range_last);
+
+    const auto pivot_value = samples_range_first[indices_range_first[pivot_index] * n_features + feature_index];
+
+    std::size_t last_equal_index = pivot_index;
+
+    for (std::size_t index = pivot_index + 1; index < n_samples; ++index) {
+        if (!(pivot_value < samples_range_first[indices_range_first[index] * n_features + feature_index])) {
+            std::iter_swap(indices_range_first + (++last_equal_index), indices_range_first + index);
+        }
+    }
+    return last_equal_index;
+}
+
 template <typename IndicesIterator, typename SamplesIterator>
 auto quickselect(const IndicesIterator& indices_range_first,
                  const IndicesIterator& indices_range_last,
@@ -180,14 +203,22 @@ auto quickselect(const IndicesIterator& indices_range_first,
                                                                 pivot_index,
                                                                 feature_index);
 
-        if (kth_smallest == pivot_index) {
-            return std::make_pair(indices_range_first + pivot_index, indices_range_first + pivot_index + 1);
+        const std::size_t last_equal_index =
+            left_index + last_index_of_values_equal_to_pivot(indices_range_first + left_index,
+                                                             indices_range_first + right_index + 1,
+                                                             samples_range_first,
+                                                             n_features,
+                                                             pivot_index - left_index,
+                                                             feature_index);
 
-        } else if (kth_smallest < pivot_index) {
+        if (kth_smallest < pivot_index) {
             right_index = pivot_index - 1;
 
+        } else if (kth_smallest > last_equal_index) {
+            left_index = last_equal_index + 1;
+
         } else {
-            left_index = pivot_index + 1;
+            return std::make_pair(indices_range_first + kth_smallest, indices_range_first + kth_smallest + 1);
         }
     }
 }
@@ -215,6 +246,9 @@ std::size_t quicksort(const IndicesIterator& indices_range_first,
                                                                      initial_pivot_index,
                                                                      feature_index);
 
+    const std::size_t last_equal_index = last_index_of_values_equal_to_pivot(
+        indices_range_first, indices_range_last, samples_range_first, n_features, new_pivot_index, feature_index);
+
     // compute the median of the subranges
 
     const std::size_t pivot_index_of_left_subrange = median_index_of_three(indices_range_first,
@@ -224,7 +258,7 @@ std::size_t quicksort(const IndicesIterator& indices_range_first,
                                                                            n_features,
                                                                            feature_index);
 
-    const std::size_t pivot_index_of_right_subrange = median_index_of_three(indices_range_first + new_pivot_index + 1,
+    const std::size_t pivot_index_of_right_subrange = median_index_of_three(indices_range_first + last_equal_index + 1,
                                                                             indices_range_last,
                                                                             samples_range_first,
                                                                             samples_range_last,
@@ -241,7 +275,7 @@ std::size_t quicksort(const IndicesIterator& indices_range_first,
               pivot_index_of_left_subrange,
               feature_index);
 
-    quicksort(indices_range_first + new_pivot_index + 1,
+    quicksort(indices_range_first + last_equal_index + 1,
               indices_range_last,
               samples_range_first,
               samples_range_last,
-- 
2.43.0


From ee60c6685ef061f4103ae621cef67d484417575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 56/57] fix: deep cluster hierarchies overflowed the stack

A hierarchy can be as deep as there are samples (a chain of samples). The
traversals recursed once per level.
---
 .../CondensedClusterTree.hpp                  | 135 +++++++++++-------
 .../SingleLinkageClusterTree.hpp              |  24 +++-
 2 files changed, 105 insertions(+), 54 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index 1eb4060..cb62523 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -9,6 +9,9 @@
 #include <map>
 #include <memory>
 #include <type_traits>
+#include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace ffcl::datastruct {
 
@@ -75,6 +78,8 @@ class CondensedClusterTree {
     auto predict() const;
 
   private:
+    using NodesToBuild = std::vector<std::pair<CondensedClusterNodePtr, SingleLinkageClusterNodePtr>>;
+
     auto build(const SingleLinkageClusterNodePtr& slink_root_node);
 
     void preorder_traversal_single_linkage_clustering(const ClusterIndexType&            cluster_label,
@@ -82,9 +87,10 @@ class CondensedClusterTree {
                                                       std::vector<ClusterIndexType>&     flat_cluster) const;
 
     void preorder_traversal_build(CondensedClusterNodePtr            condensed_cluster_node,
-                                  const SingleLinkageClusterNodePtr& single_linkage_cluster_node);
+                                  const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
+                                  NodesToBuild&                      remaining_nodes);
 
-    auto select_subtree(CondensedClusterNodePtr condensed_cluster_node);
+    void select_subtree(CondensedClusterNodePtr condensed_cluster_node);
 
     auto return_shallowest_cluster_selection() const;
 
@@ -136,7 +142,16 @@ template <typename IndexType, typename ValueType>
 auto CondensedClusterTree<IndexType, ValueType>::build(const SingleLinkageClusterNodePtr& slink_root_node) {
     auto condensed_cluster_root_node = std::make_shared<CondensedClusterNodeType>(slink_root_node);
 
-    preorder_traversal_build(condensed_cluster_root_node, slink_root_node);
+    // The hierarchies can be as deep as there are samples, so the nodes that remain to be visited are stored instead of
+    // being visited recursively.
+    NodesToBuild remaining_nodes{{condensed_cluster_root_node, slink_root_node}};
+
+    while (!remaining_nodes.empty()) {
+        const auto [condensed_cluster_node, single_linkage_cluster_node] = remaining_nodes.back();
+        remaining_nodes.pop_back();
+
+        preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node, remaining_nodes);
+    }
 
     return condensed_cluster_root_node;
 }
@@ -144,7 +159,8 @@ auto CondensedClusterTree<IndexType, ValueType>::build(const SingleLinkageCluste
 template <typename IndexType, typename ValueType>
 void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
     CondensedClusterNodePtr            condensed_cluster_node,
-    const SingleLinkageClusterNodePtr& single_linkage_cluster_node) {
+    const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
+    NodesToBuild&                      remaining_nodes) {
     if (!single_linkage_cluster_node->is_leaf()) {
         const bool is_left_child_split_candidate =
             single_linkage_cluster_node->left_->size() >= options_.min_cluster_size_;
@@ -171,7 +187,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
                 condensed_cluster_node->left_->parent_ = condensed_cluster_node;
                 // continue to traverse the tree with the new condensed_cluster_node and the left single linkage node
                 // that didn't fall out of the cluster
-                preorder_traversal_build(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
+                remaining_nodes.emplace_back(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
             }
             // make the new right condensed cluster node
             {
@@ -182,7 +198,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
                 condensed_cluster_node->right_->parent_ = condensed_cluster_node;
                 // continue to traverse the tree with the new condensed_cluster_node and the right single linkage node
                 // that didn't fall out of the cluster
-                preorder_traversal_build(condensed_cluster_node->right_, single_linkage_cluster_node->right_);
+                remaining_nodes.emplace_back(condensed_cluster_node->right_, single_linkage_cluster_node->right_);
             }
         }
         // if only the left child is a split candidate, it persists in the current condensed cluster node and the right
@@ -192,7 +208,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->right_, lambda_value);
             // continue to traverse the tree with the left single linkage node that didn't fall out of the cluster
             // in the same condensed cluster node
-            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->left_);
+            remaining_nodes.emplace_back(condensed_cluster_node, single_linkage_cluster_node->left_);
         }
         // if only the right child is a split candidate, it persists in the current condensed cluster node and the left
         // child is simply discarded (it "falls out of the cluster")
@@ -201,7 +217,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->left_, lambda_value);
             // continue to traverse the tree with the right single linkage node that didn't fall out of the cluster
             // in the same condensed cluster node
-            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->right_);
+            remaining_nodes.emplace_back(condensed_cluster_node, single_linkage_cluster_node->right_);
         }
         // if none of the children are split candidates, then the tree branch is terminated
         else {
@@ -249,44 +265,62 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_single_linka
     const ClusterIndexType&            cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // continue to traverse the tree if the current node is not leaf
-    // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-    if (!single_linkage_cluster_node->is_leaf()) {
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);
+    std::vector<SingleLinkageClusterNodePtr> remaining_nodes{single_linkage_cluster_node};
 
-    } else {
-        // assert that single_linkage_cluster_node is indeed a leaf  by checking if its level in the tree is zero
-        assert(common::equality(single_linkage_cluster_node->level_, 0));
+    while (!remaining_nodes.empty()) {
+        const auto node = remaining_nodes.back();
+        remaining_nodes.pop_back();
+        // continue to traverse the tree if the current node is not leaf
+        // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
+        if (!node->is_leaf()) {
+            remaining_nodes.emplace_back(node->right_);
+            remaining_nodes.emplace_back(node->left_);
 
-        // assign the cluster label to the sample index (which is its own node at level 0)
-        flat_cluster[single_linkage_cluster_node->representative_] = cluster_label;
+        } else {
+            // assert that the node is indeed a leaf by checking if its level in the tree is zero
+            assert(common::equality(node->level_, 0));
+
+            // assign the cluster label to the sample index (which is its own node at level 0)
+            flat_cluster[node->representative_] = cluster_label;
+        }
     }
 }
 
 template <typename IndexType, typename ValueType>
-auto CondensedClusterTree<IndexType, ValueType>::select_subtree(CondensedClusterNodePtr condensed_cluster_node) {
-    // return the stability of the node directly if the node query is leaf
-    if (condensed_cluster_node->is_leaf()) {
-        return condensed_cluster_node->stability_;
-
-    } else {
-        // compute the stability of the children of the current node, recursively
-        const auto children_stability =
-            select_subtree(condensed_cluster_node->left_) + select_subtree(condensed_cluster_node->right_);
-        // If the sum of the stabilities of the child clusters is greater than the stability of the cluster, then we set
-        // the cluster stability to be the sum of the child stabilities and the cluster remains unselected
-        if (children_stability > condensed_cluster_node->stability_) {
-            return children_stability;
-
-        } else {
-            // If, on the other hand, the cluster’s stability is greater than the sum of its children then we declare
-            // the cluster to be a selected cluster
-            condensed_cluster_node->is_selected() = true;
-            // and we return its stability
-            return condensed_cluster_node->stability_;
+void CondensedClusterTree<IndexType, ValueType>::select_subtree(CondensedClusterNodePtr condensed_cluster_node) {
+    // the nodes of the subtree, each one of them being placed before its children
+    std::vector<CondensedClusterNodePtr> subtree_nodes{condensed_cluster_node};
+
+    for (std::size_t node_index = 0; node_index < subtree_nodes.size(); ++node_index) {
+        if (const auto node = subtree_nodes[node_index]; !node->is_leaf()) {
+            subtree_nodes.emplace_back(node->left_);
+            subtree_nodes.emplace_back(node->right_);
         }
     }
+    // the stability of the best selection in the subtree of each node
+    std::unordered_map<CondensedClusterNodePtr, ValueType> subtree_stabilities;
+
+    for (auto node_it = subtree_nodes.rbegin(); node_it != subtree_nodes.rend(); ++node_it) {
+        const auto& node = *node_it;
+        // the stability of the subtree is the one of the node if the node is leaf
+        auto subtree_stability = node->stability_;
+
+        if (!node->is_leaf()) {
+            // the stability of the children of the current node has already been computed
+            const auto children_stability = subtree_stabilities[node->left_] + subtree_stabilities[node->right_];
+            // If the sum of the stabilities of the child clusters is greater than the stability of the cluster, then we
+            // set the subtree stability to be the sum of the child stabilities and the cluster remains unselected
+            if (children_stability > node->stability_) {
+                subtree_stability = children_stability;
+
+            } else {
+                // If, on the other hand, the cluster’s stability is greater than the sum of its children then we declare
+                // the cluster to be a selected cluster
+                node->is_selected() = true;
+            }
+        }
+        subtree_stabilities[node] = subtree_stability;
+    }
 }
 
 template <typename IndexType, typename ValueType>
@@ -303,17 +337,20 @@ template <typename IndexType, typename ValueType>
 void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_fill_shallowest_selected_nodes(
     const CondensedClusterNodePtr&        condensed_cluster_node,
     std::vector<CondensedClusterNodePtr>& selected_condensed_cluster_nodes) const {
-    // if condensed_cluster_node is selected, we simply add it to the array vector and exit the function
-    if (condensed_cluster_node->is_selected()) {
-        selected_condensed_cluster_nodes.emplace_back(condensed_cluster_node);
-    }
-    // else we still need to recurse the tree until we end up finding the first selected node of the branch
-    else {
-        preorder_traversal_fill_shallowest_selected_nodes(condensed_cluster_node->left_,
-                                                          selected_condensed_cluster_nodes);
-
-        preorder_traversal_fill_shallowest_selected_nodes(condensed_cluster_node->right_,
-                                                          selected_condensed_cluster_nodes);
+    std::vector<CondensedClusterNodePtr> remaining_nodes{condensed_cluster_node};
+
+    while (!remaining_nodes.empty()) {
+        const auto node = remaining_nodes.back();
+        remaining_nodes.pop_back();
+        // if the node is selected, we simply add it to the array vector and ignore its descendants
+        if (node->is_selected()) {
+            selected_condensed_cluster_nodes.emplace_back(node);
+        }
+        // else we still need to traverse the tree until we end up finding the first selected node of the branch
+        else {
+            remaining_nodes.emplace_back(node->right_);
+            remaining_nodes.emplace_back(node->left_);
+        }
     }
 }
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 97dbab5..831e391 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -8,6 +8,7 @@
 #include <memory>
 #include <numeric>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include <cstdio>
@@ -84,11 +85,14 @@ class SingleLinkageClusterTree {
     void serialize(const fs::path& filepath) const;
 
   private:
+    using LabeledNodes = std::vector<std::pair<ClusterIndexType, SingleLinkageClusterNodePtr>>;
+
     auto build() -> SingleLinkageClusterNodePtr;
 
     void preorder_traversal_single_linkage_clustering(ClusterIndexType                   cluster_label,
                                                       const SingleLinkageClusterNodePtr& kdnode,
-                                                      std::vector<ClusterIndexType>&     flat_cluster) const;
+                                                      std::vector<ClusterIndexType>&     flat_cluster,
+                                                      LabeledNodes&                      remaining_nodes) const;
 
     void serialize(const SingleLinkageClusterNodePtr& node, rapidjson::Writer<rapidjson::StringBuffer>& writer) const;
 
@@ -141,8 +145,17 @@ template <typename IndexType, typename ValueType>
 auto SingleLinkageClusterTree<IndexType, ValueType>::extract_flat_clusters() const {
     auto flat_cluster = std::vector<ClusterIndexType>(root_->size());
 
-    preorder_traversal_single_linkage_clustering(root_->representative_, root_, flat_cluster);
+    // The hierarchy can be as deep as there are samples, so the nodes that remain to be visited are stored with the cluster
+    // label of their parent instead of being visited recursively.
+    LabeledNodes remaining_nodes{{root_->representative_, root_}};
+
+    while (!remaining_nodes.empty()) {
+        const auto [cluster_label, single_linkage_cluster_node] = remaining_nodes.back();
+        remaining_nodes.pop_back();
 
+        preorder_traversal_single_linkage_clustering(
+            cluster_label, single_linkage_cluster_node, flat_cluster, remaining_nodes);
+    }
     return flat_cluster;
 }
 
@@ -155,7 +168,8 @@ template <typename IndexType, typename ValueType>
 void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_linkage_clustering(
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
-    std::vector<ClusterIndexType>&     flat_cluster) const {
+    std::vector<ClusterIndexType>&     flat_cluster,
+    LabeledNodes&                      remaining_nodes) const {
     // update the cluster label only if the current node has been separated from its sibling at or above the desired cut
     // level else the cluster label of the ancestor is used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
@@ -169,8 +183,8 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
     if (!single_linkage_cluster_node->is_leaf()) {
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);
+        remaining_nodes.emplace_back(cluster_label, single_linkage_cluster_node->right_);
+        remaining_nodes.emplace_back(cluster_label, single_linkage_cluster_node->left_);
 
     } else {
         // assign the cluster label to the sample index (which is its own node at level 0)
-- 
2.43.0


From c7228a4c1f619129e878cacee1b50b3bc4837850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:17 +0000
Subject: [PATCH 57/57] fix: kd-trees, sorting and selection over plain arrays
 did not compile

---
 include/ffcl/common/algorithms/Sorting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index 7e341d2..bd2cce9 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -52,7 +52,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
                                          std::size_t            n_features,
                                          std::size_t            pivot_index,
                                          std::size_t            feature_index) {
-    static_assert(std::is_integral_v<typename IndicesIterator::value_type>, "Index input should be integral.");
+    static_assert(std::is_integral_v<typename std::iterator_traits<IndicesIterator>::value_type>, "Index input should be integral.");
 
     ignore_parameters(samples_range_last);
 
@@ -184,7 +184,7 @@ auto quickselect(const IndicesIterator& indices_range_first,
 
     while (true) {
         if (left_index == right_index) {
-            return make_pair(indices_range_first + left_index, indices_range_first + right_index + 1);
+            return std::make_pair(indices_range_first + left_index, indices_range_first + right_index + 1);
         }
         std::size_t pivot_index = median_index_of_three(indices_range_first + left_index,
                                                         indices_range_first + right_index + 1,
-- 
2.43.0

