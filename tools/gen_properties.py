#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
I = "include/ffcl/"
KD = I + "datastruct/tree/kdtree/"

prop("C01", "Nearest-neighbour search returns exactly the k nearest indexed samples",
 "For every dataset, every way of building the tree index over any subset of its samples and every query point, a k-nearest-neighbour search returns min(k, number of indexed samples) distinct indexed samples, each with its true distance to the query, and no indexed sample that was left out is strictly closer than one that was returned. The reported closest and furthest neighbours are those of the returned set, and searching a batch of queries gives each query the same answer as searching it alone.",
 ["inputs", "configurations"],
 "All datasets (duplicates, ties, collinear and negative values included), all index subsets and orders, all bucket sizes, depth limits and axis policies, all k including k larger than the dataset, all query points inside or outside the data.",
 "The search tests compare a handful of random point clouds with one tree configuration each; pruning mistakes only show for particular tie patterns and tree shapes.",
 [I+"search/Search.hpp", I+"search/TreeTraverser.hpp", I+"search/buffer/StaticBuffer.hpp", I+"search/buffer/Unsorted.hpp", KD+"KDNodeView.hpp"],
 [("descent, back-tracking and sibling pruning", I+"search/TreeTraverser.hpp: single_tree_traversal"), ("sibling selection", KD+"KDNodeView.hpp: select_sibling_node"), ("bounded candidate buffer", I+"search/buffer/StaticBuffer.hpp: update_static_buffers")],
 ["indices, distances, closest and furthest of the returned buffer"])

prop("C02", "Radius search returns exactly the indexed samples inside the ball or box",
 "For every dataset, tree index and query region, a search bounded by a ball returns exactly the indexed samples whose distance to the centre is strictly smaller than the radius, each once and with its true distance; with a capacity limit k it returns the k nearest of them. A search bounded by an axis-aligned box returns exactly the indexed samples inside the closed box, each once and with its true distance to the box's centre, and a region that contains no sample yields an empty result.",
 ["inputs", "configurations"],
 "All datasets, all index subsets, all tree options, all radii and boxes (zero, equal to an existing distance, larger than the diameter), all centres, owning and non-owning balls.",
 "The radius tests only write predictions to a file or use random clouds where a sample exactly on the boundary never occurs.",
 [I+"search/TreeTraverser.hpp", I+"search/buffer/Unsorted.hpp", I+"datastruct/bounds/Ball.hpp", I+"datastruct/bounds/AABBWithCentroid.hpp", KD+"KDNodeView.hpp"],
 [("candidate admission by bound", I+"search/buffer/Unsorted.hpp: partial_search_impl"), ("ball membership", I+"datastruct/bounds/Ball.hpp"), ("sibling pruning while the buffer still has room", KD+"KDNodeView.hpp: select_sibling_node")],
 ["indices and distances of the returned buffer"])

prop("C03", "Constrained searches return the k nearest among the permitted samples only",
 "A nearest-neighbour search that is given a set of already visited samples never returns one of them and returns the k nearest of the remaining indexed samples; a search that is given a partition and one of its members never returns a sample of that member's component and returns the k nearest samples outside it. This holds for every dataset, tree, visited set and partition, for plain and ball-bounded queries.",
 ["inputs", "configurations", "histories"],
 "All datasets, trees, visited sets (empty to full, borrowed, moved in or given as a range) and all partitions reached by any merge history.",
 "Existing tests exercise one exclusion set per random cloud and never an exhausted candidate set or every partition.",
 [I+"search/buffer/WithMemory.hpp", I+"search/buffer/WithUnionFind.hpp", I+"search/TreeTraverser.hpp", I+"datastruct/UnionFind.hpp"],
 [("visited filter", I+"search/buffer/WithMemory.hpp: update_impl"), ("component filter", I+"search/buffer/WithUnionFind.hpp: update_impl")],
 ["indices and distances of the returned buffer"])

prop("C04", "A kd-tree is a faithful, well-formed partition of the samples it indexes",
 "Building a tree index only reorders the index sequence (never changing its contents or the data), and every indexed sample is stored in exactly one node; at every inner node the left subtree holds only samples strictly below the pivot on the cut axis and the right subtree only samples at or above it, and every node's box contains all samples below it. Leaves hold at most the requested bucket size unless the depth limit was reached, no path is longer than the depth limit, and cut axes belong to the requested feature subset and follow the selected axis policy.",
 ["inputs", "configurations"],
 "All datasets, index subsets and orders, bucket sizes, depth limits, axis policies, feature subsets, sampling rates and random draws of the variance policy.",
 "The tree tests build random trees and assert nothing about their structure; defaults and feature subsets are never checked.",
 [KD+"KDTree.hpp", KD+"KDTreeAlgorithms.hpp", KD+"policy/AxisSelectionPolicy.hpp", KD+"policy/SplittingRulePolicy.hpp", I+"datastruct/Interval.hpp", I+"common/algorithms/Sorting.hpp"],
 [("recursive build", KD+"KDTree.hpp: build"), ("median split with equal values on the right", KD+"KDTreeAlgorithms.hpp: quickselect_median"), ("axis selection", KD+"policy/AxisSelectionPolicy.hpp")],
 ["root node and the nodes below it", "index and data containers after construction"])

prop("C05", "Dual-tree search finds the true closest pair between two sample sets",
 "For every two sets of samples, indexed in any way, the dual-tree search and the set-to-set searches return an edge that joins one sample of each set, whose stated length is the true distance of its end points and is the smallest distance between the sets. Asked for k edges it keeps the k shortest ones, and when a partition is supplied the edge joins samples of different components and is the shortest such edge; samples the caller leaves out are never returned. When no pair is permitted the returned edge has an unbounded length.",
 ["inputs", "configurations"],
 "All pairs of datasets (overlapping, disjoint, duplicated, of any sizes), all tree options for both sides, all k, all partitions, all sets of samples left out.",
 "The tests compare the edge length on random clouds of a few hundred points with one bucket size; pruning errors depend on exact node shapes and ties.",
 [I+"search/TreeTraverser.hpp", I+"search/DualTreeTraverser.hpp", I+"search/ClosestPairOfSamples.hpp", I+"search/buffer/IndicesToBuffersMap.hpp", I+"datastruct/bounds/distances/MinDistance.hpp"],
 [("dual traversal with cost pruning", I+"search/TreeTraverser.hpp: dual_tree_traversal"), ("per-query buffers and current best edge", I+"search/buffer/IndicesToBuffersMap.hpp"), ("set to set search", I+"search/ClosestPairOfSamples.hpp")],
 ["returned edge"])

prop("C06", "The spanning tree is spanning, acyclic and of minimum weight",
 "For every dataset and every tree index over all of its samples, the spanning tree algorithm terminates and returns exactly n-1 edges that connect all n samples without a cycle, each weighted with the distance of its end points (the mutual reachability distance when core distances over k neighbours are requested). The sorted edge weights equal those of a minimum spanning tree of the complete graph under that distance.",
 ["inputs", "configurations"],
 "All datasets including duplicates and arbitrary ties, all tree options, both construction strategies, all k.",
 "The tests print the tree or write it to a file and assert nothing; ties and duplicates, where cycles could appear, are not sampled.",
 [I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", I+"datastruct/graph/spanning_tree/CoreDistances.hpp", I+"datastruct/graph/spanning_tree/MinimumSpanningTree.hpp", I+"search/buffer/WithUnionFind.hpp"],
 [("component merging", I+"datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp: Forest / make_tree"), ("core distances", I+"datastruct/graph/spanning_tree/CoreDistances.hpp")],
 ["returned edge list"])

prop("C07", "The single-linkage hierarchy and its flat cuts match single-linkage clustering",
 "From every spanning tree, the dendrogram contains one leaf per sample and n-1 merges whose heights are the sorted edge weights and never decrease towards the root, each merge joining exactly the samples connected by the edges so far. A flat cut at a level gives two samples the same label exactly when they are connected by edges shorter than the level, and samples in groups smaller than the requested minimum are labelled as noise.",
 ["inputs", "configurations"],
 "All trees with all weight orders and ties, given in any edge order, all cut levels and all minimum group sizes.",
 "The only test builds one hierarchy from random data and asserts nothing about heights or labels.",
 [I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", I+"datastruct/UnionFind.hpp"],
 [("merge of sorted edges", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp: build"), ("flat extraction", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp: extract_flat_clusters")],
 ["root node, predicted labels"])

prop("C08", "Hierarchical density clustering selects the most stable clusters consistently",
 "For every dataset and option set, the condensed hierarchy accounts for every sample once, keeps only splits where both sides reach the minimum cluster size and orders levels consistently, and the selected clusters form an antichain covering every leaf-to-root path at most once with the maximum total stability (or the leaf clusters when leaves are requested). The predicted labels number the selected clusters consecutively from 1, give every sample of a selected cluster that cluster's number and all others the noise label 0, do not depend on the order of the edges, and end to end equal those computed by a brute-force reference.",
 ["inputs", "configurations"],
 "All spanning trees and floating point datasets up to the bound, all minimum cluster sizes, leaf or stability selection, single cluster allowed or not.",
 "The tests run on benchmark files and write predictions without asserting anything.",
 [I+"hdbscan/HDBSCAN.hpp", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"],
 [("condensation", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp: build"), ("stability and selection", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp")],
 ["condensed tree nodes", "predicted labels"])

prop("C09", "Density clustering follows the core, border and noise definition",
 "For every dataset with an index over all of its samples, radius and minimum neighbour count, samples with more neighbours strictly within the radius (themselves included) than that count share a label exactly when they are connected by a chain of such samples each within the radius of the next. Every other sample within the radius of such a sample carries the label of one of those, and all remaining samples, and only they, carry the noise label; labels are numbered consecutively without gaps, and the result does not depend on how the index was built beyond the choice for shared border samples.",
 ["inputs", "configurations"],
 "All datasets, radii on and off existing distances, minimum counts, tree options and index orders.",
 "The tests cluster benchmark files and only write the labels.",
 [I+"dbscan/DBSCAN.hpp", I+"search/Search.hpp"],
 [("neighbourhood expansion", I+"dbscan/DBSCAN.hpp: predict")],
 ["predicted labels"])

prop("C10", "Union-find always represents the partition produced by its merge history",
 "After every sequence of merge and find operations, two elements have the same representative exactly when the merges so far connect them, the representative is a member of the component, and a merge returns the representative of the joined component. Find never changes the partition, repeated finds agree, and re-merging connected elements changes nothing.",
 ["histories"],
 "All operation sequences over small universes, all initial labelings accepted by the constructor, all index types.",
 "There is no test of the structure itself; it is only used inside algorithms whose tests assert nothing.",
 [I+"datastruct/UnionFind.hpp"],
 [("path halving and union by rank", I+"datastruct/UnionFind.hpp: find, merge")],
 ["find and merge results"])

prop("C11", "K-means fitting descends and ends at a fixed point for every algorithm",
 "For every dataset and initial centroids, no iteration of k-means increases the sum of squared distances of the samples to their nearest centroid, the reported total deviation equals the true total distance of the samples to their nearest centroid, and when fitting stops before the iteration limit every sample is assigned to a nearest centroid and every non-empty cluster's centroid is the mean of its samples while an empty cluster's centroid stays where it was. The accelerated algorithm reaches the same centroids as the plain one from the same start whenever no sample is equally near to two centroids.",
 ["inputs", "configurations", "histories"],
 "All floating point datasets, all initial centroids (coinciding, far away, empty clusters), all iteration limits and patience values, both algorithms.",
 "The tests run on benchmark files and only write the labels.",
 [I+"kmeans/KMeans.hpp", I+"kmeans/Lloyd.hpp", I+"kmeans/Hamerly.hpp", I+"kmeans/KMeansUtils.hpp"],
 [("assignment and update step", I+"kmeans/Lloyd.hpp: step"), ("bound based step", I+"kmeans/Hamerly.hpp: step"), ("stopping rule", I+"kmeans/KMeans.hpp: fit")],
 ["returned centroids", "labels", "objective after each step"])

prop("C12", "K-means prediction, distances and best-of-n selection are exact",
 "For every fitted model and every sample, prediction returns a nearest centroid's index and the transform returns the true distance to that nearest centroid. With several initialisations the returned centroids are those of a run with the lowest objective, for every outcome of the random initialisations.",
 ["inputs", "configurations", "histories"],
 "All datasets, centroids, numbers of initialisations and all random draws of the initialisation.",
 "No test checks predictions against distances or compares several initialisations; random draws are not controlled.",
 [I+"kmeans/KMeans.hpp", I+"kmeans/KMeansUtils.hpp", I+"kmeans/Lloyd.hpp", I+"kmeans/Hamerly.hpp"],
 [("prediction", I+"kmeans/KMeans.hpp: predict, forward"), ("candidate selection by loss", I+"kmeans/KMeans.hpp: fit")],
 ["labels, distances, centroids"])

prop("C13", "K-medoids with the default algorithm ends in a swap-optimal set of samples",
 "For every dataset and initial medoids, fitting returns as many distinct sample indices as requested, the total distance of samples to their nearest medoid never increases from one pass to the next, and when fitting stops before the iteration limit no single exchange of a medoid for a non-medoid lowers it. The result is the same whether distances are precomputed or computed on demand, the reported objective equals the true total distance, and prediction assigns every sample to a nearest medoid.",
 ["inputs", "configurations", "histories"],
 "All datasets, including duplicates and ties, all initial medoid sets with at least two medoids, both distance storages, all iteration limits.",
 "The tests fit benchmark files and only write the labels; local optimality and objective bookkeeping are never checked.",
 [I+"kmedoids/FasterPAM.hpp", I+"kmedoids/KMedoids.hpp", I+"kmedoids/PAMUtils.hpp", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
 [("swap evaluation", I+"kmedoids/FasterPAM.hpp: find_best_swap"), ("buffer update after a swap", I+"kmedoids/FasterPAM.hpp: swap_buffers"), ("nearest and second nearest medoids", I+"kmedoids/PAMUtils.hpp")],
 ["returned medoids, objective, labels"])

prop("C14", "Silhouette k-medoids keeps its objective exact and only accepts improvements",
 "For every dataset and initial medoids, fitting with the medoid silhouette algorithm returns as many distinct sample indices as requested and its reported objective equals the sum over samples of nearest divided by second nearest medoid distance for the returned medoids. That objective never increases from one pass to the next, and when fitting stops early no single exchange of a medoid lowers it.",
 ["inputs", "configurations", "histories"],
 "All floating point datasets, all initial medoid sets with two or more medoids, both distance storages; a sample at distance zero of both its medoids counts as zero.",
 "The tests fit benchmark files and only write the labels.",
 [I+"kmedoids/FasterMSC.hpp", I+"kmedoids/KMedoids.hpp", I+"kmedoids/PAMUtils.hpp"],
 [("swap evaluation", I+"kmedoids/FasterMSC.hpp: find_best_swap, find_best_swap_k2"), ("buffer update after a swap", I+"kmedoids/FasterMSC.hpp: swap_buffers, swap_buffers_k2")],
 ["returned medoids, objective"])

prop("C15", "Sorting and selection primitives permute and order exactly",
 "For every sequence of samples, sorting, partitioning around a pivot and selecting the k-th sample of an index sequence along a feature return a permutation of that sequence, leave the samples themselves untouched, and establish their order: sorted output is non-decreasing, everything before the returned pivot position is not greater and everything after not smaller, and the selected element is the k-th smallest. They terminate for every input.",
 ["inputs", "configurations"],
 "All value patterns including all-equal and duplicated values and very small differences, all pivots and ranks, all feature counts and features, all index sequences.",
 "Tests sort random integers of fixed sizes; duplicate patterns and tiny differences are not enumerated.",
 [I+"common/algorithms/Sorting.hpp", I+"common/Utils.hpp"],
 [("partition", I+"common/algorithms/Sorting.hpp: partition_around_nth_index / partition_around_nth_range"), ("quickselect and quicksort", I+"common/algorithms/Sorting.hpp")],
 ["returned position and permuted containers"])

prop("C16", "Bounding volumes contain what they should and their distances are lower bounds",
 "For every set of samples the tight box is the smallest box that contains them and membership tests of boxes and balls agree with their definition. The distance between two volumes is never larger than the distance between any two points inside them, is zero when they overlap and is symmetric; the reported diameter is the longest straight line inside the volume, and the reported centre-to-border distance is the largest half-length along any axis.",
 ["inputs", "configurations"],
 "All small boxes, segments and balls over an enumerated coordinate grid, integer and floating point, in one to three dimensions.",
 "The bounds tests check a few hand written pairs.",
 [I+"datastruct/bounds/AABB.hpp", I+"datastruct/bounds/AABBWithCentroid.hpp", I+"datastruct/bounds/Ball.hpp", I+"datastruct/bounds/UnboundedBall.hpp", I+"datastruct/bounds/distances/MinDistance.hpp", I+"datastruct/bounds/segment/LowerBoundAndLength.hpp", I+"datastruct/bounds/segment/LowerBoundAndUpperBound.hpp", I+"datastruct/Interval.hpp", I+"common/Utils.hpp"],
 [("volume to volume distance", I+"datastruct/bounds/distances/MinDistance.hpp"), ("tight box", I+"datastruct/Interval.hpp: make_tight_bound")],
 ["bounds, membership, distances"])

prop("C17", "Distances obey their definitions and distance matrices reproduce them",
 "For every pair of samples the provided metrics return their mathematical value, are symmetric, zero for identical samples, and obey the triangle inequality. A pairwise distance matrix, precomputed or computed on demand, returns for every pair of samples in either order exactly that metric's value, and both kinds agree.",
 ["inputs", "configurations"],
 "All small vectors over an enumerated value alphabet, signed, unsigned and floating point, all dimensions up to the bound, all matrix sizes up to the bound.",
 "No test covers the distance matrices, and metrics are only exercised through the algorithms.",
 [I+"common/math/heuristics/Distances.hpp", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp", I+"common/Utils.hpp"],
 [("metrics", I+"common/math/heuristics/Distances.hpp"), ("triangular storage", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp")],
 ["distances, matrix entries"])

prop("C18", "Random selection and seeding are sound and unbiased for every random draw",
 "For every outcome of the random generator, selecting n elements from a sequence or interval returns n distinct members of it, every subset can occur and all subsets are equally likely, and weighted selection returns each item with exactly its weight and refuses an empty set of weights. Centroid seeding returns samples of the dataset (or points inside its bounding box for spatial seeding), never reads outside it, and careful seeding picks each next centre with probability proportional to its distance to the nearest centre chosen so far (or to the previous centre, in the variant that says so).",
 ["inputs", "configurations", "schedules"],
 "All inputs up to the bound and all sequences of random draws, which the check enumerates instead of sampling.",
 "The tests draw random samples and cannot distinguish an unreachable or biased outcome.",
 [I+"common/math/random/Sampling.hpp", I+"common/math/random/Distributions.hpp", I+"common/math/random/VosesAliasMethod.hpp", I+"kmeans/KMeansPlusPlus.hpp", I+"kmedoids/KMedoids.hpp"],
 [("selection without replacement", I+"common/math/random/Sampling.hpp"), ("alias method", I+"common/math/random/VosesAliasMethod.hpp"), ("kmeans++ seeding", I+"kmeans/KMeansPlusPlus.hpp")],
 ["returned selections, for each sequence of draws"])

prop("C19", "Silhouette scores follow their definition for every labelling",
 "For every floating point dataset and labelling with at least two clusters, each sample's silhouette value is the difference between its mean distance to the nearest other cluster and the mean distance to the other members of its own cluster, divided by the larger of the two, zero for a sample alone in its cluster, and always within [-1, 1]. The average score is the mean of the values, and the cohesion and separation functions return the individual means.",
 ["inputs", "configurations"],
 "All datasets and all labelings up to the bound, including singleton and unbalanced clusters.",
 "No test covers the silhouette functions at all.",
 [I+"common/math/heuristics/SilhouetteMethod.hpp"],
 [("silhouette", I+"common/math/heuristics/SilhouetteMethod.hpp: silhouette, cohesion, separation")],
 ["returned values"])

prop("C20", "Statistics and matrix transforms compute their definitions",
 "For every dataset, index subset and feature subset, the column statistics (minimum, maximum, mean, variance, extreme positions and the feature of greatest variance) equal their definitions in the element type. Transposing a matrix moves every entry to the mirrored position and transposing twice restores it, for every shape, permuting rows or elements by indices puts each where its index says and refuses sizes that do not match, and the numeric helpers agree with their definition for every argument.",
 ["inputs", "configurations"],
 "All small matrices over an enumerated alphabet, all shapes up to the bound, all index subsets and feature subsets.",
 "Tests check a few fixed matrices; feature subsets and index subsets are barely exercised.",
 [I+"common/math/statistics/Statistics.hpp", I+"common/math/linear_algebra/Transpose.hpp", I+"common/math/linear_algebra/Translation.hpp", I+"common/Utils.hpp"],
 [("statistics", I+"common/math/statistics/Statistics.hpp"), ("transpose", I+"common/math/linear_algebra/Transpose.hpp")],
 ["returned values"])

prop("C21", "A candidate buffer always holds the k best candidates offered so far",
 "After every sequence of candidates offered to a search buffer, one by one or as ranges, it holds the min(k, offered) candidates with the smallest distances that it may accept, each once, and its size, remaining capacity, closest and furthest entries describe exactly that content. Copying or moving a buffer preserves its content and its filter.",
 ["histories", "configurations"],
 "All sequences of offered distances up to the bound over a small alphabet with ties, all capacities (zero included), all buffer kinds, all visited sets and partitions.",
 "The buffer tests offer one random cloud in one order.",
 [I+"search/buffer/StaticBuffer.hpp", I+"search/buffer/Unsorted.hpp", I+"search/buffer/WithMemory.hpp", I+"search/buffer/WithUnionFind.hpp"],
 [("bounded insertion", I+"search/buffer/StaticBuffer.hpp: update_static_buffers")],
 ["indices, distances, closest, furthest, capacity after each step"])

prop("C22", "Saving an index writes its exact structure; copies and moves keep it intact",
 "The saved description of a tree index lists its options, the numbers of indexed samples and of features, its bounding box and every node with exactly the samples, cut axis and children it holds in memory, with no digit lost, and a saved single-linkage hierarchy lists every node with its level and children. A copied or moved tree, or a searcher built from one, describes and searches the same index as the original.",
 ["inputs", "configurations", "histories"],
 "All datasets and tree options up to the bound and all short sequences of copy, move and save operations.",
 "One test saves trees to files and never reads them back.",
 [KD+"KDTree.hpp", KD+"KDNodeView.hpp", I+"search/Search.hpp", I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"],
 [("serialization", KD+"KDTree.hpp: serialize"), ("copy and move construction", KD+"KDTree.hpp")],
 ["written JSON", "search results"])

prop("C23", "Enabling threads changes no result, whatever the thread interleaving",
 "With multi-threading enabled, the distance matrix, the matrix transpose and the multi-start fits of k-means and k-medoids return exactly what the sequential build returns for the same random draws, for every assignment of iterations to threads and every interleaving. No two threads touch the same mutable memory without synchronisation.",
 ["schedules", "inputs", "configurations"],
 "All schedules of the parallel loops within the explored bound, all team sizes up to the bound.",
 "The test build disables threads, so no test ever runs the parallel code.",
 [I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"common/math/linear_algebra/Transpose.hpp", I+"kmeans/KMeans.hpp", I+"kmedoids/KMedoids.hpp"],
 [("parallel loops", "the 'omp parallel for' regions of the anchored files")],
 ["results of each run, memory accesses per iteration"])

prop("C24", "Greedy medoid initialisation and medoid lookups are exact",
 "For every dataset and number of medoids, the greedy initialisation starts with a sample of least total distance to all samples, adds each time a sample that lowers the total distance of the samples to their nearest medoid the most, and returns distinct samples with their true total and the true distance of every sample to its nearest one. For every set of medoids the lookups of the nearest, second and third nearest medoid of a sample return a medoid of that rank, different ones for different ranks, and its true distance; with no medoids, rank zero or a rank beyond the number of medoids they refuse with std::invalid_argument. Precomputed and on-demand distances give the same distances and totals.",
 ["inputs", "configurations"],
 "All datasets (duplicates and ties included), all numbers of medoids up to the number of samples, all ordered sets of medoids, integer and floating point samples.",
 "No test calls the greedy initialisation, and the lookups are only reached through fits of random clouds without ties.",
 [I+"kmedoids/PAMBuild.hpp", I+"kmedoids/PAMUtils.hpp"],
 [("greedy construction", I+"kmedoids/PAMBuild.hpp: build"), ("first medoid", I+"kmedoids/PAMUtils.hpp: first_medoid_td_index_pair"), ("ranked lookups", I+"kmedoids/PAMUtils.hpp: samples_to_nth_nearest_medoid_distances")],
 ["returned medoids, total and distances"])

prop("C25", "Every use gives back the memory it took, also when an allocation fails",
 "Whatever is built, searched, fitted, predicted, saved, copied or moved, once its objects and results are gone no memory it took is still allocated. When any single allocation during such a use fails, the use ends with std::bad_alloc, or completes if it can do without; the program does not end, and everything taken until then is released too.",
 ["inputs", "histories", "fault points"],
 "All datasets, tree options, call histories and buffer operations up to the bound, and in each of them every single allocation failing in turn.",
 "No test looks at memory or lets an allocation fail; a leak or a termination on a rare path is invisible in results.",
 [I+"datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", I+"datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp", KD+"KDNodeView.hpp", I+"datastruct/graph/spanning_tree/CoreDistances.hpp", I+"datastruct/UnionFind.hpp", I+"search/buffer/WithMemory.hpp", I+"search/buffer/WithUnionFind.hpp"],
 [("ownership of nodes", "the shared and weak pointers of the tree nodes"), ("dynamic arrays", "std::make_unique buffers of the anchored files")],
 ["blocks in use at the allocator, exceptions"])

prop("C26", "Results depend on the values alone, not on their storage or on earlier calls",
 "For every dataset, trees, searches, clusterings, silhouettes, statistics, sorting and distance matrices give the same result whatever random-access sequence and index type (of those they accept) holds the samples and indices, whatever lies next to them when they are a window of a larger sequence, and whatever was called before or is alive at the same time: a model, searcher or matrix that is used repeatedly or in turns with others answers like a fresh one. Samples are never modified, an index sequence is only reordered, and nothing around either is touched.",
 ["inputs", "configurations", "histories"],
 "All small datasets in every supported way of holding them, all surroundings of a window up to the bound, all call histories over two datasets up to a depth.",
 "The tests hold everything in whole vectors of one index type and use every object once, alone.",
 [I+"common/algorithms/Sorting.hpp", KD+"KDTree.hpp", I+"search/TreeTraverser.hpp", I+"dbscan/DBSCAN.hpp", I+"kmeans/KMeans.hpp", I+"kmedoids/KMedoids.hpp", I+"common/math/statistics/Statistics.hpp", I+"datastruct/matrix/PairwiseDistanceMatrix.hpp", I+"datastruct/Interval.hpp"],
 [("iterator arithmetic", "the template parameters IndicesIterator and SamplesIterator of the anchored files"), ("state kept by objects", "the members of KMeans, KMedoids, DBSCAN and Searcher")],
 ["returned values, inputs and their surroundings after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
