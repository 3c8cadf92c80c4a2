"""Registry of the checks: which harnesses decide which property, with their bounds and assumptions."""
REAL = "the harness executes the real headers of /repo, rebuilt for this run; nothing about the code is modelled or stubbed"
COMMON = [REAL, "values outside the enumerated alphabets and sizes outside the bounds are not covered"]
DRAWS = [REAL + " except the standard random engines and distributions, which are replaced by a choice point whose alternatives are all explored",
         "a uniform real draw is represented by evenly spaced representatives", COMMON[1]]
TBB = ["-ltbb"]
CHECKS, NOT_APPLICABLE = {}, {}


def check(i, src, bounds, technique, assumptions=COMMON, libs=TBB, **unit):
    CHECKS[i] = {"units": [dict({"src": src, "libs": libs}, **unit)], "bounds": bounds, "technique": technique, "assumptions": assumptions}


LARGE = "plus every member of arithmetic families of larger datasets (9-97 samples, more in the thorough tier)"
EVERY = "; families of every size up to {0} and of up to {1} features"
check("C01", "c01_knn.cpp",
      "all ordered datasets of up to 5 (6) samples on a line of 4 values, 4 on a 3x3 grid, 4 (5) on a 2x2x2 cube, all multisets of up to 6 (7) grid, 8 (9) line and 6 (7) cube samples, all index subsets in all orders of up to 4-5 samples, all k, all queries of a surrounding half-unit grid, trees over 4 axis policies x bucket sizes 0-4 x depth limits, float/double/int at several scales, far from the origin and over the whole integer range; " + LARGE + EVERY.format("130 (300)", "33") + "; thorough bounds in parentheses; selected larger sizes up to 2049 (10000), and 66001",
      "exhaustive enumeration of datasets, index orders, tree options, k and queries; each search of the real code judged against exact integer distances")
check("C02", "c02_radius.cpp",
      "datasets as for C01 with up to 5 (6) samples; all radii 0, equal to and between the occurring squared distances and beyond the diameter, owning and view balls, all boxes over the grid, all capacities; " + LARGE + EVERY.format("90-130 (200)", "17") + "; selected larger sizes up to 1025 (4097), and 66001",
      "exhaustive enumeration of datasets, trees, regions and capacities against an exact membership oracle")
check("C03", "c03_constrained.cpp",
      "datasets of up to 4 (5) samples as for C01, all visited sets and all ways to hand them over, all partitions of the samples and all components, all k, plain and ball-bounded; " + LARGE + EVERY.format("66 (130)", "17") + "; selected larger sizes up to 1025 (2049), and 66001",
      "exhaustive enumeration of datasets, trees, visited sets and partitions against an exact oracle")
check("C04", "c04_tree.cpp",
      "all ordered datasets of up to 6 (7) line and 4 grid samples, all multisets of up to 6 (7) samples, all index subsets of up to 4 (5) samples in all orders, all axis policies, feature masks, sampling rates, bucket sizes 0-4, depth limits, and for the sampling policy every sequence of random draws; families of up to 130 samples" + EVERY.format("130 (300)", "17") + "; selected larger sizes up to 2049 (10000), and 66001",
      "exhaustive enumeration of tree constructions (choice-tree exploration of the random draws); every node of the resulting tree checked against the partition invariants", DRAWS)
check("C05", "c05_closest_pair.cpp",
      "all datasets of up to 5 (6) line, 3 (4) grid samples and multisets of up to 4-6 (5-7), every split into query and reference set, every partition, every set of references left out (lent or given away), no permitted pair at all, all k from 0 to the number of pairs; two separate data sets of together up to 5 (6) samples, every pair of them; two trees over bucket sizes 0-2 and the axis policies; " + LARGE + EVERY.format("70-90 (130)", "17") + "; selected larger sizes up to 513 (1025)",
      "exhaustive enumeration of pairs of indexed sets and partitions against an exact shortest-edge oracle")
check("C06", "c06_mst.cpp",
      "all ordered datasets of up to 6 (7) line and 4 grid samples, all multisets of up to 7 (8) grid and 8 (9) line samples, all k up to n+1, both construction strategies, float/double/int; " + LARGE + EVERY.format("130", "17") + "; selected larger sizes up to 1025 (2049)",
      "exhaustive enumeration of datasets, trees and k; the returned edges checked for acyclicity, weights and minimality against Prim's algorithm on exact keys")
check("C07", "c07_linkage.cpp",
      "all labelled trees on up to 6 vertices with all weights from an alphabet of 2-4 (5) values in all edge orders (orders up to 4 (5) edges), weights zero, huge and differing only in their last digits, all cut levels on, between and beyond the weights, all minimum group sizes; families of up to 33 (150) vertices and of every number of vertices up to 70 (130); selected larger sizes up to 300 (1025), and 66001",
      "exhaustive enumeration of weighted trees, edge orders, cut levels and sizes against an independent connectivity oracle")
check("C08", "c08_hdbscan.cpp",
      "all merge-height patterns of up to 10 (11) samples, all weighted labelled trees of up to 6 (7) vertices, all minimum cluster sizes, both selection modes, single cluster allowed or not; end to end all datasets of up to 4 line and 4 (5) grid samples, multisets of up to 6 (7), all gap permutations of 6-8 samples on a line, datasets of every size up to 36 (48), on a line up to 70 (200) and selected sizes up to 1025 (2049); hierarchies of every size up to 130 (300) and of 1025, 4097 and 66001 samples",
      "exhaustive enumeration of hierarchies and datasets against a brute-force reference of condensation, stability and selection")
check("C09", "c09_dbscan.cpp",
      "all ordered datasets of up to 6 (7) line and 5 (6) grid samples, multisets of up to 8 (9), all sample orders of 8 shapes, all radii on and between occurring distances, all minimum counts, tree options; " + LARGE + EVERY.format("200", "17") + "; selected larger sizes up to 1025 (2049), and 9999 on a line",
      "exhaustive enumeration of datasets, radii, counts and trees against the density clustering definition")
check("C10", "c10_unionfind.cpp",
      "all histories of merge/find: n=2 depth<=6, n=3 depth<=6 (7), n=4 depth<=5 (6), n=5 depth<=4 (5), 4 index types; all complete merge trees n<=5 (6); all parent-forest labelings n<=5 followed by every history of depth up to 1-3 (4); arithmetic families of long histories for every n up to 70 (130) (thorough bounds in parentheses); selected larger sizes up to 513 (2049), and 66001",
      "exhaustive enumeration of operation histories of the real structure against a reference partition", libs=[])
check("C11", "c11_kmeans.cpp",
      "all ordered datasets of up to 4 line samples with up to 3 initial centroids anywhere on the (wider) grid, multisets of up to 5-6 (7) line, 4 (5) plane, 3 (4) cube samples with 1-3 centroids, every iteration up to convergence, both algorithms, float/double at several scales and far from the origin; families of 12-60 samples with 2-7 centroids" + EVERY.format("70 (130)", "33") + " with 2-17 centroids; selected larger sizes up to 513 (1025), and 66001",
      "exhaustive enumeration of datasets and starts, stepping the real algorithms and checking descent, fixed point and reported deviation after each step")
check("C12", "c12_kmeans_predict.cpp",
      "prediction: all pairs of 2-3 samples and up to 4 centroids over line, plane and cube grids, float/double/int/uint8; best-of-n: all lists of 2-3 starts over datasets of up to 6 (7) samples with every combination of options; all random draws of the default initialisation for up to 5 (6) samples, n_init up to 2" + EVERY.format("70 (130)", "33") + "; selected larger sizes up to 257, and 66001",
      "exhaustive enumeration of models, samples and random draws against brute-force distances and independent runs", DRAWS)
check("C13", "c13_pam.cpp",
      "all ordered datasets of up to 5 samples on a line of 4 values, multisets of up to 8 (9) line and 6 (7) plane samples, all medoid sets (and orders where affordable) with 2-5 medoids, both storages, every pass; all random draws of the initialisation for up to 5 (6) samples; families of 12-60 (100) samples" + EVERY.format("60 (100)", "33") + " with 2-17 medoids; selected larger sizes up to 257 (337)",
      "exhaustive enumeration of datasets and starts, stepping the real algorithm and checking objective, monotonicity and swap-optimality after each pass", DRAWS)
check("C14", "c14_msc.cpp",
      "as C13, floating point only", "exhaustive enumeration of datasets and starts, stepping the real algorithm and checking objective, monotonicity and swap-optimality after each pass", DRAWS)
check("C15", "c15_sorting.cpp",
      "all sequences of up to 8 (9) values over 4 levels and up to 11 (12) over 3, at scales down to 1e-300, all index sequences of up to 5 (6) samples, all pivots and ranks, 1-3 features; long families of 10-100 samples and every length up to 66 (100); selected larger sizes up to 257, and 66001",
      "exhaustive enumeration of value patterns, index sequences, pivots and ranks against the ordering definition")
check("C16", "c16_bounds.cpp",
      "all segments, boxes and balls with corners/centres on grids of half-width up to 6 (1-d), 4 (5) (2-d), 1 (3-d), all pairs of them, tight boxes of all datasets of up to 4 samples incl. extreme representable values, float/double/int, tiny and wide scales; boxes and balls of every number of features up to 40 (70); selected larger sizes up to 129 features and 2049 samples, and 66001",
      "exhaustive enumeration of volumes and pairs of volumes over a coordinate grid against pointwise definitions", libs=[])
check("C17", "c17_distances.cpp",
      "all pairs and triples of vectors over alphabets of 3-12 values (extremes included) in 1-5 (7) dimensions, 8 element types, families of every number of features up to 70; all matrices of up to 5 samples and families of larger ones with up to 33 features; all pairs of words of up to 8 (9) letters for the edit distance and families of words of up to 40; selected larger sizes up to 513, and 66001",
      "exhaustive enumeration of sample pairs, triples and matrices against exact definitions", libs=[])
check("C18", "c18_random.cpp",
      "every sequence of random draws: selection of n from up to 6 (8) elements (families of up to 40 (60) elements with every place of one deviating draw), sample selection from up to 4 (5) samples, spatial seeding for up to 3 samples, weighted selection over all weight vectors of up to 4 (5) items from 4 (12) weights and 5 (6) rounding weights, careful seeding of 2-5 centres for up to 5 samples; probabilities computed exactly from the choice tree; selected larger sizes up to 257",
      "exhaustive choice-tree exploration of all random draws, with exact probabilities of every outcome", DRAWS, libs=[])
check("C19", "c19_silhouette.cpp",
      "all datasets of up to 5 (6) line and 4 (5) plane samples with all labelings of 2-8 labels, multisets of up to 7 (8), label types down to 8 bits with the largest value of each; families of 20 and 50 samples" + EVERY.format("100 (200)", "33") + "; selected larger sizes up to 513 (2049)",
      "exhaustive enumeration of datasets and labelings against the definition", libs=[])
check("C20", "c20_statistics.cpp",
      "all matrices of up to 6 (7) x 1, 5 (6) x 2, 5 (6) x 3 over small alphabets with all index subsets and feature masks, 6 element types, all sequences of up to 7 (8) values, transposes of all shapes up to 40 and around the block size; numeric helpers over their whole enumerated argument range" + EVERY.format("130 (200)", "33") + "; selected larger sizes up to 5000 (10000), and 66001",
      "exhaustive enumeration of matrices, subsets and sequences against the definitions", libs=[])
check("C21", "c21_buffer.cpp",
      "all sequences of up to 9 (10) offered distances over 4 levels, 12 (13) over 3, no limit and all capacities from 0 to 5, all buffer kinds, all visited sets and partitions of up to 6 (7) candidates, all ranges of up to 6 (7) samples, copies and moves at every point; families of every number of offers up to 40 (80) and of every range length up to 70 (130); selected larger sizes up to 257 (513) offers and ranges of 2049, and 66001",
      "exhaustive enumeration of operation histories of the real buffers against a reference multiset, checked after every step")
check("C22", "c22_saved.cpp",
      "all datasets of up to 4 (5) line and 3 (4) plane samples, index subsets of up to 3 (4), tree options, every sequence of up to 4 (5) copy, move, destroy and searcher operations; all weighted trees of up to 4 (5) vertices for hierarchies; families of 20 and 60 samples" + EVERY.format("30 (60)", "33") + "; selected larger sizes up to 257 (513)",
      "exhaustive enumeration of trees and copy/move/save histories; written JSON parsed independently and compared with the in-memory structure")
check("C24", "c24_medoids.cpp",
      "greedy initialisation: all ordered datasets of up to 6 (7) line samples, multisets of up to 7 (8) line, plane and cube samples, every number of medoids up to n, float/double/int; families of 12-30 (100) samples; lookups: all ordered sets of up to 4-6 medoids of all datasets of up to 4-6 samples, ranks 1-3, both storages" + EVERY.format("50-60 (100)", "33") + "; selected larger sizes up to 257",
      "exhaustive enumeration of datasets and medoid sets against brute-force greedy choices and sorted distances")
check("C25", "c25_memory.cpp",
      "trees, searches, spanning trees, hierarchies, HDBSCAN and DBSCAN on all ordered datasets of up to 4 (5) line samples and multisets of up to 4-5 (5-6) plane and integer samples; all call histories of up to 3 (4) calls of k-means and k-medoids models on multisets of 3-4 (5) samples; all histories of up to 5 (6) operations of buffers and partitions; boxes and balls, vectors, matrices, statistics, sorting and random selection on families; in each, every single allocation failing in turn (model histories up to 2 calls); families of every size up to 40 (60) without failures; selected larger sizes up to 257 (513)",
      "exhaustive enumeration of uses and call histories of the real code with every allocation of each use failing in turn; blocks in use counted at the allocator")
CHECKS["C25"]["units"] = [dict(CHECKS["C25"]["units"][0], flags=["-DPART=%d" % p]) for p in (1, 2, 3, 4)]
check("C26", "c26_storage.cpp",
      "trees, searches, DBSCAN, k-means, k-medoids, silhouettes, statistics, sorting, matrices and volumes over all ordered datasets of up to 5 (6) line samples and multisets of up to 6 (8) line, 5 (6) plane and 5 (6) cube samples, float/double/int; spanning trees, HDBSCAN and closest pairs over vectors; 13 ways of holding indices and samples (index types of 8, 32 and 64 bits, vectors, deques split at three places, plain arrays, constant samples) and windows of larger sequences next to copies, huge, low and infinite values; all histories of 2-3 (4) calls out of 18 on objects over two datasets alive together; families of every size up to 140 (200) and of up to 33 features",
      "exhaustive enumeration of datasets, ways of holding them and call histories of the real code, each result compared with that of a fresh use over plain vectors")
CHECKS["C26"]["units"] = [dict(CHECKS["C26"]["units"][0], flags=["-DPART=%d" % p], san=p in (1, 3), fallbacks=f) for p, f in
                          ((1, []), (2, [["-UPART", "-DPART=9"]]), (3, [["-UPART", "-DPART=9"]]), (4, [["-UPART", "-DPART=5"], ["-UPART", "-DPART=9"]]))]
_TSAN = ["-O1", "-fsanitize=thread", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"]
_WRAP = ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_guard_acquire", "__cxa_guard_release")]
check("C23", "c23_threads.cpp",
      "all schedules of teams of 1-4 (5) threads: distance matrices of up to 5 (6) samples (every assignment of rows to threads and order of taking them), transposes of all small shapes and around the block size, multi-start fits of k-means with all lists of 2-3 (4) starts and all option combinations, and of k-medoids with every sequence of random draws",
      "stateless exploration of all schedules of the real threaded code under a controlled OpenMP runtime (scheduling points at synchronisation operations, vector-clock race detection on every instrumented access), results compared with the sequential build",
      [REAL + " except the OpenMP runtime, replaced by a controlled scheduler, and the standard random engines (all draws explored)",
       "memory accesses inside precompiled system libraries are seen only through memcpy, memmove, memset, memcmp, operator new/delete and mutexes", COMMON[1]],
      libs=_WRAP + ["-ltbb", "-lpthread"], threads=True, san=False,
      parts=[("c23_par.cpp", _TSAN + ["-fopenmp", "-DTHREADS_ENABLED=true"]), ("c23_seq.cpp", _TSAN + ["-DTHREADS_ENABLED=false"]),
             ("c23_threads.cpp", ["-DTHREADS_ENABLED=false"]), ("omp_mc.cpp", [])])
