import json,re,sys
sys.path.insert(0,'/verif')
import checks
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
D={}
D['C01']=("`Searcher` with `KNearest`-style buffers over `KDTree` (static, dynamic and default buffers, single queries and batches). Every dataset x index order x tree option x query x k is executed; the returned index set is compared with exact integer squared distances (coordinates are integer lattice points embedded by scale/shift, so the oracle has no rounding): size, distinctness, membership, true distance, no strictly closer sample left out, closest/furthest, batch == single.",
 "A test samples a few random clouds; ties, duplicates, samples on a splitting plane, bucket boundaries and far-from-origin coordinates only occur together when all small configurations are visited.")
D['C02']=("Ball (owning and view) and box queries; radii are placed exactly on, just above and between every occurring distance; membership oracle in integers (2*key < 2*r^2).","boundary membership and pruning errors show only for radii at the edge of a subtree's box.")
D['C03']=("Searches with a visited set (copied, moved, referenced) and with a union-find partition; all subsets / all set partitions; oracle = k nearest of the permitted samples.","interaction of the filter with early termination and remaining capacity.")
D['C04']=("Builds the tree and walks every node: permutation of the index sequence, each sample in exactly one node, strict/non-strict sides of the pivot, boxes, bucket size, depth limit, axis policy. The sampling axis policy draws random samples: all draws are explored with the choice-tree explorer.","structural invariants of every reachable tree shape.")
D['C05']=("Dual-tree closest pair, set-to-set brute-force, k edges, with and without partition; all splits into query/reference sets; oracle = sorted list of all permitted pair distances.","dual pruning is only wrong for particular pairs of node boxes.")
D['C06']=("`BoruvkasAlgorithm::make_tree` / `make_tree_2` for every k; the edges are checked for acyclicity/spanning/weights and the sorted weights compared with Prim on exact keys (mutual reachability when k>1).","component merges with ties and one-sided nearest neighbours.")
D['C07']=("Every labelled tree (Prufer enumeration) x weights x edge orders; dendrogram nodes checked against an independent union of the sorted edges; all cut levels on/between the weights and all minimum sizes; also weights that differ only in the last bits of their type and huge weights.","cuts on exactly equal heights, deep chains, every merge order.")
D['C08']=("Every merge-height pattern is fed to the condensation/stability/selection code and compared with a brute-force reference (maximum-stability antichain by exhaustive search); end to end on all small datasets.","selection ties, minimum sizes exactly reached, zero distances.")
D['C09']=("DBSCAN on all datasets x radii x counts x trees; compared with the definition (core graph components, border, noise, consecutive numbering).","order-dependent border/noise relabelling.")
D['C10']=("Explicit-state exploration of all merge/find histories up to a depth from all forests; after each operation the partition, representatives and returned values are compared with a reference partition.","histories.")
D['C11']=("Lloyd and Hamerly are stepped one iteration at a time from every start; each step is compared with the exact assignment/mean step, the reported deviation with the true one, the stopping state with the fixed point definition.","Hamerly's bounds go stale only after specific sequences of reassignments.")
D['C12']=("predict/forward for all models and samples; best-of-n with all lists of starts, for the default options and for iteration limits 0-3 with and without early stopping and patience; fitting again continues from the fitted centroids; all random draws of the default initialiser.","selection between runs for every outcome of the random draws.")
D['C13']=("FasterPAM-style swap algorithm stepped pass by pass from every medoid set on both distance storages, deltas, objective, monotonicity and swap-optimality by brute force; all draws of the initialisation; best of two starts under iteration limits; fitting again continues from the fitted medoids.","bookkeeping of nearest/second nearest after several swaps.")
D['C14']=("Same for the medoid silhouette algorithm (nearest/second/third).","third-nearest bookkeeping.")
D['C15']=("sort/partition/quickselect on every value pattern, index subsequence, pivot and rank.","termination and order for all patterns of equal values.")
D['C16']=("segments, boxes, balls, views: membership, distances between volumes, tight boxes, centroid, diameter, all grid pairs, against pointwise definitions (brute force over lattice points inside).","degenerate and touching volumes, integer rounding.")
D['C17']=("metrics on all pairs/triples over alphabets including extremes, distance matrices of all small datasets, Levenshtein on all word pairs against the recursive definition.","element type extremes.")
D['C18']=("choice-tree exploration: the standard engines/distributions are replaced by choice points, every sequence of draws is executed and the exact probability of each outcome accumulated and compared with the stated law.","a distribution cannot be decided by a test that samples it.")
D['C19']=("cohesion, separation, silhouette for all labelings (gaps, singletons, narrow label types with more samples than the type can count).","label patterns.")
D['C20']=("column statistics for all matrices x index subsets x masks, transposes of all shapes, numeric helpers.","shapes/subsets.")
D['C21']=("histories of offers to each buffer kind compared with a reference multiset after every step, copies and moves at every point.","histories.")
D['C22']=("trees/searchers copied, moved, destroyed in every order (ASan build decides dangling ownership), then re-read; the written JSON is parsed by an independent parser and compared node by node.","ownership histories.")
D['C23']=("See section 4.","interleavings.")
D['C24']=("the greedy medoid initialisation and the lookups of the nearest/second/third medoid and of the first medoid (indices, distances and the medoid that a lookup names) on both storages, for every dataset, every number of medoids and every ordered medoid list; the oracle adds medoids greedily by brute force and accepts any choice that ties.","ties and the order of the additions.")
D['C25']=("operator new/delete and malloc are counted in the harness; each use (trees, all buffer kinds, single and batch searches, dual-tree search, spanning trees, hierarchies, HDBSCAN, DBSCAN, saving, fits and predictions of every model, in every call history) is run once to settle what is set up for good, once to compare the blocks in use before and after, and then once per allocation with that allocation failing (fault injection at every point).","allocation failures and ownership cycles leave results untouched.")
D['C26']=("each use of the library (trees of every option, all searches and buffers, spanning trees, hierarchies, HDBSCAN, DBSCAN, silhouettes, k-means and k-medoids fits and predictions, sorting, statistics, matrices) is run over every dataset of the space in one plain setting (a vector of its own, std::size_t indices, first use) and again in every other setting: in the middle of a larger vector whose neighbourhood is filled with small, large and equal values, in deques with every position of a block boundary, in plain arrays and through constant iterators, with every index type, after and in turns with the same use on another dataset, on the same object twice. All results must be equal to the plain one, the samples unchanged, the indices a permutation, the surroundings untouched. Settings that the tree under test does not compile for are left out by a fallback build, which is said in the evidence.","storage types, block boundaries, surroundings and call histories.")
seeds={}
out=[]
w=out.append
w(open('/verif/tools/design/design_head.md').read())
w("## 3. Per property\n\nNumbers in parentheses are the thorough tier's bounds. Costs are the quick tier's wall time on 8 cores, build included (the thorough tier: minutes, see the evidence files).\n")
for i in sorted(props):
    ev=json.load(open(f'/verif/evidence/{i}.json'))
    w(f"### {i} {props[i]['title']}\n")
    spec,why=D[i]
    w(f"- *Decided by*: {checks.CHECKS[i]['technique']}.\n- *What is executed and compared*: {spec}\n- *Bounds*: {checks.CHECKS[i]['bounds']}.\n- *Beyond tests*: {why}\n- *Cost*: about {max(5,round(ev['wall_s']/5)*5)} s.\n")
import glob,os
MISSED=set()
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    k=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append(f"| {k} | {j['property']} | {j['needs']} | {'no' if k in MISSED else 'yes'} |")
w(open('/verif/tools/design/design_tail.md').read().replace('@SEEDS@','\n'.join(rows)))
open('/verif/DESIGN.md','w').write("\n".join(out))
