// C26: results depend on the values given alone: not on the containers and index types that hold them, not on what lies next
// to them in memory, and not on what else was called or is alive.
#include "spaces.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/kmedoids/PAMBuild.hpp"

#include <deque>

#ifndef PART  // the parts are compiled apart, to be built side by side
#define PART 0
#endif
#define MC_TEXT(x) #x
#define MC_PART(name, part) name "-" MC_TEXT(part)
#define SPACE(name) MC_PART(name, PART)

using namespace th;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;
namespace cmn = ffcl::common;
using Visited = std::unordered_set<std::size_t>;
using UF      = ffcl::datastruct::UnionFind<std::size_t>;
using Result  = std::vector<double>;

inline bool same(const Result& a, const Result& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
}
template <typename V>
void append(Result& r, const V& v) {
    r.push_back(-7);
    for (const auto& x : v) r.push_back(static_cast<double>(x));
}
template <typename V>
void append_sorted(Result& r, const V& v) {
    Result s;
    for (const auto& x : v) s.push_back(static_cast<double>(x));
    std::sort(s.begin(), s.end());
    append(r, s);
}

template <typename I, typename S>
auto tree_options(const Config& c) {
    namespace pol = ffcl::datastruct::kdtree::policy;
    typename ffcl::datastruct::KDTree<I, S>::Options o;
    o.bucket_size(c.bucket).max_depth(c.depth);
    if (c.policy == Cycle) o.axis_selection_policy(pol::CycleThroughAxesBuild<I, S>());
    else if (c.policy == Spread) o.axis_selection_policy(pol::MaximumSpreadBuild<I, S>());
    else o.axis_selection_policy(pol::HighestVarianceBuild<I, S>().sampling_rate(c.policy == Variance ? 0.1 : 1.0));
    return o;
}

// every use over one way of holding the indices and samples; `full`: everything that accepts these iterators
template <typename I, typename S>
struct World {
    I           ib, ie;
    S           xb, xe;
    std::size_t dim, n;
    Config      c;
    using T  = std::remove_const_t<typename std::iterator_traits<S>::value_type>;
    using KD = ffcl::datastruct::KDTree<I, S>;
    static constexpr bool kSizes  = std::is_same_v<typename std::iterator_traits<I>::value_type, std::size_t>;
    static constexpr bool kVector = std::is_same_v<S, typename Data<T>::iterator> || std::is_same_v<S, typename Data<T>::const_iterator>;
    static constexpr bool kReal   = std::is_floating_point_v<T>;

    KD tree() const {
        std::iota(ib, ie, 0);
        mcrng::rng().reset_fixed(3);
        return KD(ib, ie, xb, xe, dim, tree_options<I, S>(c));
    }
    template <typename Searcher>
    Result search(const Searcher& s) const {
        Result r;
        for (std::size_t q = 0; q < n; ++q) {
            const auto a = xb + q * dim, b = xb + (q + 1) * dim;
            for (std::size_t k : {std::size_t(1), std::size_t(2), n}) {
                append_sorted(r, s(buf::Unsorted<S>(a, b, k)).distances());
                append_sorted(r, s(buf::WithMemory<S>(a, b, Visited{0, 2}, k)).distances());
                UF uf(n);
                uf.merge(0, n - 1);
                append_sorted(r, s(buf::WithUnionFind<S>(a, b, uf, uf.find(q), k)).distances());
            }
            auto in = s(buf::Unsorted<S, bnd::BallView<S>>(bnd::BallView<S>(a, b, T(2))));
            append_sorted(r, in.indices());
            append_sorted(r, in.distances());
        }
        return r;
    }
    Result built() const {
        const auto t = tree();
        Result     r;
        append_sorted(r, std::vector<double>(ib, ie));
        r.push_back(t.n_samples());
        r.push_back(t.n_features());
        std::function<void(const typename KD::NodePtr&)> visit = [&](const typename KD::NodePtr& node) {
            r.push_back(static_cast<double>(node->cut_axis_feature_index_));
            append_sorted(r, std::vector<double>(node->indices_range_.first, node->indices_range_.second));
            for (std::size_t f = 0; f < dim; ++f) {
                r.push_back(node->bound_.segment_at(f).lower_bound());
                r.push_back(node->bound_.segment_at(f).upper_bound());
            }
            if (node->left_) visit(node->left_);
            if (node->right_) visit(node->right_);
        };
        visit(t.root());
        return r;
    }
    Result searched() const { return search(ffcl::search::Searcher<KD>(tree())); }
    Result dbscan() const {
        Result r;
        using D = ffcl::DBSCAN<KD>;
        for (std::size_t m : {0, 1, 2}) append(r, D(typename D::Options().min_samples(m).radius(T(2))).predict(tree()));
        return r;
    }
    Result closest() const {
        Result r;
        ffcl::search::Searcher<KD> s(tree());
        const auto                 e = s.dual_tree_shortest_edge(tree(), std::size_t(1));
        r.push_back(static_cast<double>(std::get<2>(e)));
        return r;
    }
    Result spanning() const {
        Result r;
        using A = ffcl::BoruvkasAlgorithm<KD>;
        for (std::size_t k : {1, 2}) {
            std::vector<double> w;
            for (const auto& e : A(typename A::Options().k_nearest_neighbors(k)).make_tree(tree())) w.push_back(static_cast<double>(std::get<2>(e)));
            append_sorted(r, w);
        }
        return r;
    }
    Result hdbscan() const {
        Result r;
        using H = ffcl::HDBSCAN<KD>;
        for (std::size_t k : {1, 2}) append(r, H(typename H::Options().k_nearest_neighbors(k).min_cluster_size(2)).predict(tree()));
        return r;
    }
    std::vector<T> centres() const { return std::vector<T>(xb, xb + 2 * dim); }
    Result         kmeans() const {
        Result r;
        using K = ffcl::KMeans<T>;
        K a(2, centres()), b(2, centres());
        append(r, a.template fit<ffcl::Lloyd>(xb, xe, dim));
        append(r, b.template fit<ffcl::Hamerly>(xb, xe, dim));
        append(r, a.predict(xb, xe, dim));
        append(r, b.forward(xb, xe, dim));
        K drawn(2);
        mcrng::rng().reset_fixed(3);
        if (std::set<T>(xb, xe).size() > 1) append(r, drawn.template fit<ffcl::Lloyd>(xb, xe, dim));
        return r;
    }
    template <bool precompute>
    Result kmedoids() const {
        Result r;
        using K = ffcl::KMedoids<T, precompute>;
        K a(2, std::vector<std::size_t>{0, 1});
        append(r, a.template fit<ffcl::FasterPAM>(xb, xe, dim));
        append(r, a.predict(xb, xe, dim));
        append(r, a.forward(xb, xe, dim));
        if constexpr (kReal) {
            K b(2, std::vector<std::size_t>{0, 1});
            append(r, b.template fit<ffcl::FasterMSC>(xb, xe, dim));
        }
        return r;
    }
    Result silhouettes() const {
        Result r;
        for (std::size_t one = 0; one < n; ++one) {
            std::deque<std::size_t> labels(n, 0);
            labels[one] = 1;
            append(r, cmn::math::heuristics::silhouette(xb, xe, dim, labels.begin(), labels.end()));
        }
        return r;
    }
    Result statistics() const {
        namespace st = cmn::math::statistics;
        Result r;
        std::iota(ib, ie, 0);
        append(r, st::compute_mean_per_feature(xb, xe, dim));
        append(r, st::compute_mean_per_feature(ib, ie, xb, xe, dim));
        if (n > 1) {
            append(r, st::compute_variance_per_feature(xb, xe, dim));
            append(r, st::compute_variance_per_feature(ib, ie, xb, xe, dim));
            r.push_back(st::argmax_variance_per_feature(xb, xe, dim));
            r.push_back(st::argmax_variance_per_feature(ib, ie, xb, xe, dim));
        }
        append(r, st::normalize_min_max<double>(xb, xe));
        r.push_back(st::argmin(xb, xe));
        r.push_back(st::argmax(xb, xe));
        return r;
    }
    Result sorted() const {
        Result r;
        for (std::size_t f = 0; f < dim; ++f) {
            auto values = [&] {
                std::vector<double> v;
                for (auto i = ib; i != ie; ++i) v.push_back(static_cast<double>(xb[*i * dim + f]));
                return v;
            };
            std::iota(ib, ie, 0);
            cmn::algorithms::quicksort(ib, ie, xb, xe, dim, n / 2, f);
            append(r, values());
            for (std::size_t k = 0; k < n; ++k) {
                std::iota(ib, ie, 0);
                const auto at = cmn::algorithms::quickselect(ib, ie, xb, xe, dim, k, f);
                r.push_back(values()[k]);
                (void)at;
            }
        }
        return r;
    }
    Result matrices() const {
        Result r;
        ffcl::datastruct::PairwiseDistanceMatrix<S>        m(xb, xe, dim);
        ffcl::datastruct::PairwiseDistanceMatrixDynamic<S> d(xb, xe, dim);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) r.push_back(m(i, j)), r.push_back(d(i, j));
        return r;
    }
    Result volumes() const {
        Result r;
        using Seg = bnd::segment::LowerBoundAndUpperBound<T>;
        auto add = [&](const auto& box) {
            for (std::size_t f = 0; f < dim; ++f) r.push_back(box.segment_at(f).lower_bound()), r.push_back(box.segment_at(f).upper_bound());
        };
        add(ffcl::datastruct::make_tight_bound<S, bnd::AABB<Seg>>(xb, xe, dim));
        std::iota(ib, ie, 0);
        add(ffcl::datastruct::make_tight_bound<I, S, bnd::AABB<Seg>>(ib, ie, xb, xe, dim));
        append(r, std::get<0>(cmn::math::linear_algebra::transpose_sequential(xb, xe, dim)));
        return r;
    }

    // name and result of every use
    std::vector<std::pair<const char*, Result>> all() const {
        std::vector<std::pair<const char*, Result>> r;
        auto add = [&](const char* name, auto&& f) {
            r.push_back({name, f()});
            mc::exec();
        };
        add("the tree", [&] { return built(); });
        add("search", [&] { return searched(); });
        add("dbscan", [&] { return dbscan(); });
        if constexpr (kSizes && std::is_same_v<S, typename Data<T>::iterator>) {
            add("closest pair", [&] { return closest(); });
            add("spanning tree", [&] { return spanning(); });
            if constexpr (kReal) add("hdbscan", [&] { return hdbscan(); });
        }
        if constexpr (kReal) add("k-means", [&] { return kmeans(); });
        if (n > 2) add("k-medoids", [&] { return kmedoids<true>(); });
        if (n > 2) add("k-medoids without matrix", [&] { return kmedoids<false>(); });
        if constexpr (kReal) add("silhouette", [&] { return silhouettes(); });
        add("statistics", [&] { return statistics(); });
        add("sorting", [&] { return sorted(); });
        add("matrices", [&] { return matrices(); });
        add("volumes", [&] { return volumes(); });
        return r;
    }
};
template <typename I, typename S>
World<I, S> world(I ib, I ie, S xb, S xe, std::size_t dim, const Config& c) { return {ib, ie, xb, xe, dim, static_cast<std::size_t>(std::distance(ib, ie)), c}; }


// a container with the values in the middle and `around` copies of something else on both sides
template <typename C, typename V>
C surrounded(const V& values, std::size_t around, typename C::value_type other) {
    C c(around, other);
    for (const auto& v : values) c.push_back(static_cast<typename C::value_type>(v));
    c.insert(c.end(), around, other);
    return c;
}

template <typename T>
struct Check {
    std::vector<Config> cs;
    bool                all_kinds = true;

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n = x.size() / dim;
        if (n < 2) return;
        (void)order;
        const auto values = embed<T>(x, {});
        for (const auto& c : cs) {
            auto what = [&] { return "points " + show_points(x, dim) + " tree " + c.text(); };
            mc::guard("storage", [&] {
                Data<T>    data = values;
                Indices    idx  = iota(n);
                const auto want = world(idx.begin(), idx.end(), data.begin(), data.end(), dim, c).all();
                for (auto& [name, r] : want) {
                    std::uint64_t h = 0;
                    for (double v : r) h = mc::mix(h, static_cast<std::uint64_t>(static_cast<std::int64_t>(v * 1024)));
                    mc::outcome(h);
                }
                auto compare = [&](const std::string& kind, const auto& got) {
                    for (auto& [name, r] : got) {
                        mc::step();
                        for (auto& [ref, w] : want)
                            if (std::string(ref) == name && !same(w, r))
                                return mc::fail("storage", std::string(name) + " differs for " + kind + ": " + mc::show(r) + ", over plain vectors " + mc::show(w) + ": " + what());
                    }
                };
                // the indices in a container Ix, the samples in a container Sx, both inside a larger sequence
                auto kind = [&](const std::string& name, auto ix, auto sx, std::size_t around, T other, std::size_t before = 3) {
                    using Ix = decltype(ix);
                    using Sx = decltype(sx);
                    if (!around) before = 0;
                    auto       i  = surrounded<Ix>(iota(n), before, 0);
                    auto       s  = surrounded<Sx>(values, around, other);
                    const auto i0 = i.begin() + before, s0 = s.begin() + around;
                    const auto s_before = s;
                    compare(name, world(i0, i0 + n, s0, s0 + n * dim, dim, c).all());
                    if (s != s_before) mc::fail("input", "the samples changed in " + name + ": " + what());
                    auto seen = Indices(i0, i0 + n);
                    std::sort(seen.begin(), seen.end());
                    bool kept = seen == iota(n);
                    for (std::size_t k = 0; k < before; ++k) kept &= i[k] == 0 && i[i.size() - 1 - k] == 0;
                    if (!kept) mc::fail("input", "the index sequence was not only reordered in " + name + ": " + what());
                };
                using V = Data<T>;
#if PART == 0 || PART == 1
                kind("windows next to copies of the first sample", Indices{}, V{}, 2 * dim, values[0]);
                kind("windows next to huge values", Indices{}, V{}, 3 * dim, std::numeric_limits<T>::max() / 4);
                kind("windows next to low values", Indices{}, V{}, 2 * dim, std::numeric_limits<T>::lowest() / 4);
                if constexpr (std::is_floating_point_v<T>) kind("windows next to undefined values", Indices{}, V{}, 1 * dim, std::numeric_limits<T>::infinity());
#endif
                if (!all_kinds) return;
#if PART == 0 || PART == 2
                kind("32 bit indices", std::vector<std::uint32_t>{}, V{}, 0, 0);
                kind("signed indices", std::vector<int>{}, V{}, dim, values[0]);
                if (n < 256) kind("8 bit indices", std::vector<std::uint8_t>{}, V{}, 0, 0);
#endif
#if PART == 0 || PART == 3
                // deques hold blocks of 512 bytes: the first block ends after one value, in the middle, before the last
                constexpr std::size_t block = 512 / sizeof(T);
                for (std::size_t in_block : {std::size_t(1), n * dim / 2, n * dim - 1}) {
                    const std::size_t around = block - in_block % block, before = 64 - in_block % n % 64;
                    kind("indices in a deque", std::deque<std::size_t>{}, V{}, dim, values[0], before);
                    kind("samples in a deque", Indices{}, std::deque<T>{}, around, values[0]);
                    kind("indices and samples in deques", std::deque<int>{}, std::deque<T>{}, around, std::numeric_limits<T>::max() / 4, 2 * before);
                }
#endif
#if PART == 0 || PART == 4
                compare("plain arrays", world(idx.data(), idx.data() + n, data.data(), data.data() + n * dim, dim, c).all());
#endif
#if PART == 0 || PART == 4 || PART == 5
                compare("constant samples", world(idx.begin(), idx.end(), values.begin(), values.end(), dim, c).all());
                #endif
            }, what);
        }
    }
};

// every history of uses of objects over two datasets that are alive together
template <typename T>
void together(const std::string& name, std::size_t dim, int side, std::size_t n_a, std::size_t n_b, std::size_t depth) {
    if (!mc::begin_space(name)) return;
    using It = typename Data<T>::iterator;
    using W  = World<Indices::iterator, It>;
    gen::multisets(n_a, dim, side, [&](const std::vector<int>& xa) {
        gen::multisets(n_b, dim, side, [&](const std::vector<int>& xb) {
            if (!mc::take()) return;
            auto what = [&] { return "points " + show_points(xa, dim) + " and " + show_points(xb, dim); };
            mc::sample(what);
            mc::guard("history", [&] {
                const std::size_t n[2] = {n_a, n_b};
                Data<T>           data[2] = {embed<T>(xa, {}), embed<T>(xb, {})};
                Indices           idx[2]  = {iota(n_a), iota(n_b)}, spare[2] = {iota(n_a), iota(n_b)};
                const Config      c{Cycle, 1, kNoLimit};
                const W           w[2]    = {{idx[0].begin(), idx[0].end(), data[0].begin(), data[0].end(), dim, n_a, c}, {idx[1].begin(), idx[1].end(), data[1].begin(), data[1].end(), dim, n_b, c}};
                const W           other[2] = {{spare[0].begin(), spare[0].end(), data[0].begin(), data[0].end(), dim, n_a, c}, {spare[1].begin(), spare[1].end(), data[1].begin(), data[1].end(), dim, n_b, c}};
                // objects alive throughout the history
                struct Live {
                    ffcl::search::Searcher<typename W::KD>               searcher;
                    ffcl::DBSCAN<typename W::KD>                         dbscan;
                    ffcl::datastruct::PairwiseDistanceMatrix<It>         matrix;
                    ffcl::KMeans<T>                                      kmeans;
                    ffcl::KMedoids<T, false>                             kmedoids;
                    Live(const W& v)
                      : searcher(v.tree())
                      , dbscan(typename ffcl::DBSCAN<typename W::KD>::Options().min_samples(1).radius(T(2)))
                      , matrix(v.xb, v.xe, v.dim)
                      , kmeans(2, v.centres())
                      , kmedoids(2, std::vector<std::size_t>{0, 1}) {
                        kmeans.template fit<ffcl::Hamerly>(v.xb, v.xe, v.dim);
                        kmedoids.template fit<ffcl::FasterPAM>(v.xb, v.xe, v.dim);
                    }
                };
                auto use = [&](Live& live, int op, std::size_t d) {
                    Result     r;
                    const auto a = data[d].begin(), b = data[d].end();
                    switch (op) {
                        case 0: return w[d].search(live.searcher);
                        case 1: append(r, live.dbscan.predict(other[d].tree())); break;
                        case 2:
                            for (std::size_t i = 0; i < n[d]; ++i)
                                for (std::size_t j = 0; j < n[d]; ++j) r.push_back(live.matrix(i, j));
                            break;
                        case 3: append(r, live.kmeans.predict(a, b, dim)), append(r, live.kmeans.forward(a, b, dim)); break;
                        case 4: append(r, live.kmedoids.predict(a, b, dim)), append(r, live.kmedoids.forward(a, b, dim)); break;
                        case 5: return other[d].kmeans();
                        case 6: return other[d].template kmedoids<true>();
                        case 7: return other[d].hdbscan();
                        default: return other[d].spanning();
                    }
                    return r;
                };
                constexpr int       kOps = 9;
                std::vector<Result> fresh;
                for (std::size_t d = 0; d < 2; ++d)
                    for (int op = 0; op < kOps; ++op) {
                        Live live(w[d]);
                        fresh.push_back(use(live, op, d));
                    }
                gen::tuples(depth, 2 * kOps, [&](const std::vector<int>& h) {
                    Live live[2] = {Live(w[0]), Live(w[1])};
                    mc::exec();
                    for (std::size_t at = 0; at < h.size(); ++at) {
                        const std::size_t d = h[at] / kOps;
                        mc::step();
                        if (!same(use(live[d], h[at] % kOps, d), fresh[h[at]])) {
                            static const char* names[] = {"search", "dbscan", "matrix", "k-means prediction", "k-medoids prediction", "k-means", "k-medoids", "hdbscan", "spanning tree"};
                            return mc::fail("history", std::string(names[h[at] % kOps]) + " of dataset " + std::to_string(d) + " depends on the calls before it " + mc::show(h) + ": " + what());
                        }
                    }
                });
            }, what);
        });
    });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const auto one = configs({Cycle}, {1}, {kNoLimit}), more = configs({Cycle, Spread, Variance}, {1, 2}, {kNoLimit, 1});
    space::ordered(SPACE("line"), 1, S ? 3 : 4, 2, S ? 3 : T ? 6 : 5, Check<float>{one});
    if (!S && PART <= 1) space::ordered(SPACE("line-options"), 1, 4, 2, T ? 5 : 4, Check<double>{more, false});
    if (!S) space::multisets(SPACE("line-double"), 1, 6, 3, T ? 8 : 6, Check<double>{one}, T);
    space::multisets(SPACE("line-int"), 1, 5, 2, S ? 3 : 6, Check<int>{one});
    if (!S) space::multisets(SPACE("plane"), 2, 3, 2, T ? 6 : 5, Check<float>{one}, T);
    if (!S && PART <= 1) space::multisets(SPACE("plane-options"), 2, 3, 3, T ? 5 : 4, Check<double>{more, false});
    if (!S) space::multisets(SPACE("plane-int"), 2, 3, 3, T ? 5 : 4, Check<int>{configs({Spread}, {2}, {kNoLimit})});
    if (!S) space::multisets(SPACE("cube"), 3, 2, 3, T ? 6 : 5, Check<double>{configs({VarianceFull}, {1}, {kNoLimit})});
    if (!S) space::sizes(SPACE("sizes"), 2, 2, T ? 200 : 140, Check<float>{configs({VarianceFull}, {3}, {kNoLimit})});
    if (!S) space::sizes(SPACE("sizes-int"), 1, 2, T ? 200 : 140, Check<int>{configs({Cycle}, {3}, {kNoLimit})});
    if (!S) space::dims(SPACE("dims"), {4, 5, 7, 8, 9, 16, 17, 33}, {3, 10, 31}, Check<double>{configs({Spread}, {2}, {kNoLimit})});
    if (!S) space::wide(SPACE("wide"), {130, 300}, {3, 20}, Check<double>{configs({Spread}, {2}, {kNoLimit})});
#if PART <= 1
    together<double>("together", 1, S ? 2 : 4, 3, 4, S ? 1 : 3);
    if (!S) together<float>("together-plane", 2, T ? 3 : 2, 3, 3, T ? 3 : 2);
    if (!S && T) together<double>("together-deep", 1, 3, 3, 3, 4);
#endif
    return 0;
}
MC_MAIN
