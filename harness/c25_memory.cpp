// C25: every use of the library gives back the memory it took, also when an allocation fails at any point of it.
#include <cstdlib>
#include <new>

// every block that is in use, counted at the allocator
namespace mem {
static long live = 0, requests = 0, fail_at = 0;
}
#ifndef MC_SAN
extern "C" {
void* __libc_malloc(std::size_t);
void  __libc_free(void*);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* malloc(std::size_t n) {
    void* p = __libc_malloc(n);
    mem::live += p != nullptr;
    return p;
}
void free(void* p) {
    mem::live -= p != nullptr;
    __libc_free(p);
}
void* calloc(std::size_t a, std::size_t b) {
    void* p = __libc_calloc(a, b);
    mem::live += p != nullptr;
    return p;
}
void* realloc(void* q, std::size_t n) {
    void* p = __libc_realloc(q, n);
    mem::live += (p != nullptr) - (q != nullptr && (p != nullptr || n == 0));
    return p;
}
}
static void count(long) {}
#else
static void count(long d) { mem::live += d; }
#endif
void* operator new(std::size_t n) {
    if (++mem::requests == mem::fail_at) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    count(1);
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept {
    count(-(p != nullptr));
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

#include "spaces.hpp"

#include "ffcl/common/algorithms/Sorting.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/vector/FeaturesMask.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/kmedoids/PAMBuild.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

#include <unistd.h>

using namespace th;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;
using Visited = std::unordered_set<std::size_t>;
using UF      = ffcl::datastruct::UnionFind<std::size_t>;

static const std::filesystem::path& scratch() {
    static const struct Dir {
        std::filesystem::path path;
        Dir() {
            std::string t = (std::filesystem::temp_directory_path() / "c25-XXXXXX").string();
            path          = ::mkdtemp(t.data());
        }
        ~Dir() {
            std::error_code e;
            std::filesystem::remove_all(path, e);
        }
    } dir;
    static const auto file = dir.path / "saved.json";
    return file;
}

// one use of the library, from inputs to the release of everything it returned
template <typename Use, typename What>
void balanced(const char* name, Use&& use, What&& what, bool faults) {
    mc::guard(name, [&] {
        use();  // whatever is set up once and for all
        long before = mem::live, first = mem::requests;
        use();
        mc::exec(2);
        mc::step();
        const long taken = mem::requests - first, kept = mem::live - before;
        mc::outcome(mc::mix(taken, name[0]));
        if (kept) return mc::fail(name, std::string(name) + " leaves " + std::to_string(kept) + " blocks of memory allocated: " + what());
        if (!faults) return;
        for (long at = 1; at <= taken; ++at) {
            before       = mem::live;
            mem::fail_at = mem::requests + at;
            try {
                use();
            } catch (const std::bad_alloc&) {
            }
            mem::fail_at    = 0;
            const long left = mem::live - before;
            mc::exec();
            mc::step();
            if (left) return mc::fail(name, std::string(name) + " leaves " + std::to_string(left) + " blocks of memory allocated when allocation " + std::to_string(at) + " of " + std::to_string(taken) + " fails: " + what());
        }
    }, what);
}

template <typename T>
struct Uses {
    std::vector<Config> cs;
    bool                faults;
    using It   = typename Data<T>::iterator;
    using KD   = Tree<T>;
    using Ball = bnd::BallView<It>;

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n      = x.size() / dim;
        const auto        source = embed<T>(x, {});
        for (const auto& c : cs) {
            auto what = [&] { return "points " + show_points(x, dim) + " tree " + c.text(); };
            auto use  = [&](const char* name, auto&& f, bool with_faults = true) {
                balanced(name, [&] {
                    Data<T> data = source;
                    Indices idx  = order;
                    f(data, idx);
                }, what, faults && with_faults);
            };
            auto tree = [&](Data<T>& data, Indices& idx) { return make_tree<T>(idx, data, dim, c, 5); };
            use("tree", [&](auto& data, auto& idx) {
                auto t = tree(data, idx);
                KD   copy(t), moved(std::move(t));
                (void)copy.root();
            });
            use("save", [&](auto& data, auto& idx) { tree(data, idx).serialize(scratch()); }, false);
            use("search", [&](auto& data, auto& idx) {
                ffcl::search::Searcher s(tree(data, idx));
                for (std::size_t k : {std::size_t(1), n}) {
                    auto b = s(buf::Unsorted<It>(data.begin(), data.begin() + dim, k));
                    auto d = b;
                    (void)d.indices();
                    s(buf::Unsorted<It>(data.begin(), data.begin() + dim));
                    s(buf::Unsorted<It, Ball>(Ball(data.begin(), data.begin() + dim, T(2)), k));
                    s(buf::WithMemory<It>(data.begin(), data.begin() + dim, Visited{0, 2}, k));
                    UF uf(n);
                    uf.merge(0, n - 1);
                    s(buf::WithUnionFind<It>(data.begin(), data.begin() + dim, uf, uf.find(0), k));
                }
                std::vector<buf::Unsorted<It>> batch;
                for (std::size_t i = 0; i < n; ++i) batch.emplace_back(data.begin() + i * dim, data.begin() + (i + 1) * dim, 2);
                s(std::move(batch));
                ffcl::search::Searcher<KD> copy(tree(data, idx));
                copy.dual_tree_shortest_edge(tree(data, idx), std::size_t(1));
            });
            if (n > 1)
                use("spanning tree", [&](auto& data, auto& idx) {
                    using A = ffcl::BoruvkasAlgorithm<KD>;
                    for (std::size_t k = 1; k <= 2; ++k) {
                        A a(typename A::Options().k_nearest_neighbors(k));
                        auto m = a.make_tree(tree(data, idx));
                        ffcl::datastruct::mst::sort_copy(m);
                        a.make_tree_2(tree(data, idx));
                    }
                });
            use("hierarchy", [&](auto& data, auto& idx) {
                using A = ffcl::BoruvkasAlgorithm<KD>;
                A a(typename A::Options().k_nearest_neighbors(1));
                using L = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
                using C = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
                L l(a.make_tree(tree(data, idx)));
                l.predict();
                l.set_options(typename L::Options().cut_level(T(1)).min_cluster_size(2));
                l.predict();
                L copy(l);
                auto kept = l.root();
                if constexpr (std::is_floating_point_v<T>) {
                    for (std::size_t m = 1; m <= 3; ++m) {
                        C tree(kept, typename C::Options().min_cluster_size(m).return_leaf_nodes(m == 2));
                        tree.predict();
                        C other(tree);
                    }
                }
            });
            use("save hierarchy", [&](auto& data, auto& idx) {
                ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>(ffcl::BoruvkasAlgorithm<KD>().make_tree(tree(data, idx))).serialize(scratch());
            }, false);
            if constexpr (std::is_floating_point_v<T>)
                use("hdbscan", [&](auto& data, auto& idx) {
                    using H = ffcl::HDBSCAN<KD>;
                    H h(typename H::Options().k_nearest_neighbors(1).min_cluster_size(2));
                    h.predict(tree(data, idx));
                    h.set_options(typename H::Options().k_nearest_neighbors(2).min_cluster_size(2).return_leaf_nodes(true));
                    h.predict(tree(data, idx));
                });
            use("dbscan", [&](auto& data, auto& idx) {
                using D = ffcl::DBSCAN<KD>;
                D d(typename D::Options().min_samples(2).radius(T(2)));
                d.predict(tree(data, idx));
                d.set_options(typename D::Options().min_samples(1).radius(T(1)));
                d.predict(tree(data, idx));
            });
        }
    }
};

// histories of a model object: every sequence of calls up to a length
template <typename Model, typename Call>
void histories(const char* name, const std::vector<std::pair<const char*, Call>>& calls, std::size_t depth, const std::function<Model()>& make, const std::string& input, bool faults) {
    for (std::size_t d = 1; d <= depth; ++d)
        gen::tuples(d, calls.size(), [&](const std::vector<int>& t) {
            auto what = [&] {
                std::string s = input + " calls";
                for (int i : t) s += std::string(" ") + calls[i].first;
                return s;
            };
            balanced(name, [&] {
                mcrng::rng().reset_fixed(3);
                Model m = make();
                for (int i : t) calls[i].second(m);
            }, what, faults && d <= 2);
        });
}

template <typename T>
void models(const std::string& name, std::size_t dim, int side, std::size_t n_min, std::size_t n_max, std::size_t depth, bool faults) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            auto       data = embed<T>(x, {});
            const auto a = data.begin(), b = data.end();
            const auto input = "points " + show_points(x, dim);
            const bool spread = std::set<int>(x.begin(), x.end()).size() > 1;
            const Data<T> centres(a, a + 2 * dim);
            {
                using K = ffcl::KMeans<T>;
                using F = std::function<void(K&)>;
                const std::vector<std::pair<const char*, F>> calls{
                    {"lloyd", [&](K& m) { m.template fit<ffcl::Lloyd>(a, b, dim); }},
                    {"hamerly", [&](K& m) { m.template fit<ffcl::Hamerly>(a, b, dim); }},
                    {"predict", [&](K& m) { m.predict(a, b, dim); }},
                    {"forward", [&](K& m) { m.forward(a, b, dim); }},
                    {"options", [&](K& m) { m.set_options(typename K::Options().max_iter(2).n_init(2)); }}};
                if constexpr (std::is_floating_point_v<T>) {
                    histories<K, F>("k-means", calls, depth, [&] { return K(2, centres); }, input, faults);
                    if (spread) histories<K, F>("k-means from random centroids", {calls[0], calls[1], calls[4]}, 2, [&] { return K(2); }, input, faults);
                }
            }
            auto medoids = [&](auto precompute) {
                using K = ffcl::KMedoids<T, decltype(precompute)::value>;
                using F = std::function<void(K&)>;
                std::vector<std::pair<const char*, F>> calls{
                    {"pam", [&](K& m) { m.template fit<ffcl::FasterPAM>(a, b, dim); }},
                    {"predict", [&](K& m) { m.predict(a, b, dim); }},
                    {"forward", [&](K& m) { m.forward(a, b, dim); }},
                    {"options", [&](K& m) { m.set_options(typename K::Options().max_iter(2).n_init(2)); }},
                    {"matrix", [&](K& m) { m.template fit<ffcl::FasterPAM>(ffcl::datastruct::PairwiseDistanceMatrix<typename Data<T>::iterator>(data.begin(), data.end(), dim)); }}};
                if constexpr (std::is_floating_point_v<T>) calls.push_back({"msc", [&](K& m) { m.template fit<ffcl::FasterMSC>(a, b, dim); }});
                histories<K, F>("k-medoids", calls, depth, [&] { return K(2, std::vector<std::size_t>{0, 1}); }, input, faults);
                std::vector<std::pair<const char*, F>> fits{calls[0], calls[3], calls[4], calls.back()};
                histories<K, F>("k-medoids from random medoids", fits, 2, [&] { return K(2); }, input, faults);
            };
            medoids(std::true_type{});
            medoids(std::false_type{});
            auto what = [&] { return input; };
            balanced("greedy medoids", [&] {
                pam::build(a, b, dim, std::size_t(2));
                ffcl::datastruct::PairwiseDistanceMatrix<typename Data<T>::iterator> m(data.begin(), data.end(), dim);
                pam::build(m, std::size_t(2));
            }, what, faults);
            if constexpr (std::is_floating_point_v<T>)
                balanced("silhouette", [&] {
                    std::vector<std::size_t> labels(n, 0);
                    labels[0] = 1;
                    ffcl::common::math::heuristics::silhouette(a, b, dim, labels.begin(), labels.end());
                }, what, faults);
        });
}

// histories of buffers and partitions, through copies, moves and assignments
template <typename T>
void buffers(const std::string& name, std::size_t depth, bool faults) {
    if (!mc::begin_space(name)) return;
    using It = typename Data<T>::iterator;
    for (std::size_t d = 1; d <= depth; ++d)
        gen::tuples(d, 6, [&](const std::vector<int>& t) {
            if (!mc::take()) return;
            Data<T> q{0};
            auto what = [&] { return "operations " + mc::show(t) + " (0-2: offer, 3: copy, 4: move, 5: copy and assign)"; };
            mc::sample(what);
            auto drive = [&](auto make, auto assignable) {
                auto        b = make();
                std::size_t i = 0;
                for (int op : t) {
                    if (op < 3) b->update(i++, static_cast<T>(op));
                    using B = std::decay_t<decltype(*b)>;
                    if (op == 3) b = std::make_unique<B>(*b);
                    if (op == 4) b = std::make_unique<B>(std::move(*b));
                    if constexpr (decltype(assignable)::value)
                        if (op == 5) {
                            B c(*b);
                            *b = c;
                            *b = std::move(c);
                        }
                }
            };
            for (std::size_t k : {1, 2, 3}) {
                balanced("buffer", [&] { drive([&] { return std::make_unique<buf::Unsorted<It>>(q.begin(), q.end(), k); }, std::true_type{}); }, what, faults);
                balanced("buffer with memory", [&] { drive([&] { return std::make_unique<buf::WithMemory<It>>(q.begin(), q.end(), Visited{1, 3}, k); }, std::false_type{}); }, what, faults);
                balanced("buffer with components", [&] {
                    UF uf(d + 1);
                    uf.merge(0, d);
                    drive([&] { return std::make_unique<buf::WithUnionFind<It>>(q.begin(), q.end(), uf, std::size_t(0), k); }, std::false_type{});
                }, what, faults);
            }
            balanced("partition", [&] {
                UF uf(5);
                for (int op : t) uf.merge(op % 5, (op * 3 + 1) % 5);
                UF moved(std::move(uf));
                moved.find(2);
            }, what, faults);
        });
}

// the building blocks: volumes, vectors, matrices, statistics, sorting and random selection
template <typename T>
void tools(const std::string& name, std::size_t dim, int side, std::size_t n_min, std::size_t n_max, bool faults) {
    if (!mc::begin_space(name)) return;
    namespace R  = ffcl::common::math::random;
    namespace St = ffcl::common::math::statistics;
    namespace LA = ffcl::common::math::linear_algebra;
    namespace ds = ffcl::datastruct;
    using It     = typename Data<T>::iterator;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            const auto    source = embed<T>(x, {});
            auto          what   = [&] { return "points " + show_points(x, dim); };
            const Indices order  = [&] { Indices o(n); std::iota(o.rbegin(), o.rend(), 0); return o; }();
            auto use = [&](const char* what_for, auto&& f) {
                balanced(what_for, [&] {
                    mcrng::rng().reset_fixed(3);
                    Data<T> data = source;
                    Indices idx  = order;
                    f(data, idx);
                }, what, faults);
            };
            // every volume: from a copied and from a moved centre, copied, assigned and moved
            auto volume = [&](auto&& make, auto& data) {
                auto a = make();
                auto b = a;
                auto c = std::move(a);
                a      = b;
                a      = std::move(c);
                (void)bnd::min_distance(a, b);
                (void)a.is_in_bounds(data.begin(), data.begin() + dim);
                (void)a.diameter();
            };
            use("ball", [&](auto& data, auto&) {
                using V = bnd::Ball<T>;
                const typename V::CentroidType centre(data.begin(), data.begin() + dim);
                volume([&] { return V(centre, T(2)); }, data);
                volume([&] { auto moved = centre; return V(std::move(moved), T(2)); }, data);
            });
            use("unbounded ball", [&](auto& data, auto&) {
                using V = bnd::UnboundedBall<T>;
                const typename V::CentroidType centre(data.begin(), data.begin() + dim);
                auto all = [&](auto&& make) {
                    auto a = make();
                    auto b = a;
                    a      = std::move(b);
                    (void)a.is_in_bounds(data.begin(), data.begin() + dim);
                };
                all([&] { return V(centre); });
                all([&] { auto moved = centre; return V(std::move(moved)); });
            });
            use("box", [&](auto& data, auto& idx) {
                using Segment = bnd::segment::LowerBoundAndUpperBound<T>;
                using V       = bnd::AABB<Segment>;
                using W       = bnd::AABBWithCentroid<Segment>;
                volume([&] { return ds::make_tight_bound<It, V>(data.begin(), data.end(), dim); }, data);
                volume([&] { return ds::make_tight_bound<It, W>(data.begin(), data.end(), dim); }, data);
                volume([&] { return ds::make_tight_bound<Indices::iterator, It, V>(idx.begin(), idx.end(), data.begin(), data.end(), dim); }, data);
                volume([&] { return ds::make_tight_bound<Indices::iterator, It, W>(idx.begin(), idx.end(), data.begin(), data.end(), dim); }, data);
                std::vector<Segment> list;
                for (std::size_t f = 0; f < dim; ++f) list.emplace_back(data[f], data[f] + 1);
                const typename V::SegmentsType segments(list);
                volume([&] { return V(segments); }, data);
                volume([&] { auto moved = segments; return V(std::move(moved)); }, data);
                volume([&] { return W(segments); }, data);
                volume([&] { auto moved = segments; return W(std::move(moved)); }, data);
            });
            use("vector", [&](auto& data, auto& idx) {
                using V = ds::FeaturesVector<T, 0>;
                using M = ds::FeaturesMask<std::size_t, 0>;
                V a(data), b(data.begin(), data.end()), c(a), d(std::move(b));
                a = c;
                c = std::move(d);
                M m(dim), e(idx), g(m);
                m = e;
                e = std::move(g);
            });
            use("matrix", [&](auto& data, auto&) {
                ds::PairwiseDistanceMatrix<It>        m(data.begin(), data.end(), dim), copy(m), moved(std::move(m));
                ds::PairwiseDistanceMatrixDynamic<It> d(data.begin(), data.end(), dim), other(d);
                (void)(copy(0, n - 1) + moved(0, n - 1) + other(0, n - 1));
                LA::transpose(data.begin(), data.end(), dim);
                LA::transpose_sequential(data.begin(), data.end(), dim);
                LA::translate_right_range_to_origin(data.begin(), data.begin() + dim, data.begin(), data.begin() + dim);
            });
            use("statistics", [&](auto& data, auto& idx) {
                const std::vector<std::size_t> mask{dim - 1};
                St::compute_mean_per_feature(data.begin(), data.end(), dim);
                St::compute_mean_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim);
                St::compute_mean_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim, mask);
                if (n > 1) {
                    St::compute_variance_per_feature(data.begin(), data.end(), dim);
                    St::compute_variance_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim);
                    St::compute_variance_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim, mask);
                    St::argmax_variance_per_feature(data.begin(), data.end(), dim);
                    St::argmax_variance_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim);
                    St::argmax_variance_per_feature(idx.begin(), idx.end(), data.begin(), data.end(), dim, mask);
                }
                for (std::size_t k = 1; k <= n; ++k) St::find_nth_smallest_index_and_element(data.begin(), data.end(), k);
            });
            use("sorting", [&](auto& data, auto& idx) {
                namespace A = ffcl::common::algorithms;
                A::quickselect(idx.begin(), idx.end(), data.begin(), data.end(), dim, n / 2, 0);
                A::quicksort(idx.begin(), idx.end(), data.begin(), data.end(), dim, n / 2, 0);
            });
            use("random selection", [&](auto& data, auto& idx) {
                for (std::size_t k : {std::size_t(1), n}) {
                    R::select_n_elements(idx.begin(), idx.end(), k);
                    R::make_n_elements_from_interval<std::size_t>(k, {0, n});
                    R::select_n_random_samples(data.begin(), data.end(), dim, k);
                    R::select_n_random_samples_from_indices(idx.begin(), idx.end(), data.begin(), data.end(), dim, k);
                    R::init_uniform(data.begin(), data.end(), dim, k);
                    R::init_spatial_uniform(data.begin(), data.end(), dim, k);
                }
                R::select_random_sample(data.begin(), data.end(), dim);
                if (std::set<std::vector<int>>([&] { std::set<std::vector<int>> s; for (std::size_t i = 0; i < n; ++i) s.emplace(x.begin() + i * dim, x.begin() + (i + 1) * dim); return s; }()).size() > 1) {
                    ffcl::kmeansplusplus::make_centroids(data.begin(), data.end(), dim, 2);
                    ffcl::kmeansplusplus::make_centroids_from_previous_centroid(data.begin(), data.end(), dim, 2);
                }
            });
            use("weighted selection", [&](auto&, auto&) {
                std::vector<double> weights;
                for (int v : x) weights.push_back(v + 1);
                R::VosesAliasMethod<double> method(weights);
                for (std::size_t k = 0; k < n; ++k) (void)method();
            });
        });
}

#ifndef PART  // the parts are compiled apart, to be built side by side
#define PART 0
#endif
int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const auto cs = configs({Cycle, VarianceFull}, {1, 2}, {kNoLimit});
#if PART == 0 || PART == 1
    space::ordered("line", 1, 3, 1, S ? 2 : T ? 5 : 4, Uses<float>{cs, true});
    if (!S) space::sizes("sizes", 2, 1, T ? 60 : 40, Uses<float>{configs({VarianceFull}, {2, 5}, {kNoLimit}), false});
    if (!S) space::big("big", 2, T ? 513 : 257, Uses<float>{configs({VarianceFull}, {5}, {kNoLimit}), false});
#endif
#if PART == 0 || PART == 2
    space::multisets("plane", 2, 3, 1, S ? 2 : T ? 5 : 4, Uses<double>{cs, true}, false);
#endif
#if PART == 0 || PART == 3
    space::multisets("line-int", 1, 4, 1, S ? 2 : T ? 6 : 5, Uses<int>{cs, true}, false);
    tools<float>("tools", 1, 3, 1, S ? 2 : T ? 6 : 5, true);
    tools<double>("tools-plane", 2, 3, 1, S ? 2 : T ? 5 : 4, true);
    tools<int>("tools-int", 2, 2, 1, S ? 2 : T ? 5 : 4, true);
    buffers<float>("buffers", S ? 2 : T ? 6 : 5, true);
    buffers<int>("buffers-int", S ? 2 : T ? 5 : 4, true);
#endif
#if PART == 0 || PART == 4
    models<float>("models", 1, 3, 3, S ? 3 : T ? 5 : 4, S ? 1 : T ? 4 : 3, true);
    if (!S) models<double>("models-plane", 2, 2, 3, T ? 5 : 4, 2, true);
    if (!S) models<int>("models-int", 1, 3, 3, 4, 2, true);
#endif
    return 0;
}
MC_MAIN
