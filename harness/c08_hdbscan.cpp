// C08: condensed hierarchies of every dendrogram shape and hierarchical density clustering of every small dataset,
// against a reference that enumerates every admissible hierarchy (all orders of tied merges) and selects by stability.
#include "mst_oracle.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"

using namespace th;
namespace ds = ffcl::datastruct;
using Mask = unsigned __int128;


struct Options {
    std::size_t mcs;
    bool        leaves, single;
    std::string text() const { return "min_cluster_size=" + std::to_string(mcs) + (leaves ? " leaves" : "") + (single ? " single-cluster-allowed" : ""); }
};

// reference hierarchy: node 0..n-1 are samples, merges follow
struct Dendrogram {
    std::vector<int>    left, right;
    std::vector<double> level;
    std::vector<Mask>   mask;
    explicit Dendrogram(std::size_t n)
      : left(n, -1)
      , right(n, -1)
      , level(n, 0)
      , mask(n) {
        for (std::size_t i = 0; i < n; ++i) mask[i] = Mask(1) << i;
    }
    int add(int a, int b, double l) {
        left.push_back(a);
        right.push_back(b);
        level.push_back(l);
        mask.push_back(mask[a] | mask[b]);
        return static_cast<int>(mask.size()) - 1;
    }
    std::size_t size(int i) const { return __builtin_popcountll(static_cast<std::uint64_t>(mask[i])) + __builtin_popcountll(static_cast<std::uint64_t>(mask[i] >> 64)); }
};
struct Choice {
    double            total;
    std::vector<Mask> selected;
};
constexpr double kInfiniteDensity = 1e30;
inline double    density(double level) { return level > 0 ? 1 / level : kInfiniteDensity; }

// all admissible selections of the condensed cluster that starts at `node` (several only when stabilities tie)
inline std::vector<Choice> select(const Dendrogram& d, int node, double birth, const Options& o, bool root, double tie, std::size_t& clusters) {
    double     own = 0;
    const Mask all = d.mask[node];
    ++clusters;
    for (int cur = node;;) {
        if (d.left[cur] < 0) return {{own, {all}}};
        const double lambda = density(d.level[cur]);
        const int    l = d.left[cur], r = d.right[cur];
        const bool   cl = d.size(l) >= o.mcs, cr = d.size(r) >= o.mcs;
        if (cl != cr) {
            own += d.size(cl ? r : l) * (lambda - birth);
            cur = cl ? l : r;
            continue;
        }
        own += d.size(cur) * (lambda - birth);
        if (!cl) return {{own, {all}}};
        std::vector<Choice> out;
        const auto a = select(d, l, lambda, o, false, tie, clusters), b = select(d, r, lambda, o, false, tie, clusters);
        for (auto& x : a)
            for (auto& y : b) {
                Choice c{x.total + y.total, x.selected};
                c.selected.insert(c.selected.end(), y.selected.begin(), y.selected.end());
                const double margin = tie * std::max({std::fabs(c.total), std::fabs(own), 1e-300});
                const bool   forced = o.leaves || (root && !o.single);
                if (forced || c.total > own - margin) out.push_back(c);
                if (!forced && c.total <= own + margin) out.push_back({own, {all}});
            }
        return out;
    }
}
using Partition = std::vector<int>;  // 0 noise, otherwise canonical cluster number by first member
inline Partition canonical(const std::vector<Mask>& sel, std::size_t n) {
    Partition p(n, 0);
    int       next = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (p[i]) continue;
        for (Mask m : sel)
            if (m >> i & 1) {
                ++next;
                for (std::size_t j = 0; j < n; ++j)
                    if (m >> j & 1) p[j] = next;
                break;
            }
    }
    return p;
}
inline std::set<Partition> admissible(const Dendrogram& d, int root, std::size_t n, const Options& o, double tie) {
    std::set<Partition> r;
    std::size_t         clusters = 0;
    for (auto& c : select(d, root, 0, o, true, tie, clusters)) r.insert(canonical(c.selected, n));
    return r;
}
// explanation of why the labels are not an admissible clustering
template <typename L>
std::string judge(const L& labels, const std::set<Partition>& ok, std::size_t n) {
    if (labels.size() != n) return "there is not one label per sample";
    std::map<std::size_t, int> names;
    Partition                  p(n, 0);
    std::size_t                top = 0;
    for (std::size_t i = 0; i < n; ++i)
        if (labels[i]) {
            p[i] = names.emplace(labels[i], static_cast<int>(names.size()) + 1).first->second;
            top  = std::max<std::size_t>(top, labels[i]);
        }
    if (top != names.size()) return "cluster labels are not numbered consecutively from 1";
    if (!ok.count(p)) {
        std::string s = "the clusters are not the most stable ones; expected";
        for (auto& q : ok) s += " " + mc::show(q);
        return s;
    }
    std::uint64_t h = n;
    for (int x : p) h = h * 17 + x;
    mc::outcome(h);
    return "";
}

// ---- condensed trees of weighted trees ------------------------------------------------------------------------------
template <typename V>
struct Condensed {
    double scale = 1;
    double tie   = 1e-4;
    using SL     = ds::SingleLinkageClusterTree<std::size_t, V>;
    using CT     = ds::CondensedClusterTree<std::size_t, V>;
    using Edges  = std::vector<std::tuple<std::size_t, std::size_t, double>>;

    void run(const Edges& e, std::size_t n, const std::vector<std::size_t>& sizes) const {
        auto what = [&] {
            std::string s = "edges {";
            for (auto& [a, b, w] : e) s += " " + std::to_string(a) + "-" + std::to_string(b) + ":" + std::to_string(w);
            return s + " } scale " + std::to_string(scale);
        };
        mc::guard("condensed", [&] {
            typename SL::MinimumSpanningTreeType edges;
            for (auto& [a, b, w] : e) edges.push_back({a, b, static_cast<V>(w * scale)});
            SL tree(edges);
            // reference dendrogram (distinct weights)
            auto sorted = e;
            std::sort(sorted.begin(), sorted.end(), [](auto& x, auto& y) { return std::get<2>(x) < std::get<2>(y); });
            Dendrogram       d(n);
            std::vector<int> top(n);
            std::iota(top.begin(), top.end(), 0);
            int root = 0;
            for (auto& [a, b, w] : sorted) {
                root = d.add(top[a], top[b], w * scale);
                for (std::size_t i = 0; i < n; ++i)
                    if (d.mask[root] >> i & 1) top[i] = root;
            }
            for (std::size_t mcs : sizes)
                for (int f = 0; f < 4; ++f) {
                    const Options      o{mcs, bool(f & 1), bool(f & 2)};
                    typename CT::Options opt;
                    opt.min_cluster_size(mcs).return_leaf_nodes(o.leaves).allow_single_cluster(o.single);
                    typename CT::Options copy;
                    copy = opt;
                    CT c(tree.root(), f & 2 ? copy : opt);
                    mc::exec();
                    mc::step();
                    const auto  labels = (f & 1) ? c.predict() : c.extract_flat_clusters();
                    const auto  why    = judge(labels, admissible(d, root, n, o, tie), n);
                    if (!why.empty()) mc::fail("condensed", why + "; labels " + mc::show(labels) + " " + o.text() + " " + what());
                }
        }, what);
    }
};
inline std::vector<double> weights(int family, std::size_t n) {
    std::vector<double> w;
    for (std::size_t i = 0; i < n; ++i) {
        const double x = static_cast<double>(i);
        w.push_back(family == 0 ? x + 1 : family == 1 ? std::pow(2.0, x) : family == 2 ? 10 + x : family == 3 ? (x < n / 2 ? 1 + 0.1 * x : 20 + x) : family == 4 ? std::pow(1.25, x) : family == 6 ? 1 + x / (1ull << 36) : x);
    }
    return w;
}
template <typename V>
void paths(const std::string& name, std::size_t n_min, std::size_t n_max, std::vector<int> families, double scale, bool all_sizes) {
    if (!mc::begin_space(name)) return;
    Condensed<V> check{scale, std::is_same_v<V, float> ? 1e-4 : 1e-9};
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::permutations(n - 1, [&](const std::vector<std::size_t>& p) {
            if (!mc::take()) return;
            std::vector<std::size_t> sizes;
            for (std::size_t m = all_sizes ? 1 : 2; m <= (all_sizes ? n + 1 : std::max<std::size_t>(4, n / 2)); ++m) sizes.push_back(m);
            for (int f : families) {
                const auto                     w = weights(f, n - 1);
                typename Condensed<V>::Edges e;
                for (std::size_t i = 0; i + 1 < n; ++i) e.push_back({i, i + 1, w[p[i]]});
                mc::sample([&] { return "path weights " + mc::show(p); });
                check.run(e, n, sizes);
            }
        });
}
template <typename V>
void trees(const std::string& name, std::size_t n_min, std::size_t n_max, std::vector<int> families, double scale) {
    if (!mc::begin_space(name)) return;
    Condensed<V> check{scale, std::is_same_v<V, float> ? 1e-4 : 1e-9};
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::labelled_trees(n, [&](const std::vector<std::pair<std::size_t, std::size_t>>& t) {
            gen::permutations(n - 1, [&](const std::vector<std::size_t>& p) {
                if (!mc::take()) return;
                for (int f : families) {
                    const auto                     w = weights(f, n - 1);
                    typename Condensed<V>::Edges e;
                    for (std::size_t i = 0; i + 1 < n; ++i) e.push_back({t[i].first, t[i].second, w[p[i]]});
                    check.run(e, n, {1, 2, 3});
                }
            });
        });
}
template <typename V>
void large(const std::string& name, std::vector<std::size_t> sizes) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (int shape = 0; shape < 4; ++shape)
            for (int mul : {1, 3, 5, 7, 11, 13})
                for (int f : {0, 1, 2, 3, 4}) {
                    if (!mc::take()) continue;
                    Condensed<V>                   check{1, std::is_same_v<V, float> ? 1e-4 : 1e-9};
                    const auto                     w = weights(f, n - 1);
                    typename Condensed<V>::Edges e;
                    for (std::size_t i = 1; i < n; ++i) {
                        const std::size_t p = shape == 0 ? i - 1 : shape == 1 ? i / 2 : shape == 2 ? (i * 7 + 3) % i : (i > 3 ? i - 3 : 0);
                        const std::size_t m = n - 1;
                        std::size_t       rank = (i * mul + i * i / 3) % m;
                        e.push_back({i, p, static_cast<double>(rank)});
                    }
                    // make the ranks distinct, then map them to weights
                    std::vector<std::size_t> order(n - 1);
                    std::iota(order.begin(), order.end(), 0);
                    std::stable_sort(order.begin(), order.end(), [&](auto a, auto b) { return std::get<2>(e[a]) < std::get<2>(e[b]); });
                    for (std::size_t r = 0; r < order.size(); ++r) std::get<2>(e[order[r]]) = w[r];
                    check.run(e, n, {2, 3, 5, 8});
                }
}

// ---- end to end -----------------------------------------------------------------------------------------------------
template <typename T>
struct Hdbscan {
    std::vector<Config>    cs;
    std::vector<Embedding> es{{}};
    std::size_t            k_max = 4;

    // every dendrogram reachable by merging closest groups in any order of ties
    static void hierarchies(const std::vector<long>& d, std::size_t n, Dendrogram& dg, std::vector<int>& roots, const Embedding& e, std::set<std::vector<std::pair<int, int>>>& seen, const std::function<void(const Dendrogram&, int)>& f) {
        if (roots.size() == 1) return f(dg, roots[0]);
        auto gap = [&](int a, int b) {
            long best = -1;
            for (std::size_t i = 0; i < n; ++i)
                if (dg.mask[a] >> i & 1)
                    for (std::size_t j = 0; j < n; ++j)
                        if ((dg.mask[b] >> j & 1) && (best < 0 || d[i * n + j] < best)) best = d[i * n + j];
            return best;
        };
        long best = -1;
        std::vector<std::pair<std::size_t, std::size_t>> ties;
        for (std::size_t a = 0; a < roots.size(); ++a)
            for (std::size_t b = a + 1; b < roots.size(); ++b) {
                const long g = gap(roots[a], roots[b]);
                if (best < 0 || g < best) {
                    best = g;
                    ties.clear();
                }
                if (g == best) ties.push_back({a, b});
            }
        for (auto [a, b] : ties) {
            Dendrogram copy = dg;
            auto       r    = roots;
            const int  m    = copy.add(roots[a], roots[b], dist_of_key<T>(best, e));
            r.erase(r.begin() + b);
            r.erase(r.begin() + a);
            r.push_back(m);
            hierarchies(d, n, copy, r, e, seen, f);
        }
    }

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n = x.size() / dim;
        for (std::size_t k = 1; k <= std::min(n, k_max); ++k) {
            const auto d = pair_keys<T>(x, dim, k);
            for (const auto& e : es) {
                std::map<std::tuple<std::size_t, bool, bool>, std::set<Partition>> ok;
                Dendrogram       dg(n);
                std::vector<int> roots(n);
                std::iota(roots.begin(), roots.end(), 0);
                std::set<std::vector<std::pair<int, int>>> seen;
                hierarchies(d, n, dg, roots, e, seen, [&](const Dendrogram& h, int root) {
                    for (std::size_t mcs = 2; mcs <= 3; ++mcs)
                        for (int f = 0; f < 4; ++f) {
                            auto a = admissible(h, root, n, {mcs, bool(f & 1), bool(f & 2)}, 1e-4);
                            ok[{mcs, bool(f & 1), bool(f & 2)}].insert(a.begin(), a.end());
                        }
                });
                for (const auto& c : cs)
                    for (auto& [key, set] : ok) {
                        const Options o{std::get<0>(key), std::get<1>(key), std::get<2>(key)};
                        auto what = [&] { return "k=" + std::to_string(k) + " " + o.text() + " points " + show_points(x, dim) + e.text() + " tree " + c.text(); };
                        mc::guard("hdbscan", [&] {
                            auto    data = embed<T>(x, e);
                            Indices idx  = order;
                            using H      = ffcl::HDBSCAN<Tree<T>>;
                            typename H::Options opt;
                            opt.k_nearest_neighbors(k).min_cluster_size(o.mcs).return_leaf_nodes(o.leaves).allow_single_cluster(o.single);
                            H          h(opt);
                            const auto labels = h.predict(make_tree<T>(idx, data, dim, c, 5));
                            mc::exec();
                            mc::step();
                            const auto why = judge(labels, set, n);
                            if (!why.empty()) return mc::fail("hdbscan", why + "; labels " + mc::show(labels) + " " + what());
                            // options given later, and a model used again
                            H later;
                            idx = order;
                            const auto again = later.set_options(opt).predict(make_tree<T>(idx, data, dim, c, 5));
                            idx = order;
                            const auto third = h.predict(make_tree<T>(idx, data, dim, c, 5));
                            mc::exec(2);
                            mc::step(2);
                            const auto why2 = judge(again, set, n), why3 = judge(third, set, n);
                            if (!why2.empty()) return mc::fail("options", "with options set after construction " + why2 + "; labels " + mc::show(again) + " " + what());
                            if (!why3.empty()) return mc::fail("repeat", "at the second prediction " + why3 + "; labels " + mc::show(third) + " " + what());
                        }, what);
                    }
            }
        }
    }
};

// ---- any number of samples ------------------------------------------------------------------------------------------
// the reference of `select` without recursion and without sets, for edges of distinct weights; where stabilities tie the
// labels decide which of the admissible selections is meant
struct Hierarchy {
    using Edges = std::vector<std::tuple<std::size_t, std::size_t, double>>;
    std::size_t              n;
    std::vector<std::size_t> left, right, size, first, at;  // samples of a node: at[first], ..., at[first + size - 1]
    std::vector<double>      level;

    Hierarchy(Edges e, std::size_t n_)
      : n(n_) {
        std::sort(e.begin(), e.end(), [](auto& x, auto& y) { return std::get<2>(x) < std::get<2>(y); });
        const std::size_t none = 2 * n;
        left.assign(2 * n - 1, none);
        right = left;
        size.assign(2 * n - 1, 1);
        first.assign(2 * n - 1, 0);
        level.assign(2 * n - 1, 0);
        std::vector<std::size_t> up(2 * n - 1);
        std::iota(up.begin(), up.end(), 0);
        auto find = [&](std::size_t i) {
            while (up[i] != i) i = up[i] = up[up[i]];
            return i;
        };
        std::size_t next = n;
        for (auto& [a, b, w] : e) {
            left[next]  = find(a);
            right[next] = find(b);
            size[next]  = size[left[next]] + size[right[next]];
            level[next] = w;
            up[left[next]] = up[right[next]] = next;
            ++next;
        }
        std::vector<std::size_t> todo{2 * n - 2};
        while (!todo.empty()) {
            const auto i = todo.back();
            todo.pop_back();
            first[i] = at.size();
            if (left[i] == none) at.push_back(i);
            else {
                todo.push_back(right[i]);
                todo.push_back(left[i]);
            }
        }
    }
    bool is_sample(std::size_t i) const { return i < n; }

    template <typename L>
    std::string judge(const L& labels, const Options& o, double tie) const {
        if (labels.size() != n) return "there is not one label per sample";
        struct Cluster {
            std::size_t node;
            double      birth, own = 0, total = 0;
            std::size_t kids = 0;  // position of the first of two children
            bool        self = true;
        };
        std::vector<Cluster> cs{{2 * n - 2, 0.0}};
        for (std::size_t c = 0; c < cs.size(); ++c)
            for (auto cur = cs[c].node; !is_sample(cur);) {
                const double lambda = density(level[cur]);
                const bool   cl = size[left[cur]] >= o.mcs, cr = size[right[cur]] >= o.mcs;
                cs[c].own += (cl == cr ? size[cur] : size[cl ? right[cur] : left[cur]]) * (lambda - cs[c].birth);
                if (cl != cr) {
                    cur = cl ? left[cur] : right[cur];
                    continue;
                }
                if (cl) {
                    cs[c].kids = cs.size();
                    cs.push_back({left[cur], lambda});
                    cs.push_back({right[cur], lambda});
                }
                break;
            }
        auto whole = [&](std::size_t node) {
            for (std::size_t i = 0; i < size[node]; ++i)
                if (!labels[at[first[node] + i]] || labels[at[first[node] + i]] != labels[at[first[node]]]) return false;
            return true;
        };
        for (std::size_t c = cs.size(); c-- > 0;) {
            cs[c].total = cs[c].own;
            if (!cs[c].kids) continue;
            const double sum = cs[cs[c].kids].total + cs[cs[c].kids + 1].total, margin = tie * std::max(std::fabs(sum), std::fabs(cs[c].own));
            if (o.leaves || (c == 0 && !o.single) || sum > cs[c].own + margin) cs[c].self = false;
            else if (sum >= cs[c].own - margin) cs[c].self = whole(cs[c].node);
            if (!cs[c].self) cs[c].total = sum;
        }
        std::vector<std::size_t> todo{0}, want(n, 0);
        std::size_t              k = 0;
        while (!todo.empty()) {
            const auto& c = cs[todo.back()];
            todo.pop_back();
            if (!c.self) {
                todo.push_back(c.kids);
                todo.push_back(c.kids + 1);
                continue;
            }
            ++k;
            for (std::size_t i = 0; i < size[c.node]; ++i) want[at[first[c.node] + i]] = k;
        }
        std::vector<std::size_t> name(k + 1, 0), used(k + 1, 0);
        for (std::size_t i = 0; i < n; ++i) {
            if (labels[i] > k) return "cluster labels are not numbered consecutively from 1 (" + std::to_string(k) + " expected)";
            if (!labels[i] != !want[i]) return "sample " + std::to_string(i) + (want[i] ? " is noise but belongs to a cluster" : " has a label but belongs to no cluster") + " (" + std::to_string(k) + " clusters expected)";
            if (!want[i]) continue;
            if (!name[want[i]] && !used[labels[i]]) name[want[i]] = labels[i], used[labels[i]] = want[i];
            if (name[want[i]] != labels[i]) return "the clusters are not the most stable ones (" + std::to_string(k) + " expected)";
        }
        mc::outcome(mc::mix(k, want[n / 2]));
        return "";
    }
};
// a tree over n samples with distinct weights
inline Hierarchy::Edges chosen_edges(std::size_t n, int shape, std::size_t mul, int family) {
    Hierarchy::Edges e;
    for (std::size_t i = 1; i < n; ++i) {
        const std::size_t p = shape == 0 ? i - 1 : shape == 1 ? i / 2 : shape == 2 ? (i * 7 + 3) % i : (i > 3 ? i - 3 : 0);
        e.push_back({i, p, static_cast<double>(mul ? (i * mul + i * i / 3) % (n - 1) : i)});
    }
    std::vector<std::size_t> order(n - 1);
    std::iota(order.begin(), order.end(), 0);
    std::stable_sort(order.begin(), order.end(), [&](auto a, auto b) { return std::get<2>(e[a]) < std::get<2>(e[b]); });
    for (std::size_t r = 0; r < order.size(); ++r) {
        const double x = static_cast<double>(r);
        std::get<2>(e[order[r]]) = family == 0 ? x + 1 : family == 1 ? 10 + x : family == 2 ? (r < n / 2 ? 1 + 1e-3 * x : 1e5 + x) : std::pow(1 + 20.0 / n, x);
    }
    return e;
}
inline void long_hierarchies(const std::string& name, const std::vector<std::size_t>& sizes) {
    if (!mc::begin_space(name)) return;
    using SL = ds::SingleLinkageClusterTree<std::size_t, double>;
    using CT = ds::CondensedClusterTree<std::size_t, double>;
    for (auto n : sizes)
        for (int shape = 0; shape < 4; ++shape)
            for (std::size_t mul : {0, 3, 11})
                for (int family = 0; family < 4; ++family) {
                    if (!mc::take()) continue;
                    auto what = [&] { return "hierarchy of " + std::to_string(n) + " samples, shape " + std::to_string(shape) + " order " + std::to_string(mul) + " weights " + std::to_string(family); };
                    mc::sample(what);
                    mc::guard("condensed", [&] {
                        const auto                           e = chosen_edges(n, shape, mul, family);
                        typename SL::MinimumSpanningTreeType edges;
                        for (auto& [a, b, w] : e) edges.push_back({a, b, w});
                        SL              tree(edges);
                        const Hierarchy h(e, n);
                        for (std::size_t mcs : {2, 5, 40})
                            for (int f = 0; f < 4; ++f) {
                                const Options        o{mcs, bool(f & 1), bool(f & 2)};
                                typename CT::Options opt;
                                opt.min_cluster_size(mcs).return_leaf_nodes(o.leaves).allow_single_cluster(o.single);
                                CT         c(tree.root(), opt);
                                const auto labels = (f & 1) ? c.predict() : c.extract_flat_clusters();
                                mc::exec();
                                mc::step(n);
                                const auto why = h.judge(labels, o, 1e-8);
                                if (!why.empty()) return mc::fail("condensed", why + "; " + o.text() + " " + what());
                            }
                    }, what);
                }
}
// samples on a line with distinct gaps: the hierarchy is that of the gaps
inline void long_lines(const std::string& name, const std::vector<std::size_t>& sizes) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (std::size_t mul : {0, 3, 11})
            for (int f = 0; f < 4; ++f) {
                if (!mc::take()) continue;
                auto e = chosen_edges(n, 0, mul, 0);
                // sample i of the dataset is the one at position place(i) of the line
                std::size_t stride = 1;
                for (std::size_t s : {7919, 101, 13, 7, 3})
                    if (n % s) {
                        stride = s;
                        break;
                    }
                auto                place = [&](std::size_t i) { return i * stride % n; };
                std::vector<double> line{0}, data(n);
                for (auto& [a, b, w] : e) line.push_back(line.back() + w);
                std::vector<std::size_t> sample(n);
                for (std::size_t i = 0; i < n; ++i) data[i] = line[place(i)], sample[place(i)] = i;
                for (auto& [a, b, w] : e) a = sample[a], b = sample[b];
                for (std::size_t mcs : {2, 5, 40}) {
                    const Options o{mcs, bool(f & 1), bool(f & 2)};
                    auto          what = [&] { return "line of " + std::to_string(n) + " samples, order " + std::to_string(mul) + " " + o.text(); };
                    mc::guard("hdbscan", [&] {
                        const Hierarchy h(e, n);
                        Indices         idx = iota(n);
                        using H             = ffcl::HDBSCAN<Tree<double>>;
                        typename H::Options opt;
                        opt.k_nearest_neighbors(1).min_cluster_size(o.mcs).return_leaf_nodes(o.leaves).allow_single_cluster(o.single);
                        H          model(opt);
                        const auto labels = model.predict(make_tree<double>(idx, data, 1, configs({Cycle}, {5}, {kNoLimit})[0], 5));
                        mc::exec();
                        mc::step(n);
                        const auto why = h.judge(labels, o, 1e-8);
                        if (!why.empty()) mc::fail("hdbscan", why + "; " + what());
                    }, what);
                }
            }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const Embedding tiny{1.0 / (1 << 25), 1};
    paths<float>("shapes", 1, S ? 5 : 7, {0, 1, 2, 3, 4, 5}, 1, true);
    if (!S) paths<double>("shapes-scaled", 2, 7, {0, 1, 2, 3, 4}, 1e-9, true);
    if (!S) paths<double>("shapes-nearly-equal", 2, 6, {6}, 1, true);
    if (!S) paths<float>("shapes-small", 2, 6, {0, 2, 4}, 1e-8, true);
    if (!S) paths<float>("shapes-8", 8, T ? 11 : 10, {0, 1, 3}, 1, false);
    trees<float>("trees", 2, S ? 4 : T ? 7 : 6, {0, 1, 4}, 1);
    large<float>("large", S ? std::vector<std::size_t>{12} : std::vector<std::size_t>{12, 20, 33, 60, 100, 127});
    const auto cs = configs({Cycle}, {1, 3}, {kNoLimit});
    space::ordered("hdbscan-1d", 1, S ? 3 : 5, 1, S ? 4 : 4, Hdbscan<float>{cs});
    if (!S) space::ordered("hdbscan-2d", 2, 3, 1, T ? 5 : 4, Hdbscan<float>{cs});
    if (!S) space::multisets("hdbscan-1d-multisets", 1, 8, 5, T ? 7 : 6, Hdbscan<float>{configs({VarianceFull}, {1}, {kNoLimit})}, T);
    if (!S) space::multisets("hdbscan-2d-multisets", 2, 3, 5, T ? 7 : 6, Hdbscan<double>{configs({Cycle}, {2}, {kNoLimit}), {tiny, kFar}}, T);
    // distinct gaps on a line: the hierarchy is unique
    if (!S && mc::begin_space("hdbscan-line")) {
        for (std::size_t n : {6, 7, 8})
            gen::permutations(n - 1, [&](const std::vector<std::size_t>& p) {
                if (!mc::take()) return;
                std::vector<int> x{0};
                for (auto v : p) x.push_back(x.back() + 1 + static_cast<int>(v * v));
                Hdbscan<double> h{configs({Cycle}, {2}, {kNoLimit})};
                h.k_max = 1;
                h(x, 1, iota(n));
            });
    }
    // every size, with samples spread along one of many axes
    if (!S && mc::begin_space("hdbscan-sizes"))
        for (std::size_t n = 2; n <= 127; n += n < (T ? 70 : 36) ? 1 : 2 + n % 10)
            for (std::size_t dim : {1, 2, 3, 9})
                for (std::size_t step : {5, 7}) {
                    if (dim > 1 && n % 5 != dim % 5) continue;
                    if (!mc::take()) continue;
                    std::vector<int> x;
                    int              at = 0;
                    for (std::size_t i = 0; i < n; ++i) {
                        for (std::size_t f = 0; f < dim; ++f) x.push_back(f == dim / 2 ? at : 3);
                        at += 2 + static_cast<int>((i * step + (n % 2 ? i * i / 3 : 0)) % n * 7 + i % 7);
                    }
                    std::set<int> gaps;
                    for (std::size_t i = 1; i < n; ++i) gaps.insert(x[i * dim + dim / 2] - x[(i - 1) * dim + dim / 2]);
                    if (gaps.size() + 1 != n) continue;
                    Hdbscan<double> h{configs({Cycle}, {2, 5}, {kNoLimit})};
                    h.k_max = 1;
                    h(x, dim, iota(n));
                }
    if (!S) long_hierarchies("sizes", gen::every(2, T ? 300 : 130, 1025));
    if (!S) long_hierarchies("huge", {4097, gen::kHuge});
    if (!S) long_lines("hdbscan-lines", gen::every(2, T ? 200 : 70, T ? 2049 : 1025));
    return 0;
}
MC_MAIN
