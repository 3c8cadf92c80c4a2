// C05: shortest edge between two sample sets: dual-tree traversal and the set-to-set searches, against all pairs.
#include "rng_control.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "spaces.hpp"
#include "ffcl/datastruct/UnionFind.hpp"

using namespace th;
namespace fs  = ffcl::search;
namespace alg = ffcl::search::algorithms;
using UF      = ffcl::datastruct::UnionFind<std::size_t>;
using Visited = std::unordered_set<std::size_t>;

inline UF make_uf(const std::vector<int>& part) {
    UF uf(part.size());
    for (std::size_t i = 0; i < part.size(); ++i)
        for (std::size_t j = i + 1; j < part.size(); ++j)
            if (part[i] == part[j]) {
                uf.merge(i, j);
                break;
            }
    return uf;
}

template <typename T>
struct Check {
    std::vector<std::pair<Config, Config>> cs;
    std::vector<Embedding>                 es{{}};
    bool                                   big   = false;
    bool                                   apart = false;  // the queries and the references are two data sets, both numbered from 0

    // queries, references, components (empty: no partition)
    struct Case {
        Indices          q, r;
        std::vector<int> part;
        std::size_t      rep = 0;
        std::size_t      off = 0;  // two data sets: the references are the points from this one on, numbered from 0
        Visited          out{};    // references that are left out
    };
    template <typename E, typename W>
    void verdict(const E& edge, const std::vector<int>& x, std::size_t dim, const Case& s, std::size_t k, bool positive, const Embedding& e, const std::string& kind, W& what) const {
        const auto        a = std::get<0>(edge), b = std::get<1>(edge);
        std::vector<long> all;
        for (auto i : s.q)
            for (auto j : s.r) {
                if (!s.part.empty() && s.part[j] == s.part[s.rep]) continue;
                if (s.out.count(j)) continue;
                const long d = key<T>(x.data() + i * dim, x.data() + (s.off + j) * dim, dim);
                if (!positive || d) all.push_back(d);
            }
        std::sort(all.begin(), all.end());
        mc::step();
        std::string left_out;
        for (auto j : s.out) left_out += " " + std::to_string(j);
        auto bad = [&](const std::string& why) {
            mc::fail(kind, why + "; " + kind + " k=" + std::to_string(k) + " returned (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(static_cast<double>(std::get<2>(edge))) + ") queries " + mc::show(s.q) + " references " + mc::show(s.r) + (s.off ? " of the data set from point " + std::to_string(s.off) + " on" : "") +
                               (s.part.empty() ? "" : " components " + mc::show(s.part) + " member " + std::to_string(s.rep)) + (s.out.empty() ? "" : " left out" + left_out) + " " + what());
        };
        if (all.empty() || !k) {  // nothing to return: the edge of unbounded length
            const auto none = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
            if (std::get<2>(edge) != none) bad("no edge was asked for or permitted, but the length is bounded");
            return;
        }
        if (std::find(s.q.begin(), s.q.end(), a) == s.q.end()) return bad("the first end is not a query sample");
        if (std::find(s.r.begin(), s.r.end(), b) == s.r.end()) return bad("the second end is not a reference sample");
        if (s.out.count(b)) return bad("the second end was left out");
        if (!s.part.empty() && s.part[a] == s.part[b]) return bad("the edge stays inside one component");
        const long d = key<T>(x.data() + a * dim, x.data() + (s.off + b) * dim, dim);
        if (!same<T>(static_cast<double>(std::get<2>(edge)), dist_of_key<T>(d, e), e)) return bad("the length is not the distance of the end points");
        if (d != all[std::min(k, all.size()) - 1]) return bad("a shorter edge exists (or the edge is not the k-th shortest): expected " + std::to_string(dist_of_key<T>(all[std::min(k, all.size()) - 1], e)));
        mc::outcome(mc::mix(mc::mix(a, b), d));
    }

    // some references are left out: every subset of them, or a few when they are many; the set is lent or given away
    template <typename S, typename Q, typename W>
    void leave_out(const S& searcher, const Q& qt, const std::vector<int>& x, std::size_t dim, const Case& plain_case, const Embedding& e, W& what) const {
        const std::size_t m = plain_case.r.size();
        const unsigned    n_masks = m < 7 ? 1u << m : 5;
        for (unsigned mask = 0; mask < n_masks; ++mask) {
            Case s = plain_case;
            for (std::size_t i = 0; i < m; ++i)
                if (m < 7 ? mask >> i & 1 : mask == 4 || (mask && i % (mask + 1) == 0)) s.out.insert(s.r[i]);
            for (std::size_t k = m < 4 ? 0 : 1; k <= (m < 4 ? 2 : 1); ++k) verdict(searcher.dual_tree_shortest_edge(qt, s.out, k), x, dim, s, k, false, e, "dual-tree-left-out", what);
            verdict(searcher.dual_tree_shortest_edge(qt, Visited(s.out), std::size_t(1)), x, dim, s, 1, false, e, "dual-tree-left-out-given", what);
        }
    }

    void run(const std::vector<int>& x, std::size_t dim, const Case& s) const {
        for (const auto& e : es) {
            auto data = embed<T>(x, e), data2 = data;
            if (s.off) {
                data2.erase(data2.begin(), data2.begin() + s.off * dim);
                data.resize(s.off * dim);
            }
            const std::size_t k_max = big ? 1 : s.off ? s.q.size() * s.r.size() + 1 : 3;
            auto plain = [&] { return "points " + show_points(x, dim) + e.text(); };
            for (const auto& [cq, cr] : cs) {
                auto what = [&] { return plain() + " query tree " + cq.text() + " reference tree " + cr.text(); };
                mc::guard("dual-tree", [&] {
                    Indices qi = s.q, ri = s.r;
                    auto    qt = make_tree<T>(qi, data, dim, cq, 7);
                    fs::Searcher searcher(make_tree<T>(ri, data2, dim, cr, 5));
                    mc::exec();
                    if (s.part.empty()) {
                        for (std::size_t k = 0; k <= k_max; ++k) verdict(searcher.dual_tree_shortest_edge(qt, k), x, dim, s, k, false, e, "dual-tree", what);
                        verdict(searcher.dual_tree_shortest_edge(make_tree<T>(qi, data, dim, cq, 7), std::size_t(1)), x, dim, s, 1, false, e, "dual-tree-moved", what);
                        if (&cq == &cs.front().first || (big && &cq == &cs.back().first)) leave_out(searcher, qt, x, dim, s, e, what);
                    } else {
                        UF uf = make_uf(s.part);
                        for (std::size_t k = 1; k <= (big ? 1 : 2); ++k) verdict(searcher.dual_tree_shortest_edge(qt, uf, s.rep, k), x, dim, s, k, false, e, "dual-tree-components", what);
                        verdict(searcher.dual_tree_shortest_edge_with_core_distances(qt, uf, s.rep, std::size_t(1)), x, dim, s, 1, false, e, "dual-tree-components-2", what);
                    }
                }, what);
            }
            mc::guard("dual-set", [&] {
                Indices qi = s.q, ri = s.r;
                mc::exec();
                mcrng::rng().reset_fixed(2);
                if (s.part.empty()) {
                    for (std::size_t k = 0; k <= k_max; ++k)
                        verdict(alg::dual_set_shortest_edge(qi.begin(), qi.end(), data.begin(), data.end(), dim, ri.begin(), ri.end(), data2.begin(), data2.end(), dim, std::size_t(k)), x, dim, s, k, false, e, "dual-set", plain);
                    const auto d = alg::dual_set_shortest_distance(qi.begin(), qi.end(), data.begin(), data.end(), dim, ri.begin(), ri.end(), data2.begin(), data2.end(), dim, std::size_t(1));
                    long       best = -1, pos = -1;
                    for (auto i : s.q)
                        for (auto j : s.r) {
                            const long v = key<T>(x.data() + i * dim, x.data() + (s.off + j) * dim, dim);
                            if (best < 0 || v < best) best = v;
                            if (v && (pos < 0 || v < pos)) pos = v;
                        }
                    if (!same<T>(d, dist_of_key<T>(best, e), e)) mc::fail("dual-set-distance", "dual_set_shortest_distance is " + std::to_string(static_cast<double>(d)) + " queries " + mc::show(s.q) + " references " + mc::show(s.r) + " " + plain());
                    verdict(alg::simple_dual_set_shortest_edge(qi.begin(), qi.end(), data.begin(), data.end(), dim, ri.begin(), ri.end(), data2.begin(), data2.end(), dim), x, dim, s, 1, true, e, "simple-dual-set", plain);
                } else {
                    UF uf = make_uf(s.part);
                    verdict(alg::dual_set_shortest_edge(qi.begin(), qi.end(), data.begin(), data.end(), dim, ri.begin(), ri.end(), data2.begin(), data2.end(), dim, uf, s.rep, std::size_t(1)), x, dim, s, 1, false, e, "dual-set-components", plain);
                    verdict(alg::sequential_dual_set_shortest_edge(qi.begin(), qi.end(), data.begin(), data.end(), dim, ri.begin(), ri.end(), data2.begin(), data2.end(), dim, uf, s.rep), x, dim, s, 1, false, e, "sequential-dual-set", plain);
                }
            }, plain);
        }
    }

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n = x.size() / dim;
        if (n < 2) return;
        if (apart) {
            for (std::size_t off = 1; off < n; ++off) {
                Case s;
                s.off = off;
                s.q   = iota(off);
                s.r   = iota(n - off);
                run(x, dim, s);
                std::reverse(s.r.begin(), s.r.end());
                run(x, dim, s);
            }
            return;
        }
        auto with_parts = [&](const std::vector<int>& part) {
            std::set<int> seen;
            for (std::size_t rep = 0; rep < n; ++rep) {
                if (!seen.insert(part[rep]).second) continue;
                Case s{{}, order, part, rep, 0};
                for (auto i : order)
                    if (part[i] == part[rep]) s.q.push_back(i);
                run(x, dim, s);  // references: everything; queries: the component
            }
        };
        if (big) {
            for (int how = 0; how < 4; ++how) {
                Case s;
                for (auto i : order)
                    (how == 0 ? i % 2 == 0 : how == 1 ? i < n / 3 : how == 2 ? i % 5 == 1 : x[i * dim] < x[0] + 1) ? s.q.push_back(i) : s.r.push_back(i);
                if (s.q.empty() || s.r.empty()) continue;
                run(x, dim, s);
            }
            for (int g : {2, 3, 7}) {
                std::vector<int> a(n), b(n);
                for (std::size_t i = 0; i < n; ++i) a[i] = i % g, b[i] = i * g / n;
                with_parts(a);
                with_parts(b);
            }
            return;
        }
        for (unsigned m = 1; m < (1u << n); ++m) {
            Case s;
            for (auto i : order) (m >> i & 1 ? s.q : s.r).push_back(i);
            if (!s.r.empty()) run(x, dim, s);
            s.r = order;
            if (m % 3 == 1) run(x, dim, s);  // overlapping sets
        }
        gen::partitions(n, with_parts);
    }
};

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    auto pairs = [](std::vector<Config> a, std::vector<Config> b) {
        std::vector<std::pair<Config, Config>> r;
        for (auto& i : a)
            for (auto& j : b) r.push_back({i, j});
        return r;
    };
    const std::vector<std::size_t> N{kNoLimit};
    const auto small = pairs(configs({Cycle}, {0, 1, 2}, {kNoLimit}), configs({Cycle}, {0, 1, 2}, {kNoLimit}));
    const auto pol   = pairs(configs({Cycle, Spread, VarianceFull}, {1}, N), configs({Cycle, VarianceFull}, {1, 2}, {kNoLimit, 1}));
    const Embedding tiny{1.0 / (1 << 25), 1}, half{0.5, 1};
    space::ordered("ordered-1d", 1, 4, 2, S ? 3 : T ? 6 : 5, Check<float>{small});
    space::ordered("ordered-2d", 2, 3, 2, S ? 2 : T ? 4 : 3, Check<float>{pol});
    space::ordered("ordered-2d-double", 2, 3, 2, S ? 2 : 3, Check<double>{small, {half, tiny, kFar}});
    space::ordered("ordered-2d-int", 2, 3, 2, S ? 2 : 3, Check<int>{small, {{1, 1}, kWide}});
    space::multisets("multisets-2d", 2, 3, S ? 3 : 4, S ? 3 : T ? 5 : 4, Check<float>{small}, false);
    if (!S) space::multisets("multisets-1d", 1, 6, 6, T ? 7 : 6, Check<float>{pairs(configs({Cycle}, {1}, N), configs({Cycle}, {1, 2}, N))}, T);
    if (!S) space::multisets("multisets-1d-int", 1, 5, 5, 5, Check<int>{pairs(configs({Cycle}, {1}, N), configs({Cycle}, {1, 2}, N))}, T);
    Check<float>  af{small, {{}}, false, true};
    Check<double> ad{pairs(configs({Cycle, VarianceFull}, {1}, N), configs({Cycle}, {1, 2}, N)), {half, kFar}, false, true};
    Check<int>    ai{small, {{1, 1}}, false, true};
    space::ordered("two-sets-1d", 1, S ? 4 : 5, 2, S ? 3 : T ? 6 : 5, af);
    if (!S) space::ordered("two-sets-2d", 2, 3, 2, T ? 4 : 3, ad);
    if (!S) space::ordered("two-sets-1d-int", 1, 5, 2, T ? 5 : 4, ai);
    if (!S) space::multisets("two-sets-2d-multisets", 2, 3, 4, T ? 6 : 5, Check<float>{pairs(configs({Cycle}, {1}, N), configs({Cycle}, {1, 2}, N)), {{}}, false, true});
    const std::vector<std::size_t> B = T ? std::vector<std::size_t>{1, 3, 8} : std::vector<std::size_t>{1, 5};
    const auto lc = pairs(configs({Cycle, VarianceFull}, B, N), configs({Spread, VarianceFull}, B, N));
    Check<float>  lf{S ? small : lc};
    Check<double> ld{lc, {{0.25, 7}, kFar}};
    Check<int>    li{lc, {{1, 5}, kFar, kWide}};
    lf.big = ld.big = li.big = true;
    space::large("large-2d", 2, S ? std::vector<std::size_t>{11} : T ? std::vector<std::size_t>{11, 24, 50, 97, 200} : std::vector<std::size_t>{11, 24, 50, 97}, {1, 2, 7}, {0, 1, 2}, S ? std::vector<int>{23} : std::vector<int>{4, 11, 23, 97, 499}, lf);
    if (S) return 0;
    space::large("large-1d", 1, {11, 24, 50}, {1, 2, 7}, {0, 1}, {11, 97, 499}, lf);
    space::large("large-3d", 3, {11, 24, 50}, {1, 2}, {0, 1}, {4, 23, 97}, ld);
    Check<float>  sf{pairs(configs({Cycle}, {1, 7}, N), configs({VarianceFull}, {1, 7}, N))};
    Check<double> sd{pairs(configs({Cycle}, {1}, N), configs({Cycle}, {1, 4}, N)), {{0.25, 7}}};
    sf.big = sd.big = true;
    space::sizes("sizes-2d", 2, 2, T ? 130 : 70, sf);
    space::sizes("sizes-1d", 1, 2, T ? 130 : 90, sd);
    if (!S) space::big("big-2d", 2, T ? 1025 : 513, sf);
    space::dims("dims", {4, 5, 7, 8, 9, 16, 17}, {3, 10, 31}, sf);
    space::wide("wide", {40, 130, 300}, {3, 40}, sf);
    space::large("large-2d-int", 2, {11, 24, 50}, {1, 3}, {0, 1}, {4, 23, 97}, li);
    return 0;
}
MC_MAIN
