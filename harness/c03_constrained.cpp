// C03: searches that exclude visited samples or the query's own component, for every exclusion set and partition.
#include "spaces.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

using namespace th;
namespace fs  = ffcl::search;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;
using Visited = std::unordered_set<std::size_t>;
using UF      = ffcl::datastruct::UnionFind<std::size_t>;

template <typename T>
struct Check {
    std::vector<Config>    cs;
    std::vector<Embedding> es{{}};
    bool                   big = false, balls = true;

    using It    = typename Data<T>::iterator;
    using BallV = bnd::BallView<It>;

    std::vector<std::size_t> ks(std::size_t n) const { 
        auto r = n >= gen::kHuge ? std::vector<std::size_t>{1, 3} : big ? std::vector<std::size_t>{1, 3, n} : upto(n);
        r.push_back(0);
        return r;
    }

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n  = x.size() / dim;
        const int         hi = *std::max_element(x.begin(), x.end());
        auto              qs = big ? probes(x, dim, n < gen::kHuge ? 3 : 2) : grid(dim, -1, hi + 1, 2);
        if (!big)
            for (std::size_t i = 0; i < n; ++i) qs.emplace_back(x.begin() + i * dim, x.begin() + (i + 1) * dim);
        // exclusion masks
        std::vector<std::vector<char>> masks;
        if (big) {
            for (std::size_t step : n < gen::kHuge ? std::vector<std::size_t>{1, 2, 3, 5} : std::vector<std::size_t>{2, 5})
                for (std::size_t from : {std::size_t(0), n / 2}) {
                    std::vector<char> m(n, 0);
                    for (std::size_t i = from; i < n; i += step) m[i] = 1;
                    masks.push_back(m);
                }
        } else {
            for (unsigned b = 0; b < (1u << n); ++b) {
                std::vector<char> m(n, 0);
                for (std::size_t i = 0; i < n; ++i) m[i] = b >> i & 1;
                masks.push_back(m);
            }
        }
        std::vector<std::vector<int>> parts;
        if (big) {
            for (int g : n < gen::kHuge ? std::vector<int>{1, 2, 3, 7} : std::vector<int>{2, 3}) {
                std::vector<int> a(n), b(n);
                for (std::size_t i = 0; i < n; ++i) a[i] = i % g, b[i] = static_cast<int>(i * g / n);
                parts.push_back(a);
                parts.push_back(b);
            }
        } else {
            gen::partitions(n, [&](const std::vector<int>& p) { parts.push_back(p); });
        }
        for (const auto& e : es)
            for (const auto& c : cs) {
                auto    data = embed<T>(x, e);
                Indices idx  = order;
                auto    what = [&] { return "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text(); };
                mc::guard("constrained", [&] {
                    fs::Searcher searcher(make_tree<T>(idx, data, dim, c, 7));
                    mc::exec();
                    for (auto& q : qs) {
                        auto              qd = embed<T>(q, e);
                        std::vector<long> keys(n);
                        for (std::size_t i = 0; i < n; ++i) keys[i] = key<T>(q.data(), x.data() + i * dim, dim);
                        for (auto& m : masks) memory(searcher, m, qd, q, keys, order, e, what);
                        for (auto& p : parts) unionfind(searcher, p, qd, q, keys, order, e, what);
                    }
                }, what);
            }
    }
    template <typename B, typename W>
    void verdict(const B& b, const std::vector<long>& keys, const std::vector<char>& allowed, std::size_t k, const Embedding& e, const std::string& kind, const std::vector<int>& q, const std::string& excluded, W& what) const {
        const auto  got = entries(b);
        std::string why = judge<T>(got, keys, allowed, k, e);
        if (why.empty()) why = judge_extremes(b, got, e);
        mc::step();
        if (!why.empty())
            mc::fail(kind, why + "; " + kind + " " + excluded + " query " + mc::show(q) + " k=" + std::to_string(k) + " " + what());
        mc::outcome(hash_entries(got));
    }
    // one radius in the middle of the distances, at the boundary of none
    Radius<T> middle(const std::vector<long>& keys) const {
        auto v = keys;
        std::sort(v.begin(), v.end());
        const long m = v[v.size() / 2];
        if constexpr (std::is_floating_point_v<T>) return {std::sqrt(m + 0.5), 2 * m + 1};
        return {static_cast<double>(m + 1), 2 * m + 2};
    }
    template <typename S, typename W>
    void memory(S& searcher, const std::vector<char>& mask, Data<T>& qd, const std::vector<int>& q, const std::vector<long>& keys, const Indices& order, const Embedding& e, W& what) const {
        const std::size_t n = keys.size();
        Visited           visited;
        std::vector<char> allowed(n, 0), near(n, 0);
        for (auto i : order) allowed[i] = !mask[i];
        for (std::size_t i = 0; i < n; ++i)
            if (mask[i]) visited.insert(i);
        const auto r      = middle(keys);
        const T    radius = static_cast<T>(r.value * e.scale);
        for (std::size_t i = 0; i < n; ++i) near[i] = allowed[i] && 2 * keys[i] < r.twice_key;
        const std::string ex = "visited " + mc::show(mask);
        for (std::size_t k : ks(order.size())) {
            verdict(searcher(buf::WithMemory<It>(qd.begin(), qd.end(), visited, k)), keys, allowed, k, e, "visited-borrowed", q, ex, what);
            verdict(searcher(buf::WithMemory<It>(qd.begin(), qd.end(), visited.begin(), visited.end(), k)), keys, allowed, k, e, "visited-range", q, ex, what);
            verdict(searcher(buf::WithMemory<It>(qd.begin(), qd.end(), Visited(visited), k)), keys, allowed, k, e, "visited-moved", q, ex, what);
        }
        verdict(searcher(buf::WithMemory<It>(qd.begin(), qd.end(), visited)), keys, allowed, n, e, "visited-unlimited", q, ex, what);
        if (balls) {
            for (std::size_t k : {std::size_t(1), n}) {
                verdict(searcher(buf::WithMemory<It, BallV>(BallV(qd.begin(), qd.end(), radius), visited, k)), keys, near, k, e, "visited-borrowed-ball", q, ex, what);
                verdict(searcher(buf::WithMemory<It, BallV>(BallV(qd.begin(), qd.end(), radius), Visited(visited), k)), keys, near, k, e, "visited-moved-ball", q, ex, what);
                verdict(searcher(buf::WithMemory<It, BallV>(BallV(qd.begin(), qd.end(), radius), visited.begin(), visited.end(), k)), keys, near, k, e, "visited-range-ball", q, ex, what);
            }
        }
        if (visited.empty()) {
            verdict(searcher(buf::WithMemory<It>(qd.begin(), qd.end(), std::size_t(2))), keys, allowed, 2, e, "visited-none", q, ex, what);
        }
    }
    template <typename S, typename W>
    void unionfind(S& searcher, const std::vector<int>& part, Data<T>& qd, const std::vector<int>& q, const std::vector<long>& keys, const Indices& order, const Embedding& e, W& what) const {
        const std::size_t n = keys.size();
        const auto        r = middle(keys);
        for (int history = 0; history < 2; ++history) {
            UF uf(n);
            if (history == 0) {
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = i + 1; j < n; ++j)
                        if (part[i] == part[j]) {
                            uf.merge(i, j);
                            break;
                        }
            } else {
                std::map<int, std::size_t> first;
                for (std::size_t i = 0; i < n; ++i) first.emplace(part[i], i);
                for (std::size_t i = n; i-- > 0;)
                    if (first[part[i]] < i) uf.merge(i, first[part[i]]);
            }
            std::set<int> done;
            for (std::size_t rep = 0; rep < n; ++rep) {
                if (big && !done.insert(part[rep]).second) continue;
                std::vector<char> allowed(n, 0), near(n, 0);
                for (auto i : order) allowed[i] = part[i] != part[rep];
                for (std::size_t i = 0; i < n; ++i) near[i] = allowed[i] && 2 * keys[i] < r.twice_key;
                const std::string ex = "components " + mc::show(part) + " member " + std::to_string(rep);
                for (std::size_t k : ks(order.size())) {
                    verdict(searcher(buf::WithUnionFind<It>(qd.begin(), qd.end(), uf, rep, k)), keys, allowed, k, e, "components", q, ex, what);
                    if (balls) verdict(searcher(buf::WithUnionFind<It, BallV>(BallV(qd.begin(), qd.end(), static_cast<T>(r.value * e.scale)), uf, rep, k)), keys, near, k, e, "components-ball", q, ex, what);
                }
                verdict(searcher(buf::WithUnionFind<It>(qd.begin(), qd.end(), uf, rep)), keys, allowed, n, e, "components-unlimited", q, ex, what);
            }
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; j += n < gen::kHuge ? 1 : n / 8)
                    if ((uf.find(i) == uf.find(j)) != (part[i] == part[j])) return mc::fail("components-changed", "searching changed the partition; " + what());
        }
    }
};

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const std::vector<int>         P{Cycle, Spread, VarianceFull};
    const std::vector<std::size_t> D{kNoLimit, 0, 1, 2}, N{kNoLimit}, B{1, 2, 5, 16, 40};
    const Embedding                tiny{1.0 / (1 << 25), 1}, half{0.5, 1};
    space::ordered("ordered-1d", 1, 4, 1, S ? 2 : T ? 5 : 4, Check<float>{configs(P, {0, 1, 2}, {kNoLimit, 1})});
    space::ordered("ordered-2d", 2, 3, 1, S ? 2 : 3, Check<float>{configs(P, {1, 2}, N)});
    space::ordered("ordered-2d-scaled", 2, 3, 1, S ? 1 : T ? 3 : 2, Check<double>{configs(P, {1, 2}, D), {half, tiny, kFar}});
    space::ordered("ordered-2d-int", 2, 3, 1, S ? 1 : T ? 3 : 2, Check<int>{configs({Cycle, Spread}, {1, 2}, N), {{1, 0}, {1, 2}, kWide}});
    if (!S) space::ordered("ordered-1d-int", 1, 4, 1, 4, Check<int>{configs({Cycle}, {1, 2}, N), {{1, 2}}});
    space::subsets("subsets-1d", 1, 3, S ? 2 : T ? 4 : 3, Check<float>{configs({Cycle}, {1, 2}, N)});
    if (!S) space::subsets("subsets-2d", 2, 2, T ? 4 : 3, Check<float>{configs({Cycle}, {1, 2}, N)});
    if (!S) space::multisets("multisets-2d", 2, 3, 4, T ? 5 : 4, Check<float>{configs({Cycle, VarianceFull}, {1, 2}, N)}, T);
    Check<float>  lf{configs(P, S ? std::vector<std::size_t>{1} : B, N)};
    Check<double> ld{configs({Cycle, VarianceFull}, B, {kNoLimit, 3}), {{0.25, 7}, kFar}};
    Check<int>    li{configs({Cycle, Spread}, B, N), {{1, 5}, kFar, kWide}};
    lf.big = ld.big = li.big = true;
    space::large("large-2d", 2, S ? std::vector<std::size_t>{9} : std::vector<std::size_t>{11, 24, 50}, {1, 2}, {0, 1}, {4, 11, 23}, lf);
    if (S) return 0;
    space::large("large-3d", 3, {11, 24, 50}, {1, 2}, {0, 1}, {4, 23}, ld);
    Check<float>  sf{configs({Cycle, VarianceFull}, {1, 7}, N)};
    Check<double> sd{configs({Cycle}, {1, 4}, N), {{0.25, 7}}};
    sf.big = sd.big = true;
    space::sizes("sizes-2d", 2, 1, T ? 130 : 66, sf);
    space::sizes("sizes-1d", 1, 1, T ? 130 : 66, sd);
    Check<double> bd{configs({Cycle, VarianceFull}, {1, 7}, N)};
    bd.big = true;
    if (!S) space::big("big-2d", 2, T ? 2049 : 1025, bd);
    Check<double> hd{configs({Cycle}, {40}, N)};
    hd.big = true;
    space::huge("huge", 1, hd);
    space::dims("dims", {4, 5, 7, 8, 9, 16, 17}, {3, 10, 31}, sf);
    space::wide("wide", {40, 130, 300}, {3, 40}, bd);
    space::large("large-2d-int", 2, {11, 24, 50}, {1, 3}, {0, 1}, {4, 23}, li);
    return 0;
}
MC_MAIN
