// C06: Boruvka spanning trees of every small dataset against an independent minimum spanning tree.
#include "mst_oracle.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"

using namespace th;

template <typename T>
struct Check {
    std::vector<Config>    cs;
    std::vector<Embedding> es{{}};
    bool                   big = false;

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n = x.size() / dim;
        auto ks = big ? std::vector<std::size_t>{1, 2, 3, 5, 8} : upto(n);
        for (std::size_t k : ks) {
            const auto d = pair_keys<T>(x, dim, k);
            for (const auto& e : es)
                for (const auto& c : cs) {
                    auto what = [&] { return "k=" + std::to_string(k) + " points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text(); };
                    mc::guard("mst", [&] {
                        auto    data = embed<T>(x, e);
                        Indices idx  = order;
                        using Algorithm = ffcl::BoruvkasAlgorithm<Tree<T>>;
                        Algorithm algorithm(typename Algorithm::Options().k_nearest_neighbors(k));
                        auto      mst = algorithm.make_tree(make_tree<T>(idx, data, dim, c, 5));
                        mc::exec();
                        mc::step();
                        std::string why = judge_mst<T>(mst, d, n, e);
                        if (!why.empty()) return mc::fail(k > 1 ? "mutual-reachability" : "plain", why + "; " + what());
                        std::uint64_t h = n;
                        for (auto& ed : mst) h = mc::mix(h, std::get<0>(ed) * 64 + std::get<1>(ed));
                        mc::outcome(h);
                        // sorting keeps the edges and orders them by weight
                        const auto sorted = ffcl::datastruct::mst::sort_copy(mst);
                        auto       multi  = [](auto v) {
                            std::sort(v.begin(), v.end());
                            return v;
                        };
                        mc::step(2);
                        auto ascending = [](const auto& v) { return std::is_sorted(v.begin(), v.end(), [](auto& a, auto& b) { return std::get<2>(a) < std::get<2>(b); }); };
                        if (multi(sorted) != multi(mst) || !ascending(sorted)) return mc::fail("sort", "sort_copy loses or misorders edges; " + what());
                        auto copy   = mst;
                        auto sorted2 = ffcl::datastruct::mst::sort(std::move(copy));
                        if (multi(sorted2) != multi(mst) || !ascending(sorted2)) return mc::fail("sort", "sort loses or misorders edges; " + what());
                        if (k == 1 || !big) {
                            idx        = order;
                            Algorithm later;
                            later.set_options(typename Algorithm::Options().k_nearest_neighbors(k));
                            auto other = later.make_tree_2(make_tree<T>(idx, data, dim, c, 5));
                            mc::exec();
                            mc::step();
                            why = judge_mst<T>(other, d, n, e);
                            if (!why.empty()) return mc::fail(k > 1 ? "dual-tree-mutual-reachability" : "dual-tree", why + "; dual-tree variant " + what());
                        }
                    }, what);
                }
        }
    }
};

// lines: the minimum spanning tree links neighbours, its weights are the gaps
void line(std::size_t n, std::size_t step, bool dual, const Config& c) {
    auto what = [&] { return std::string(dual ? "dual-tree variant, " : "") + std::to_string(n) + " points of a line, position " + std::to_string(step) + " i mod n of uneven gaps, tree " + c.text(); };
    mc::sample(what);
    mc::guard("line", [&] {
        auto                at = [](std::size_t v) { return double(4 * v + v / 2 % 3 + (v % 7 == 0)); };
        std::vector<double> data, gaps, got;
        for (std::size_t i = 0; i < n; ++i) data.push_back(at(i * step % n));
        for (std::size_t v = 1; v < n; ++v) gaps.push_back(at(v) - at(v - 1));
        std::sort(gaps.begin(), gaps.end());
        Indices idx     = iota(n);
        using Algorithm = ffcl::BoruvkasAlgorithm<Tree<double>>;
        Algorithm algorithm(typename Algorithm::Options().k_nearest_neighbors(1));
        const auto mst = dual ? algorithm.make_tree_2(make_tree<double>(idx, data, 1, c, 5)) : algorithm.make_tree(make_tree<double>(idx, data, 1, c, 5));
        mc::exec();
        mc::step(n);
        if (mst.size() + 1 != n) return mc::fail("line", "the tree has " + std::to_string(mst.size()) + " edges; " + what());
        std::vector<std::size_t> parent = iota(n);
        auto root = [&](std::size_t i) {
            while (parent[i] != i) i = parent[i] = parent[parent[i]];
            return i;
        };
        for (const auto& [a, b, w] : mst) {
            if (a >= n || b >= n) return mc::fail("line", "an edge ends outside of the dataset; " + what());
            if (root(a) == root(b)) return mc::fail("line", "edge (" + std::to_string(a) + "," + std::to_string(b) + ") closes a cycle; " + what());
            parent[root(a)] = root(b);
            if (std::fabs(w - std::fabs(data[a] - data[b])) > 1e-9) return mc::fail("line", "edge (" + std::to_string(a) + "," + std::to_string(b) + ") has weight " + std::to_string(w) + "; " + what());
            got.push_back(std::fabs(data[a] - data[b]));
        }
        std::sort(got.begin(), got.end());
        mc::outcome(mc::mix(n, std::uint64_t(dual) * 1000 + step));
        if (got != gaps) mc::fail("line", "the tree is not minimal; " + what());
    }, what);
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const std::vector<std::size_t> N{kNoLimit};
    const Embedding                tiny{1.0 / (1 << 25), 1}, half{0.5, 1};
    space::ordered("ordered-1d", 1, 4, 1, S ? 3 : T ? 7 : 6, Check<float>{configs({Cycle}, {0, 1, 2}, {kNoLimit, 1})});
    space::ordered("ordered-2d", 2, 3, 1, S ? 2 : 4, Check<float>{configs({Cycle, VarianceFull}, {1, 2}, N)});
    space::ordered("ordered-2d-double", 2, 3, 1, S ? 2 : 3, Check<double>{configs({Cycle, Spread}, {1, 2}, N), {half, tiny, kFar}});
    space::ordered("ordered-2d-int", 2, 3, 1, S ? 2 : 3, Check<int>{configs({Cycle, Spread}, {1, 2}, N), {{1, 1}, kWide}});
    if (!S) space::multisets("multisets-2d", 2, 3, 5, T ? 8 : 7, Check<float>{configs({Cycle}, {1}, N)}, T);
    if (!S) space::multisets("multisets-1d", 1, 8, 6, T ? 9 : 8, Check<float>{configs({Cycle}, {1}, N)}, T);
    if (!S) space::multisets("multisets-2d-wide", 2, 4, 4, T ? 6 : 5, Check<float>{configs({Cycle}, {1}, N)}, T);
    if (!S) space::multisets("multisets-1d-int", 1, 7, 5, T ? 8 : 7, Check<int>{configs({Cycle}, {1}, N), {{1, 3}, kFar, kWide}}, T);
    Check<float>  lf{configs({Cycle, VarianceFull}, {1, 5, 40}, {kNoLimit})};
    Check<double> ld{configs({VarianceFull}, {2, 16}, {kNoLimit, 3}), {{0.25, 7}, kFar}};
    lf.big = ld.big = true;
    space::large("large-2d", 2, S ? std::vector<std::size_t>{9} : T ? std::vector<std::size_t>{10, 24, 50, 97, 200} : std::vector<std::size_t>{10, 24, 50}, {1, 2, 7}, {0, 1, 2}, {4, 11, 23, 97}, lf);
    if (S) return 0;
    space::large("large-1d", 1, {10, 24, 50}, {1, 2, 7}, {0, 1, 2}, {11, 97, 499}, lf);
    Check<float>  sf{configs({Cycle, VarianceFull}, {1, 7}, N)};
    Check<double> sd{configs({Cycle}, {1, 4}, N), {{0.25, 7}}};
    sf.big = sd.big = true;
    space::sizes("sizes-2d", 2, 1, T ? 131 : 130, sf);
    space::sizes("sizes-1d", 1, 1, T ? 130 : 130, sd);
    if (!S) space::big("big-2d", 2, T ? 2049 : 1025, sf);
    space::dims("dims", {4, 5, 7, 8, 9, 16, 17}, {3, 10, 31}, sf);
    if (mc::begin_space("lines"))
        for (std::size_t n : T ? std::vector<std::size_t>{2049, 4097, 9001, 20001} : std::vector<std::size_t>{2049, 4097, 6001})
            for (std::size_t step : {1, 37})
                for (bool dual : {false, true})
                    if (mc::take()) line(n, step, dual, {Cycle, 8, kNoLimit});
    if (mc::begin_space("huge"))
        for (std::size_t step : {1, 37, 25013})
            if (mc::take()) line(gen::kHuge, step, true, {Cycle, 8, kNoLimit});
    space::wide("wide", {40, 130, 300}, {3, 40}, sf);
    space::large("large-3d", 3, {10, 24, 50}, {1, 2}, {0, 1}, {4, 23}, ld);
    return 0;
}
MC_MAIN
