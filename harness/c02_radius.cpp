// C02: region search (ball, box) on every small dataset with every tree configuration, against exhaustive membership.
#include "spaces.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"

using namespace th;
namespace fs  = ffcl::search;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;

template <typename T>
struct Check {
    std::vector<Config>    cs;
    std::vector<Embedding> es{{}};
    bool                   big = false, boxes = true;

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n    = x.size() / dim;
        const int         hi   = *std::max_element(x.begin(), x.end());
        const auto        qs   = big ? probes(x, dim, 5) : grid(dim, -1, hi + 1);
        for (const auto& e : es)
            for (const auto& c : cs) {
                auto    data = embed<T>(x, e);
                Indices idx  = order;
                auto    what = [&] { return "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text(); };
                mc::guard("radius", [&] {
                    fs::Searcher searcher(make_tree<T>(idx, data, dim, c, 7));
                    mc::exec();
                    for (auto& q : qs) ball(searcher, x, dim, order, n, q, e, what);
                    if (boxes) box_queries(searcher, x, dim, order, n, e, what);
                }, what);
            }
    }
    template <typename S, typename W>
    void ball(S& searcher, const std::vector<int>& x, std::size_t dim, const Indices& order, std::size_t n, const std::vector<int>& q, const Embedding& e, W& what) const {
        auto              qd = embed<T>(q, e);
        std::vector<long> keys(n);
        std::vector<long> indexed;
        for (std::size_t i = 0; i < n; ++i) keys[i] = key<T>(q.data(), x.data() + i * dim, dim);
        for (auto i : order) indexed.push_back(keys[i]);
        for (const auto& r : radii<T>(indexed, big ? 4 : 64)) {
            const T           radius = static_cast<T>(r.value * e.scale);
            std::vector<char> allowed(n, 0);
            std::size_t       inside = 0;
            for (auto i : order)
                if (2 * keys[i] < r.twice_key) allowed[i] = 1, ++inside;
            auto verdict = [&](const auto& b, std::size_t k, const char* kind) {
                const auto  got = entries(b);
                std::string why = judge<T>(got, keys, allowed, k, e);
                if (why.empty()) why = judge_extremes(b, got, e);
                mc::step();
                if (!why.empty())
                    mc::fail("radius", why + "; " + kind + " centre " + mc::show(q) + " radius " + std::to_string(r.value) + (k >= n ? "" : " k=" + std::to_string(k)) + " " + what());
                mc::outcome(hash_entries(got));
            };
            verdict(searcher(buf::Unsorted(bnd::BallView(qd.begin(), qd.end(), radius))), n, "ball view");
            using Owned = bnd::Ball<T>;
            verdict(searcher(buf::Unsorted(Owned(typename Owned::CentroidType(qd), radius))), n, "ball");
            for (std::size_t k : {std::size_t(1), std::size_t(2), inside, inside + 2})
                if (k) verdict(searcher(buf::Unsorted(bnd::BallView(qd.begin(), qd.end(), radius), k)), k, "ball view");
        }
        // unbounded search without a capacity returns every indexed sample
        std::vector<char> all(n, 0);
        for (auto i : order) all[i] = 1;
        auto        b   = searcher(buf::Unsorted(qd.begin(), qd.end()));
        const auto  got = entries(b);
        std::string why = judge<T>(got, keys, all, n, e);
        mc::step();
        if (!why.empty()) mc::fail("unbounded", why + "; unbounded search at " + mc::show(q) + " " + what());
    }
    template <typename S, typename W>
    void box_queries(S& searcher, const std::vector<int>& x, std::size_t dim, const Indices& order, std::size_t n, const Embedding& e, W& what) const {
        using Segment = bnd::segment::LowerBoundAndUpperBound<T>;
        using Box     = bnd::AABBWithCentroid<Segment>;
        const int  hi = *std::max_element(x.begin(), x.end()) + 1;
        std::vector<std::vector<int>> corners;
        if (dim > 4)  // the diagonal only
            for (int v : {-1, hi / 2, hi - 1, hi}) corners.emplace_back(dim, v);
        else
            corners = big ? grid(dim, -1, hi, std::max(1, hi)) : grid(dim, -1, hi);
        for (auto& lo : corners)
            for (auto& up : corners) {
                bool valid = true;
                for (std::size_t d = 0; d < dim; ++d) valid &= lo[d] <= up[d] && (up[d] - lo[d]) % 2 == 0;
                if (!valid) continue;
                auto                 l = embed<T>(lo, e), u = embed<T>(up, e);
                std::vector<Segment> segments;
                std::vector<int>     centre2;
                for (std::size_t d = 0; d < dim; ++d) segments.emplace_back(l[d], u[d]), centre2.push_back((lo[d] + up[d]) / 2);
                std::vector<long> keys(n);
                std::vector<char> allowed(n, 0);
                for (std::size_t i = 0; i < n; ++i) keys[i] = key<T>(centre2.data(), x.data() + i * dim, dim);
                for (auto i : order) {
                    bool in = true;
                    for (std::size_t d = 0; d < dim; ++d) in &= lo[d] <= x[i * dim + d] && x[i * dim + d] <= up[d];
                    allowed[i] = in;
                }
                for (std::size_t k : {n, std::size_t(1)}) {
                    Box  box{typename Box::SegmentsType(segments)};
                    auto b = k == n ? searcher(buf::Unsorted(std::move(box))) : searcher(buf::Unsorted(std::move(box), k));
                    const auto  got = entries(b);
                    std::string why = judge<T>(got, keys, allowed, k, e);
                    mc::step();
                    if (!why.empty()) mc::fail("box", why + "; box " + mc::show(lo) + ".." + mc::show(up) + " k=" + std::to_string(k) + " " + what());
                }
            }
    }
};

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const std::vector<int>         P{Cycle, Spread, VarianceFull};
    const std::vector<std::size_t> D{kNoLimit, 0, 1, 2}, N{kNoLimit}, B{1, 2, 3, 5, 8, 16, 40};
    const Embedding                tiny{1.0 / (1 << 25), 1}, half{0.5, 1}, huge{1024, 3};
    space::ordered("ordered-1d", 1, 4, 1, S ? 3 : T ? 6 : 5, Check<float>{configs(P, {0, 1, 2}, D)});
    space::ordered("ordered-2d", 2, 3, 1, S ? 2 : 3, Check<float>{configs(P, {0, 1, 2}, {kNoLimit, 1})});
    space::ordered("ordered-2d-scaled", 2, 3, 1, S ? 2 : T ? 3 : 2, Check<double>{configs(P, {1, 2}, D), {half, huge, tiny, kFar}});
    space::ordered("ordered-1d-scaled", 1, 4, 1, S ? 3 : 4, Check<float>{configs({Cycle}, {1, 2}, D), {half, huge, tiny, kFarFloat}});
    space::ordered("ordered-2d-int", 2, 3, 1, S ? 2 : T ? 4 : 3, Check<int>{configs({Cycle, Spread}, {0, 1, 2}, N), {{1, 0}, {1, 2}, kFar, kWide}});
    space::ordered("ordered-1d-int", 1, 4, 1, S ? 3 : 5, Check<int>{configs({Cycle}, {0, 1, 2}, N), {{1, 0}, {1, 2}, kFar, kWide, {1, 1 << 30}}});
    space::subsets("subsets-2d", 2, S ? 2 : 3, S ? 2 : T ? 4 : 3, Check<float>{configs({Cycle}, {1, 2}, N)});
    if (!S) space::multisets("multisets-2d", 2, 3, 4, T ? 6 : 5, Check<float>{configs({Cycle, VarianceFull}, {1, 2}, N)}, T);
    if (!S) space::multisets("multisets-3d", 3, 2, 3, T ? 5 : 4, Check<double>{configs({Cycle, Spread}, {1, 2}, N)}, T);
    Check<float>  lf{configs({Cycle, Spread, VarianceFull}, S ? std::vector<std::size_t>{1, 3} : B, N)};
    Check<double> ld{configs({Cycle, VarianceFull}, B, {kNoLimit, 3}), {{0.25, 7}, kFar}};
    Check<int>    li{configs({Cycle, Spread}, B, N), {{1, 5}, kFar, kWide}};
    lf.big = ld.big = li.big = true;
    space::large("large-2d", 2, S ? std::vector<std::size_t>{11} : std::vector<std::size_t>{11, 24, 50}, {1, 2, 3}, {0, 1, 2}, {4, 7, 11, 23}, lf);
    if (S) return 0;
    space::large("large-3d", 3, {11, 24, 50}, {1, 2}, {0, 1}, {4, 7, 23}, ld);
    Check<float>  sf{configs({Cycle, VarianceFull}, {1, 7}, N)};
    Check<double> sd{configs({Cycle}, {1, 4}, N), {{0.25, 7}}};
    sf.big = sd.big = true;
    space::sizes("sizes-2d", 2, 1, T ? 200 : 90, sf);
    space::sizes("sizes-1d", 1, 1, T ? 200 : 130, sd);
    Check<double> bd{configs({Cycle, VarianceFull}, {1, 7}, N)};
    bd.big = true;
    if (!S) space::big("big-2d", 2, T ? 4097 : 1025, bd);
    Check<double> hd{configs({Cycle, VarianceFull}, {40}, N)};
    hd.big = true;
    space::huge("huge", 1, hd);
    space::huge("huge-2d", 2, hd);
    space::dims("dims", {4, 5, 7, 8, 9, 16, 17}, {3, 10, 31}, sf);
    space::wide("wide", {40, 130, 300}, {3, 40}, bd);
    space::large("large-2d-int", 2, {11, 24, 50}, {1, 2, 3}, {0, 1}, {4, 7, 23}, li);
    return 0;
}
MC_MAIN
