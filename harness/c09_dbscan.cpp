// C09: DBSCAN labels against the core / border / noise definition, for every small dataset, radius, minimum neighbour
// count and tree configuration.
#include "trees.hpp"

#include "spaces.hpp"

#include "ffcl/dbscan/DBSCAN.hpp"

using namespace th;

struct Reference {
    std::size_t                    n;
    std::vector<std::vector<char>> near;
    std::vector<char>              core;
    std::vector<int>               comp;  // component of core samples, -1 otherwise
    int                            comps = 0;

    Reference(const std::vector<long>& keys, std::size_t n_, long twice, std::size_t min_samples)
      : n(n_)
      , near(n, std::vector<char>(n, 0))
      , core(n, 0)
      , comp(n, -1) {
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t c = 0;
            for (std::size_t j = 0; j < n; ++j) {
                near[i][j] = 2 * keys[i * n + j] < twice;
                c += near[i][j];
            }
            core[i] = c > min_samples;
        }
        for (std::size_t s = 0; s < n; ++s) {
            if (!core[s] || comp[s] >= 0) continue;
            std::vector<std::size_t> todo{s};
            comp[s] = comps;
            while (!todo.empty()) {
                auto u = todo.back();
                todo.pop_back();
                for (std::size_t v = 0; v < n; ++v)
                    if (core[v] && comp[v] < 0 && near[u][v]) {
                        comp[v] = comps;
                        todo.push_back(v);
                    }
            }
            ++comps;
        }
    }

    template <typename L>
    std::string judge(const L& labels) const {
        if (labels.size() != n) return "there is not one label per sample";
        std::map<std::size_t, int> of_label;
        std::vector<std::size_t>   of_comp(comps, 0);
        for (std::size_t i = 0; i < n; ++i) {
            if (labels[i] > static_cast<std::size_t>(comps)) return "labels are not numbered consecutively from 1";
            if (!core[i]) continue;
            if (!labels[i]) return "sample " + std::to_string(i) + " has enough neighbours but is labelled noise";
            auto [it, fresh] = of_label.emplace(labels[i], comp[i]);
            if (it->second != comp[i]) return "unconnected dense samples share label " + std::to_string(labels[i]);
            if (of_comp[comp[i]] && of_comp[comp[i]] != labels[i]) return "connected dense samples carry different labels";
            of_comp[comp[i]] = labels[i];
        }
        for (std::size_t i = 0; i < n; ++i) {
            if (core[i]) continue;
            bool any = false, match = false;
            for (std::size_t j = 0; j < n; ++j)
                if (core[j] && near[i][j]) any = true, match |= labels[j] == labels[i];
            if (any && !match) return "sample " + std::to_string(i) + " is near a dense sample but carries none of their labels";
            if (!any && labels[i]) return "sample " + std::to_string(i) + " is near no dense sample but is not noise";
        }
        std::uint64_t h = n;
        for (auto l : labels) h = mc::mix(h, l);
        mc::outcome(h);
        return "";
    }
};

template <typename T>
struct Check {
    std::vector<Config>    cs;
    std::vector<Embedding> es{{}};
    std::size_t            radius_cap = 64;
    std::vector<std::size_t> min_samples{};  // empty: 0..n

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n = x.size() / dim;
        std::vector<long> keys(n * n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) keys[i * n + j] = key<T>(&x[i * dim], &x[j * dim], dim);
        auto ms = min_samples;
        if (ms.empty())
            for (std::size_t m = 0; m <= n; ++m) ms.push_back(m);
        for (const auto& r : radii<T>(keys, radius_cap))
            for (auto m : ms) {
                const Reference ref(keys, n, r.twice_key, m);
                for (const auto& e : es)
                    for (const auto& c : cs) {
                        auto what = [&] {
                            return "radius " + std::to_string(r.value) + " min_samples " + std::to_string(m) + " points " + show_points(x, dim) + e.text() + " index " + mc::show(order) + " tree " + c.text();
                        };
                        mc::guard("labels", [&] {
                            auto    data = embed<T>(x, e);
                            Indices idx  = order;
                            using D      = ffcl::DBSCAN<Tree<T>>;
                            typename D::Options opt;
                            opt.min_samples(m).radius(static_cast<T>(r.value * e.scale));
                            D d(opt);
                            const auto labels = d.predict(make_tree<T>(idx, data, dim, c));
                            mc::exec();
                            mc::step();
                            const auto why = ref.judge(labels);
                            if (!why.empty()) mc::fail("labels", why + "; labels " + mc::show(labels) + " " + what());
                            // options replaced after construction count
                            if (n <= 3) {
                                D later;
                                later.set_options(opt);
                                Indices    idx2 = order;
                                const auto l2   = later.predict(make_tree<T>(idx2, data, dim, c));
                                mc::step();
                                const auto why2 = ref.judge(l2);
                                if (!why2.empty()) mc::fail("labels", "after set_options: " + why2 + "; labels " + mc::show(l2) + " " + what());
                            }
                        }, what);
                    }
            }
    }
};

// thousands of samples (every radius query visits all of them: quadratic), on a line, where neighbours are intervals of the sorted samples
struct LineReference {
    const std::vector<int>&  x;
    int                      radius;
    std::vector<std::size_t> order, rank, first, last, comp;  // neighbours of the sample of rank r: ranks first[r]..last[r]
    std::vector<char>        core;
    std::size_t              comps = 0;

    LineReference(const std::vector<int>& x_, int radius_, std::size_t min_samples)
      : x(x_)
      , radius(radius_)
      , order(iota(x.size()))
      , rank(x.size())
      , first(x.size())
      , last(x.size())
      , comp(x.size(), 0)
      , core(x.size()) {
        const auto n = x.size();
        std::sort(order.begin(), order.end(), [&](auto a, auto b) { return x[a] != x[b] ? x[a] < x[b] : a < b; });
        for (std::size_t r = 0; r < n; ++r) rank[order[r]] = r;
        for (std::size_t r = 0, lo = 0, hi = 0; r < n; ++r) {
            while (x[order[r]] - x[order[lo]] >= radius) ++lo;
            while (hi + 1 < n && x[order[hi + 1]] - x[order[r]] < radius) ++hi;
            first[r] = lo;
            last[r]  = hi;
            core[r]  = hi - lo + 1 > min_samples;
        }
        std::size_t previous = n;
        for (std::size_t r = 0; r < n; ++r) {
            if (!core[r]) continue;
            if (previous == n || previous < first[r]) ++comps;
            comp[r]  = comps;
            previous = r;
        }
    }
    template <typename L>
    std::string judge(const L& labels) const {
        const auto n = x.size();
        if (labels.size() != n) return "there is not one label per sample";
        std::vector<std::size_t> label_of(comps + 1, 0), comp_of(comps + 1, 0);
        for (std::size_t r = 0; r < n; ++r) {
            const std::size_t l = labels[order[r]];
            if (l > comps) return "labels are not numbered consecutively from 1";
            if (core[r]) {
                if (!l) return "a sample with enough neighbours is labelled noise";
                if (label_of[comp[r]] && label_of[comp[r]] != l) return "connected dense samples carry different labels";
                if (comp_of[l] && comp_of[l] != comp[r]) return "unconnected dense samples share a label";
                label_of[comp[r]] = l;
                comp_of[l]        = comp[r];
            } else {
                bool any = false, match = false;
                for (std::size_t q = first[r]; q <= last[r]; ++q)
                    if (core[q]) any = true, match |= labels[order[q]] == l;
                if (any && !match) return "a sample near a dense sample carries none of their labels";
                if (!any && l) return "a sample near no dense sample is not noise";
            }
        }
        mc::outcome(mc::mix(comps, labels[n / 2]));
        return "";
    }
};
template <typename T>
void check_line(const std::vector<int>& x, int radius, std::size_t min_samples, const Config& c, const std::string& shape) {
    auto what = [&] { return shape + " radius " + std::to_string(radius) + " min_samples " + std::to_string(min_samples) + " tree " + c.text(); };
    mc::guard("labels", [&] {
        const LineReference ref(x, radius, min_samples);
        std::vector<T>      data(x.begin(), x.end());
        Indices             idx = iota(x.size());
        using D                 = ffcl::DBSCAN<Tree<T>>;
        D          d(typename D::Options().min_samples(min_samples).radius(static_cast<T>(radius)));
        const auto labels = d.predict(make_tree<T>(idx, data, 1, c));
        mc::exec();
        mc::step(x.size());
        const auto why = ref.judge(labels);
        if (!why.empty()) mc::fail("labels", why + ": " + what());
    }, what);
}
void huge_lines(std::size_t n) {
    if (!mc::begin_space("big-line-" + std::to_string(n))) return;
    const auto c = configs({VarianceFull}, {5}, {kNoLimit})[0];
    for (int shape = 0; shape < 4; ++shape)
        for (int min_samples : {0, 1, 2, 3})
            for (int radius : {2, 3}) {
                if (!mc::take()) continue;
                std::vector<int> x(n);
                for (std::size_t i = 0; i < n; ++i) {
                    const std::size_t j = shape == 3 ? i : i * 7919 % n;  // position of sample i along the line
                    x[i] = static_cast<int>(shape == 0 ? j : shape == 1 ? j / 3 * 7 + j % 3 : shape == 2 ? j / 5 * 9 + j % 5 + (j % 5 == 4) : j * 2 + (j % 11 == 0));
                }
                const std::string name = std::to_string(n) + " samples on a line, shape " + std::to_string(shape);
                mc::sample([&] { return name; });
                check_line<float>(x, radius, min_samples, c, name);
                if (radius == 2) check_line<int>(x, radius, min_samples, c, name);
            }
}

int mc::explore() {
    const bool      T = mc::thorough(), S = mc::san();
    const Embedding tiny{1.0 / (1 << 25), 1}, huge{1 << 20, 2}, neg{1, 3};
    const auto      two = configs({Cycle}, {1, 3}, {kNoLimit});
    const auto      one = configs({VarianceFull}, {1}, {kNoLimit});
    const auto      all = configs({Cycle, Spread, Variance, VarianceFull}, {1, 2, 5}, {kNoLimit, 1});
    space::ordered("line-4", 1, 4, 1, S ? 3 : 4, Check<float>{all});
    space::ordered("line-5", 1, 6, 1, S ? 3 : T ? 7 : 6, Check<float>{two});
    if (!S) space::ordered("line-int", 1, 5, 1, T ? 7 : 6, Check<int>{two, {neg, kFar, kWide}});
    space::ordered("grid", 2, 3, 1, S ? 2 : T ? 6 : 5, Check<float>{two, {tiny}});
    if (!S) space::ordered("grid-double", 2, 3, 1, 4, Check<double>{one, {huge, kFar}});
    if (!S) space::multisets("line-multisets", 1, 7, 6, T ? 9 : 8, Check<double>{one}, T);
    if (!S) space::multisets("grid-multisets", 2, 3, 5, T ? 8 : 7, Check<float>{one, {{}}, 64, {0, 1, 2, 3, 4}}, T);
    if (!S) space::multisets("cube-multisets", 3, 2, 3, T ? 8 : 7, Check<float>{one, {{}}, 64, {0, 1, 2, 3, 4}}, T);
    // orders of the same samples decide which sample is visited first
    if (!S && mc::begin_space("orders")) {
        const std::vector<std::vector<int>> shapes{{0, 2, 4, 6, 7, 8}, {0, 1, 2, 4, 6, 8}, {0, 3, 4, 5, 8, 11}, {0, 1, 2, 5, 6, 7}, {0, 2, 3, 5, 7, 8}, {0, 2, 3, 4, 6, 9}, {0, 2, 4, 5, 6, 8, 10}, {0, 1, 3, 5, 6, 8, 9}};
        for (auto& s : shapes)
            gen::permutations(s.size(), [&](const std::vector<std::size_t>& p) {
                if (!mc::take()) return;
                std::vector<int> x;
                for (auto i : p) x.push_back(s[i]);
                Check<float>{one, {{}}, 64, {1, 2, 3, 4}}(x, 1, iota(x.size()));
            });
    }
    if (!S) {
        const Check<float> sizes{one, {{}}, 4, {0, 1, 2, 3, 4, 6, 9}};
        space::sizes("sizes-2d", 2, 1, T ? 201 : 200, sizes);
        space::sizes("sizes-1d", 1, 1, T ? 201 : 200, sizes);
        space::big("big-2d", 2, T ? 2049 : 1025, sizes);
        huge_lines(4097);
        huge_lines(9999);
        space::dims("dims", {4, 5, 7, 8, 9, 16, 17}, {3, 10, 31}, Check<double>{two, {{0.5, 3}}, 8, {0, 1, 2, 3, 4, 6, 9}});
        space::wide("wide", {40, 130, 300}, {3, 40}, Check<double>{two, {{0.5, 3}}, 8, {0, 1, 2, 3, 4, 6, 9}});
    }
    space::large("large", 2, S ? std::vector<std::size_t>{20} : T ? std::vector<std::size_t>{20, 40, 90, 200} : std::vector<std::size_t>{20, 40, 90}, {1, 3, 7}, {0, 1, 2}, {13, 31},
                 Check<float>{configs({Cycle, Variance}, {1, 7}, {kNoLimit}), {{}}, 6, {1, 3, 6}});
    return 0;
}
MC_MAIN
