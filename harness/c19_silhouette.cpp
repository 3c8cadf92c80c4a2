// C19: cohesion, separation and silhouette of every small labelling.
#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"

#include <cmath>
#include <set>

namespace H = ffcl::common::math::heuristics;

template <typename T, typename L>
struct Check {
    double scale = 1, shift = 0;

    void operator()(const std::vector<int>& x, std::size_t dim, const std::vector<int>& labels) const {
        const std::size_t n = x.size() / dim;
        std::vector<T>    data;
        for (int v : x) data.push_back(static_cast<T>(scale * (v - shift)));
        const std::vector<L> lab(labels.begin(), labels.end());
        auto what = [&] { return "samples " + mc::show(data) + " of " + std::to_string(dim) + " features, labels " + mc::show(labels); };
        mc::guard("silhouette", [&] {
            const int            top = *std::max_element(labels.begin(), labels.end());
            std::vector<int>     size(top + 1);
            for (int l : labels) ++size[l];
            mc::exec();
            const auto sizes = H::get_cluster_sizes(lab.begin(), lab.end());
            if (sizes.size() != size.size() || !std::equal(sizes.begin(), sizes.end(), size.begin(), [](auto a, auto b) { return int(a) == b; })) mc::fail("sizes", "wrong cluster sizes: " + what());
            const auto coh = H::cohesion(data.begin(), data.end(), dim, lab.begin(), lab.end());
            const auto sep = H::separation(data.begin(), data.end(), dim, lab.begin(), lab.end());
            const auto sil = H::silhouette(data.begin(), data.end(), dim, lab.begin(), lab.end());
            mc::step(4);
            if (coh.size() != n || sep.size() != n || sil.size() != n) return mc::fail("size", "not one value per sample: " + what());
            double mean = 0;
            for (std::size_t i = 0; i < n; ++i) {
                std::vector<double> sum(top + 1);
                double              far = 0;
                for (std::size_t j = 0; j < n; ++j) {
                    double d = 0;
                    for (std::size_t f = 0; f < dim; ++f) d += std::pow(scale * (x[i * dim + f] - x[j * dim + f]), 2);
                    sum[labels[j]] += std::sqrt(d);
                    far = std::max(far, std::sqrt(d));
                }
                const double tol = gen::precision<T>() * far;
                const double a = size[labels[i]] > 1 ? sum[labels[i]] / (size[labels[i]] - 1) : 0;
                double       b = INFINITY;
                for (int l = 0; l <= top; ++l)
                    if (l != labels[i] && size[l]) b = std::min(b, sum[l] / size[l]);
                auto say = [&](const char* kind, double got, double want) { mc::fail(kind, std::string(kind) + " of sample " + std::to_string(i) + " is " + std::to_string(got) + " instead of " + std::to_string(want) + ": " + what()); };
                if (!(std::fabs(coh[i] - a) <= tol)) say("cohesion", coh[i], a);
                if (!(std::fabs(sep[i] - b) <= tol)) say("separation", sep[i], b);
                const double s = size[labels[i]] == 1 || std::max(a, b) == 0 ? 0 : (b - a) / std::max(a, b);
                if (!(std::fabs(sil[i] - s) <= 10 * gen::precision<T>())) say("silhouette", sil[i], s);
                if (!(sil[i] >= -1 && sil[i] <= 1)) say("silhouette", sil[i], s);
                mean += s;
                mc::step(3);
            }
            const double avg = H::get_average_silhouette(sil.begin(), sil.end());
            mc::step();
            if (!(std::fabs(avg - mean / n) <= 10 * gen::precision<T>())) mc::fail("average", "the average silhouette is " + std::to_string(avg) + " instead of " + std::to_string(mean / n) + ": " + what());
            mc::outcome(std::uint64_t((mean + n) * 1e6));
        }, what);
    }
};

template <typename C>
void space(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::size_t max_label, C check, bool multiset = false) {
    if (!mc::begin_space(name)) return;
    auto each = [&](const std::vector<int>& x) {
        gen::tuples(x.size() / dim, max_label + 1, [&](const std::vector<int>& l) {
            if (std::set<int>(l.begin(), l.end()).size() < 2) return;
            if (!mc::take()) return;
            mc::sample([&] { return mc::show(x) + " labels " + mc::show(l); });
            check(x, dim, l);
        });
    };
    for (std::size_t n = n_min; n <= n_max; ++n) {
        if (multiset)
            gen::multisets(n, dim, side, each);
        else
            gen::datasets(n, dim, side, each);
    }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    space("line", 1, 4, 2, S ? 3 : T ? 6 : 5, 3, Check<float, std::size_t>{0.5, 1});
    space("line-double", 1, 3, 2, S ? 3 : 5, 2, Check<double, int>{3, 1});
    space("plane", 2, 3, 2, S ? 2 : T ? 5 : 4, 3, Check<float, int>{1, 1});
    if (!S) space("sets", 1, 4, 5, T ? 8 : 7, 2, Check<float, std::size_t>{1, 2}, true);
    if (!S) space("sets-labels", 1, 3, 5, 5, 4, Check<double, std::uint8_t>{1, 2}, true);
    if (!S) space("plane-sets", 2, 3, 4, T ? 6 : 5, 2, Check<float, std::size_t>{0.25, 0}, true);
    if (!S) space("far", 1, 4, 2, 4, 2, Check<double, int>{1, -(1 << 30)});
    if (!S) space("gaps", 1, 3, 2, 3, 7, Check<float, long>{2, 0});
    if (!S) space("tiny", 1, 4, 2, 4, 2, Check<float, std::size_t>{1.0 / (1 << 20), 0});
    // clusters with more members than a small label type can count
    if (!S && mc::begin_space("narrow-labels"))
        for (std::size_t big : {126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 513})
            for (std::size_t small : {1, 2, 3})
                for (int bits = 0; bits < 4; ++bits) {
                    if (!mc::take()) continue;
                    std::vector<int> x, l;
                    for (std::size_t i = 0; i < big + small; ++i) {
                        const bool first = bits & 1 ? i < small : i >= big;
                        x.push_back(static_cast<int>(i * 7 % 31) + (first ? 20 : 0));
                        l.push_back(first ? 0 : bits & 2 ? 3 : 1);
                    }
                    Check<double, std::uint8_t>{1, 0}(x, 1, l);
                    Check<float, std::int8_t>{0.5, 3}(x, 1, l);
                    Check<float, std::int16_t>{0.5, 3}(x, 1, l);
                }
    // labels up to the largest value of their type
    if (mc::begin_space("largest-labels"))
        for (int gap : {0, 1, 2, 100})
            gen::tuples(4, 3, [&](const std::vector<int>& t) {
                if (std::set<int>(t.begin(), t.end()).size() < 2 || !mc::take()) return;
                const std::vector<int> x{0, 3, 4, 9};
                auto with = [&](auto check, int top) {
                    std::vector<int> l;
                    for (int v : t) l.push_back(v == 2 ? top : v == 1 ? top - 1 - gap : 0);
                    check(x, 1, l);
                };
                with(Check<double, std::int8_t>{1, 0}, 127);
                with(Check<double, std::uint8_t>{1, 0}, 255);
                with(Check<float, std::int16_t>{1, 0}, 32767);
                with(Check<float, std::uint16_t>{1, 0}, 65535);
            });
    if (mc::begin_space("structured"))
        for (std::size_t n : {20, 50})
            for (std::size_t dim : {1, 2})
                gen::lattice(n, dim, {1, 3, 7}, {1, 5}, {0, 1, 2}, {17, 41}, [&](const std::vector<int>& x) {
                    for (std::size_t k : {2, 3, 5, 9})
                        for (std::size_t block : {0, 1}) {
                            if (!mc::take()) continue;
                            std::vector<int> l;
                            for (std::size_t i = 0; i < n; ++i) l.push_back(block ? std::min(i / (n / k), k - 1) : i % k);
                            l[n - 1] = k;  // one sample alone
                            Check<float, std::size_t>{0.5, 8}(x, dim, l);
                        }
                });
    // more clusters than 8 bits count
    if (!S && mc::begin_space("many"))
        for (std::size_t k : {255, 256, 257, 300})
            for (std::size_t block : {0, 1})
                gen::lattice(700, 2, {3}, {5}, {1}, {97}, [&](const std::vector<int>& x) {
                    if (!mc::take()) return;
                    std::vector<int> l;
                    for (std::size_t i = 0; i < 700; ++i) l.push_back(static_cast<int>(block ? std::min(i / 2, k - 1) : i % k));
                    Check<double, std::size_t>{0.5, 8}(x, 2, l);
                    Check<double, int>{1, 0}(x, 2, l);
                });
    if (!S && mc::begin_space("sizes"))
        for (std::size_t dim : {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 300})
            for (auto n : dim < 3 ? gen::every(2, T ? 200 : 100, T ? 2049 : 513) : std::vector<std::size_t>{5, 16, 33})
                gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                    for (std::size_t k : {2, 3, 5, 8, 9, 16, 17, 33})
                        for (std::size_t block : {0, 1}) {
                            if (k > n || !mc::take()) continue;
                            std::vector<int> l;
                            for (std::size_t i = 0; i < n; ++i) l.push_back(static_cast<int>(block ? std::min(i / (n / k), k - 1) : (i * i + i) % k));
                            if (std::set<int>(l.begin(), l.end()).size() < 2) continue;
                            Check<float, std::size_t>{0.5, 8}(x, dim, l);
                            Check<double, int>{1, 0}(x, dim, l);
                        }
                });
    return 0;
}
MC_MAIN
