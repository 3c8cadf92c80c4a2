// C11: every iteration of Lloyd and Hamerly is a k-means iteration, for every small dataset and every initial centroids.
#include "kmeans_oracle.hpp"

using namespace km;

template <typename T>
struct Check {
    double scale = 1, shift = 0;

    template <template <typename> class Algo>
    void algorithm(const char* name, const Points& x, const Points& start, std::size_t dim) const {
        const std::size_t k = start.size() / dim, n = x.size() / dim;
        std::vector<T>    data(x.begin(), x.end()), c(start.begin(), start.end());
        const double      mag = std::max(magnitude(x), magnitude(start)), unit = gen::precision<T>(), tol = 0.4 * unit * mag + 1e-300;
        auto what = [&] { return std::string(name) + " k=" + std::to_string(k) + " samples " + show(x, dim) + " start " + show(start, dim); };
        mc::guard(name, [&] {
            using It = typename std::vector<T>::iterator;
            Algo<It> algo(std::make_tuple(data.begin(), data.end(), dim), c);
            mc::exec();
            auto deviation = [&](int t, const std::vector<T>& cs) {
                const double want = total(x, cs, dim), got = static_cast<double>(algo.total_deviation());
                if (!(std::fabs(want - got) <= unit * want + n * tol))
                    mc::fail("deviation", "total deviation is " + std::to_string(got) + " instead of " + std::to_string(want) + " after " + std::to_string(t) + " iterations: " + what());
            };
            deviation(0, c);
            std::vector<std::vector<T>> path{c};
            int                         fixed = -1;
            for (int t = 1; t <= 40; ++t) {
                const std::vector<T> before = path.back();
                const std::vector<T> after  = algo.step();
                mc::step();
                if (after.size() != before.size()) return mc::fail("size", "number of centroids changed: " + what());
                const Iteration it(x, before, dim, tol);
                if (it.combinations <= 5000 && !it.allows(x, before, after, dim, tol))
                    return mc::fail("iteration", "iteration " + std::to_string(t) + " moves " + show_c(before, dim) + " to " + show_c(after, dim) + ", which are not the means of the samples nearest to each: " + what());
                if (inertia(x, after, dim) > inertia(x, before, dim) * (1 + unit) + tol * mag)
                    return mc::fail("descent", "iteration " + std::to_string(t) + " increases the sum of squared distances: " + what());
                deviation(t, after);
                path.push_back(after);
                if (before == after) {
                    fixed = t - 1;
                    break;
                }
            }
            if (fixed < 0) return mc::fail("convergence", "no fixed point after 40 iterations: " + what());
            std::uint64_t h = k;
            for (auto v : path.back()) h = mc::mix(h, static_cast<std::uint64_t>(static_cast<std::int64_t>(v * 1000)));
            mc::outcome(h);
            // fit: the iterations above, as many as allowed, ending at the fixed point
            using K = ffcl::KMeans<T>;
            auto expect = [&](const char* how, const std::vector<T>& got, const std::vector<T>& want) {
                mc::exec();
                mc::step();
                bool ok = got.size() == want.size();
                for (std::size_t i = 0; ok && i < got.size(); ++i) ok = std::fabs(got[i] - want[i]) <= tol;
                if (!ok) mc::fail("fit", std::string(how) + " returns " + show_c(got, dim) + " instead of " + show_c(want, dim) + ": " + what());
            };
            {
                K model(k, c);
                expect("fit", model.template fit<Algo>(data.begin(), data.end(), dim), path.back());
                const auto again = model.template fit<Algo>(data.begin(), data.end(), dim);
                mc::exec();
                mc::step();
                const Iteration it(x, again, dim, tol);
                if (again.size() != c.size() || inertia(x, again, dim) > inertia(x, path.back(), dim) * (1 + unit) + tol * mag ||
                    (it.combinations <= 5000 && !it.allows(x, again, again, dim, tol)))
                    mc::fail("fit", "fitting again ends at " + show_c(again, dim) + ", not a fixed point at least as good as " + show_c(path.back(), dim) + ": " + what());
            }
            for (std::size_t m = 0; m <= static_cast<std::size_t>(fixed) + 1; ++m) {
                const auto& want = path[std::min<std::size_t>(m, fixed)];
                K           free(k, c, typename K::Options().max_iter(m).early_stopping(false));
                expect("fit without early stopping", free.template fit<Algo>(data.begin(), data.end(), dim), want);
                K limited(k, c);
                limited.set_options(typename K::Options().max_iter(m));
                expect("fit with an iteration limit", limited.template fit<Algo>(data.begin(), data.end(), dim), want);
            }
            {
                K patient(k, c);
                patient.set_options(typename K::Options().patience(2).n_init(3));
                expect("fit with patience", patient.template fit<Algo>(data.begin(), data.end(), dim), path.back());
            }
            // a tolerance stops only after an iteration that moved no centroid further than it
            for (double f : {0.3, 0.6, 1.1}) {
                K tolerant(k, c);
                tolerant.set_options(typename K::Options().tolerance(static_cast<T>(f * scale)));
                const auto got = tolerant.template fit<Algo>(data.begin(), data.end(), dim);
                mc::exec();
                mc::step();
                bool found = false;
                for (std::size_t t = 0; t < path.size() && !found; ++t) {
                    double moved = 0, off = 0;
                    for (std::size_t i = 0; i < c.size(); ++i) {
                        moved = std::max<double>(moved, t ? std::fabs(path[t][i] - path[t - 1][i]) : 1e300);
                        off   = std::max<double>(off, std::fabs(path[t][i] - got[i]));
                    }
                    found = off <= tol && moved <= f * scale * 1.0001 + tol;
                }
                if (!found) mc::fail("fit", "fit with tolerance " + std::to_string(f * scale) + " stops at " + show_c(got, dim) + " too early: " + what());
            }
        }, what);
    }

    void operator()(const std::vector<int>& xi, const std::vector<int>& ci, std::size_t dim) const {
        Points x, c;
        for (int v : xi) x.push_back(scale * (v - shift));
        for (int v : ci) c.push_back(scale * (v - shift));
        algorithm<ffcl::Lloyd>("lloyd", x, c, dim);
        algorithm<ffcl::Hamerly>("hamerly", x, c, dim);
    }
};

// every dataset (multiset) of n points and every tuple of k starting points on a grid that extends `margin` beyond it
template <typename T>
void space(const std::string& name, bool ordered, std::size_t dim, std::size_t side, int margin, std::size_t n_min, std::size_t n_max, std::size_t k_min, std::size_t k_max, Check<T> check) {
    if (!mc::begin_space(name)) return;
    auto each = [&](const std::vector<int>& x) {
        for (std::size_t k = k_min; k <= k_max; ++k)
            gen::datasets(k, dim, side + 2 * margin, [&](const std::vector<int>& c) {
                if (!mc::take()) return;
                auto s = c;
                for (int& v : s) v -= margin;
                mc::sample([&] { return "samples " + mc::show(x) + " start " + mc::show(s); });
                check(x, s, dim);
            });
    };
    for (std::size_t n = n_min; n <= n_max; ++n) {
        if (ordered)
            gen::datasets(n, dim, side, each);
        else
            gen::multisets(n, dim, side, each);
    }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    space<float>("line", true, 1, 4, 1, 1, S ? 3 : 4, 1, S ? 2 : 3, {});
    if (!S) space<double>("line-centred", false, 1, 6, 0, 3, T ? 7 : 5, 2, 3, {1, 2});
    if (!S) space<float>("line-offset", false, 1, 6, 0, 4, T ? 6 : 5, 2, 3, {1, -3});
    if (!S) space<float>("line-tiny", false, 1, 5, 1, 3, 5, 2, 3, {1.0 / (1 << 26), 2});
    if (!S) space<double>("line-large", false, 1, 9, 0, 5, 6, 2, T ? 3 : 2, {1 << 10, 20});
    space<float>("plane", false, 2, 3, 0, 1, S ? 2 : 4, 1, S ? 1 : 3, {1, 1});
    if (!S) space<double>("plane-wide", false, 2, 4, 0, 4, T ? 5 : 4, 2, 2, {1, 0});
    if (!S) space<double>("line-far", false, 1, 5, 0, 3, 5, 2, 3, {1, -(1 << 30)});
    if (!S) space<double>("plane-far", false, 2, 3, 0, 3, 3, 2, 2, {1, -(1 << 30)});
    if (!S) space<float>("cube", false, 3, 2, 1, 3, T ? 4 : 3, 2, 2, {1, 0});
    // larger structured datasets, started from every choice of their first samples
    if (mc::begin_space("structured")) {
        for (std::size_t n : S ? std::vector<std::size_t>{12} : std::vector<std::size_t>{12, 25, 60})
            for (std::size_t dim : {1, 2, 3})
                gen::lattice(n, dim, {1, 3, 7}, {1, 5}, {0, 1, 2}, {17, 41}, [&](const std::vector<int>& x) {
                    for (std::size_t k : {2, 3, 4, 7}) {
                        for (std::size_t off : {0, 2, 5}) {
                            if (!mc::take()) continue;
                            std::vector<int> s;
                            for (std::size_t j = 0; j < k; ++j)
                                for (std::size_t d = 0; d < dim; ++d) s.push_back(x[((j + off) % n) * dim + d]);
                            Check<float>{}(x, s, dim);
                            Check<double>{0.25, 9}(x, s, dim);
                        }
                    }
                });
    }
    // every size, and many features
    if (!S && mc::begin_space("sizes"))
        for (auto dim : {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 300})
            for (auto n : dim < 3 ? gen::every(2, T ? 130 : 70, T ? 1025 : 513) : std::vector<std::size_t>{5, 16, 33})
                gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                    for (std::size_t k : {2, 3, 5, 8, 9, 16, 17}) {
                        if (k > n || !mc::take()) continue;
                        std::vector<int> s;
                        for (std::size_t j = 0; j < k; ++j)
                            for (int d = 0; d < dim; ++d) s.push_back(x[((3 * j + 1) % n) * dim + d]);
                        Check<float>{}(x, s, dim);
                        Check<double>{0.25, 9}(x, s, dim);
                    }
                });
    // more clusters than 8 bits count
    if (!S && mc::begin_space("many"))
        for (std::size_t dim : {1, 2})
            for (std::size_t k : {255, 256, 257, 300}) {
                if (!mc::take()) continue;
                gen::lattice(400, dim, {3}, {5}, {1}, {997}, [&](const std::vector<int>& x) {
                    Check<double>{0.25, 9}(x, {x.begin(), x.begin() + k * dim}, dim);
                });
            }
    // more samples than 16 bits count
    if (!S && mc::begin_space("huge"))
        for (std::size_t dim : {1, 2})
            for (std::size_t k : {2, 3, 4}) {
                if (!mc::take()) continue;
                gen::lattice(gen::kHuge, dim, {3}, {5}, {1}, {41}, [&](const std::vector<int>& x) {
                    std::vector<int> s;
                    for (std::size_t j = 0; j < k; ++j)
                        for (std::size_t d = 0; d < dim; ++d) s.push_back(x[((3 * j + 1) % gen::kHuge) * dim + d]);
                    Check<double>{0.25, 9}(x, s, dim);
                });
            }
    return 0;
}
MC_MAIN
