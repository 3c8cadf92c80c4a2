// Shared exploration of the k-medoids algorithms: every dataset, every ordered choice of initial medoids.
#pragma once
#include "rng_control.hpp"

#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"

#include <algorithm>

namespace kmd {

using Ids = std::vector<std::size_t>;

struct Problem {
    std::size_t         n, dim;
    std::vector<int>    x;
    double              scale, shift;
    bool                integral;
    std::vector<double> d;             // n x n
    double              unit = 1e-5;  // relative error of the type

    Problem(const std::vector<int>& pts, std::size_t dim_, double scale_, double shift_, bool integral_)
      : n(pts.size() / dim_)
      , dim(dim_)
      , x(pts)
      , scale(scale_)
      , shift(shift_)
      , integral(integral_)
      , d(n * n) {
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                double s = 0;
                for (std::size_t f = 0; f < dim; ++f) {
                    const double v = scale * (x[i * dim + f] - x[j * dim + f]);
                    s += integral ? std::fabs(v) : v * v;
                }
                d[i * n + j] = integral ? s : std::sqrt(s);
            }
    }
    double largest() const { return *std::max_element(d.begin(), d.end()); }
    // sorted distances of a sample to the medoids
    std::pair<double, double> two(std::size_t i, const Ids& m) const {
        double a = 1e300, b = 1e300;
        for (auto j : m) {
            const double v = d[j * n + i];
            if (v < a)
                b = a, a = v;
            else if (v < b)
                b = v;
        }
        return {a, b};
    }
    double deviation(const Ids& m) const {
        double s = 0;
        for (std::size_t i = 0; i < n; ++i) s += two(i, m).first;
        return s;
    }
    double silhouette(const Ids& m) const {
        double s = 0;
        for (std::size_t i = 0; i < n; ++i) {
            auto [a, b] = two(i, m);
            s += b > 0 ? a / b : 0;
        }
        return s;
    }
    template <typename T>
    std::vector<T> data() const {
        std::vector<T> v;
        for (int c : x) v.push_back(static_cast<T>(scale * (c - shift)));
        return v;
    }
    std::string text() const {
        std::string s = "samples {";
        for (std::size_t i = 0; i < n; ++i) {
            s += i ? " (" : "(";
            for (std::size_t f = 0; f < dim; ++f) {
                char b[32];
                std::snprintf(b, sizeof b, "%s%.6g", f ? "," : "", scale * (x[i * dim + f] - shift));
                s += b;
            }
            s += ")";
        }
        return s + "}";
    }
};

struct Deviation {
    static constexpr const char* name = "total distance";
    static double value(const Problem& p, const Ids& m) { return p.deviation(m); }
    static double tolerance(const Problem& p) { return 2 * p.unit * p.n * p.largest() + 1e-300; }
};
struct Silhouette {
    static constexpr const char* name = "sum of nearest/second nearest distance ratios";
    static double value(const Problem& p, const Ids& m) { return p.silhouette(m); }
    static double tolerance(const Problem& p) { return 2 * p.unit * p.n; }
};

inline std::string valid(const Ids& m, std::size_t k, std::size_t n) {
    if (m.size() != k) return "the number of medoids changed";
    std::set<std::size_t> s(m.begin(), m.end());
    if (s.size() != k) return "the medoids are not distinct";
    if (*s.rbegin() >= n) return "a medoid is not a sample";
    return "";
}

template <typename Objective>
std::string improvable(const Problem& p, const Ids& m, double tol) {
    const double now = Objective::value(p, m);
    for (std::size_t k = 0; k < m.size(); ++k)
        for (std::size_t c = 0; c < p.n; ++c) {
            if (std::find(m.begin(), m.end(), c) != m.end()) continue;
            auto s = m;
            s[k]   = c;
            if (Objective::value(p, s) < now - tol)
                return "exchanging medoid " + std::to_string(m[k]) + " for sample " + std::to_string(c) + " lowers the " + Objective::name + " from " + std::to_string(now) + " to " + std::to_string(Objective::value(p, s));
        }
    return "";
}

template <typename T, typename Objective, template <typename> class Algo>
struct Check {
    double scale = 1, shift = 0;
    bool   fits  = true;

    void operator()(const std::vector<int>& x, std::size_t dim, const Ids& start) const {
        Problem p(x, dim, scale, shift, std::is_integral_v<T>);
        p.unit = gen::precision<T>();
        const double  tol = Objective::tolerance(p);
        auto what = [&] { return "start " + mc::show(start) + " " + p.text(); };
        mc::guard("kmedoids", [&] {
            auto data = p.data<T>();
            using It  = typename std::vector<T>::iterator;
            const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(data.begin(), data.end(), dim);
            Algo<It> lazy(std::make_tuple(data.begin(), data.end(), dim), start), stored(matrix, start);
            mc::exec(2);
            auto reported = [&](double got, const Ids& m, int t, const char* kind) {
                const double want = Objective::value(p, m);
                if (!(std::fabs(got - want) <= tol))
                    mc::fail("objective", std::string("the reported objective (") + kind + ") is " + std::to_string(got) + " instead of " + std::to_string(want) + " for medoids " + mc::show(m) + " after pass " + std::to_string(t) + ": " + what());
            };
            reported(lazy.total_deviation(), start, 0, "distances on demand");
            reported(stored.total_deviation(), start, 0, "precomputed distances");
            Ids before = start, last;
            std::vector<Ids> path{start};
            bool fixed = false;
            for (int t = 1; t <= 30 && !fixed; ++t) {
                const Ids a = lazy.step(), b = stored.step();
                mc::step(2);
                if (a != b) return mc::fail("storage", "medoids differ between distances on demand " + mc::show(a) + " and precomputed " + mc::show(b) + ": " + what());
                const auto v = valid(a, start.size(), p.n);
                if (!v.empty()) return mc::fail("medoids", v + " " + mc::show(a) + ": " + what());
                reported(lazy.total_deviation(), a, t, "distances on demand");
                reported(stored.total_deviation(), a, t, "precomputed distances");
                if (Objective::value(p, a) > Objective::value(p, before) + tol)
                    return mc::fail("descent", std::string("the ") + Objective::name + " increases from " + mc::show(before) + " to " + mc::show(a) + ": " + what());
                fixed  = a == before;
                before = a;
                path.push_back(a);
            }
            if (!fixed) return mc::fail("convergence", "the medoids still change after 30 passes: " + what());
            const auto better = improvable<Objective>(p, before, tol);
            if (!better.empty()) return mc::fail("optimal", "fitting stops at " + mc::show(before) + " but " + better + ": " + what());
            std::uint64_t h = p.n;
            for (auto m : before) h = mc::mix(h, m);
            mc::outcome(h);
            if (!fits) return;
            // the model: same passes, same result whatever the storage
            auto fit = [&](const char* how, auto model, const Ids& want, bool use_matrix) {
                const Ids got = use_matrix ? model->template fit<Algo>(matrix) : model->template fit<Algo>(data.begin(), data.end(), dim);
                mc::exec();
                mc::step();
                if (got != want) return mc::fail("fit", std::string("fit (") + how + ") returns " + mc::show(got) + " instead of " + mc::show(want) + ": " + what());
                // prediction
                const auto labels  = use_matrix ? model->predict(matrix) : model->predict(data.begin(), data.end(), dim);
                const auto forward = use_matrix ? model->forward(matrix) : model->forward(data.begin(), data.end(), dim);
                mc::step(2);
                if (labels.size() != p.n || forward.size() != p.n) return mc::fail("predict", "predict does not answer for every sample: " + what());
                for (std::size_t i = 0; i < p.n; ++i) {
                    const double best = p.two(i, want).first, close = p.unit * p.largest();
                    if (labels[i] >= want.size() || p.d[want[labels[i]] * p.n + i] > best + close)
                        return mc::fail("predict", "sample " + std::to_string(i) + " is not assigned to a nearest medoid of " + mc::show(want) + ": " + what());
                    if (!(std::fabs(forward[i] - best) <= close))
                        return mc::fail("predict", "the distance of sample " + std::to_string(i) + " to its medoid is " + std::to_string(forward[i]) + " instead of " + std::to_string(best) + ": " + what());
                }
            };
            using P = ffcl::KMedoids<T, true>;
            using D = ffcl::KMedoids<T, false>;
            const std::size_t k = start.size();
            fit("precomputed", std::make_unique<P>(k, start), before, false);
            fit("on demand", std::make_unique<D>(k, start), before, false);
            fit("given matrix", std::make_unique<P>(k, start, typename P::Options().patience(1).n_init(3)), before, true);
            for (std::size_t m = 0; m < std::min<std::size_t>(path.size(), 3); ++m) {
                fit("iteration limit", std::make_unique<P>(k, start, typename P::Options().max_iter(m)), path[m], false);
                auto late = std::make_unique<D>(k, start);
                late->set_options(typename D::Options().max_iter(m).early_stopping(false));
                fit("iteration limit, no early stopping", std::move(late), path[m], m % 2);
            }
            // fitting a fitted model goes on from the medoids it holds
            auto again = std::make_unique<P>(k, start, typename P::Options().max_iter(1));
            again->template fit<Algo>(matrix);
            fit("second fit", std::move(again), path[std::min<std::size_t>(2, path.size() - 1)], true);
            auto whole = std::make_unique<D>(k, start);
            whole->template fit<Algo>(data.begin(), data.end(), dim);
            fit("second fit on demand", std::move(whole), before, false);
        }, what);
    }
};

// every dataset (multiset or ordered) and every ordered choice of k distinct initial medoids
template <typename C>
void space(const std::string& name, bool ordered, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::size_t k_min, std::size_t k_max, C check, bool tuples = true) {
    if (!mc::begin_space(name)) return;
    auto each = [&](const std::vector<int>& x) {
        const std::size_t n = x.size() / dim;
        for (std::size_t k = k_min; k <= std::min(n, k_max); ++k) {
            gen::tuples(k, n, [&](const std::vector<int>& t) {
                for (std::size_t i = 0; i < k; ++i)
                    for (std::size_t j = 0; j < i; ++j)
                        if (t[i] == t[j] || (!tuples && t[j] > t[i])) return;
                if (!mc::take()) return;
                mc::sample([&] { return mc::show(x) + " start " + mc::show(t); });
                check(x, dim, Ids(t.begin(), t.end()));
            });
        }
    };
    for (std::size_t n = n_min; n <= n_max; ++n) {
        if (ordered)
            gen::datasets(n, dim, side, each);
        else
            gen::multisets(n, dim, side, each);
    }
}

template <typename C>
void structured(const std::string& name, const std::vector<std::size_t>& sizes, C check) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (std::size_t dim : {1, 2})
            gen::lattice(n, dim, {1, 3, 7}, {1, 5}, {0, 1, 2}, {17, 41}, [&](const std::vector<int>& x) {
                for (std::size_t k : {2, 3, 4, 6}) {
                    for (std::size_t off : {0, 1, 4, 9}) {
                        if (!mc::take()) continue;
                        Ids s;
                        for (std::size_t j = 0; j < k; ++j) s.push_back((j * 5 + off) % n);
                        if (std::set<std::size_t>(s.begin(), s.end()).size() == k) check(x, dim, s);
                    }
                }
            });
}

// every size, many features and many medoids
template <typename C>
void sizes(const std::string& name, std::size_t n_max, C check) {
    if (!mc::begin_space(name)) return;
    for (std::size_t dim : {1, 2, 3, 8, 9, 17, 33, 65, 300})
        for (auto n : dim < 3 ? gen::every(3, n_max, 2 * n_max + 137) : std::vector<std::size_t>{5, 16, 33})
            gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                for (std::size_t k : {2, 3, 5, 8, 9, 16, 17}) {
                    if (k > n || !mc::take()) continue;
                    Ids s;
                    for (std::size_t j = 0; j < k; ++j) s.push_back(n - 1 - j);
                    check(x, dim, s);
                }
            });
}

// more medoids than 8 bits count
template <typename C>
void many(const std::string& name, C check) {
    if (!mc::begin_space(name)) return;
    for (std::size_t dim : {1, 2})
        for (std::size_t k : {255, 256, 257, 270})
            gen::lattice(290, dim, {3}, {5}, {1}, {997}, [&](const std::vector<int>& x) {
                if (!mc::take()) return;
                Ids s;
                for (std::size_t j = 0; j < k; ++j) s.push_back(j);
                check(x, dim, s);
            });
}

// random starts: every sequence of draws. One start reaches only what some initial medoids reach, and the best of two
// starts is distributed like the better of two independent single starts.
template <typename T, typename Objective, template <typename> class Algo, bool Precompute>
void random_starts(const std::string& name, std::size_t side, std::size_t n_min, std::size_t n_max, std::size_t k) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, 1, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            const Problem p(x, 1, 1, 0, std::is_integral_v<T>);
            auto what = [&] { return p.text() + " k=" + std::to_string(k); };
            mc::guard("random", [&] {
                auto data = p.data<T>();
                const ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator> matrix(data.begin(), data.end(), 1);
                using M = ffcl::KMedoids<T, Precompute>;
                auto value = [&](const Ids& m) { return std::llround(1e4 * Objective::value(p, m)); };
                auto under = [&](std::size_t max_iter, bool early, std::size_t patience) {
                    const auto options = typename M::Options().max_iter(max_iter).early_stopping(early).patience(patience);
                    std::map<long long, long double> reachable, one, two;
                    auto why = [&] { return what() + " at most " + std::to_string(max_iter) + " passes"; };
                    gen::tuples(k, n, [&](const std::vector<int>& t) {
                        if (std::set<int>(t.begin(), t.end()).size() != k) return;
                        M m(k, Ids(t.begin(), t.end()), options);
                        ++reachable[value(m.template fit<Algo>(data.begin(), data.end(), 1))];
                    });
                    auto run = [&](std::size_t n_init, std::map<long long, long double>& dist) {
                        mcrng::for_all_draws([&] {
                            auto       with = options;
                            M          m(k, with.n_init(n_init));
                            const auto got = Precompute ? m.template fit<Algo>(matrix) : m.template fit<Algo>(data.begin(), data.end(), 1);
                            mc::exec();
                            mc::step();
                            const auto v = valid(got, k, n);
                            if (!v.empty()) mc::fail("random", v + " " + mc::show(got) + ": " + why());
                            dist[value(got)] += mcrng::rng().weight;
                        });
                    };
                    run(1, one);
                    run(2, two);
                    for (auto& [v, w] : one)
                        if (!reachable.count(v)) mc::fail("random", "a random start ends where no initial medoids lead: " + why());
                    std::map<long long, long double> best;
                    for (auto& [a, wa] : one)
                        for (auto& [b, wb] : one) best[std::min(a, b)] += wa * wb;
                    for (auto& [v, w] : best)
                        if (std::fabs(static_cast<double>(two[v] - w)) > 1e-9)
                            return mc::fail("best", std::string("two random starts do not keep the better one: ") + why());
                };
                under(100, true, 0);
                for (std::size_t m = 0; m < 3; ++m) under(m, m % 2, m);
            }, what);
        });
}

}  // namespace kmd
