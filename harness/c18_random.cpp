// C18: random selection and seeding, explored over every sequence of random draws. The random engine is replaced by a
// choice tree; every branch carries its exact probability, so distributions are computed, not sampled.
#include "rng_control.hpp"

#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"

namespace R = ffcl::common::math::random;
using Law   = std::map<std::vector<int>, long double>;

static double binomial(std::size_t n, std::size_t k) {
    double r = 1;
    for (std::size_t i = 1; i <= k; ++i) r = r * (n - k + i) / i;
    return r;
}
// exact unless the code took its randomness directly from an engine (then only the support is judged)
static bool exact() { return mcrng::rng().raw == 0; }

// the law over the sorted results of body, for all draws
template <typename Body>
Law law_of(Body&& body, bool sorted) {
    Law law;
    mcrng::rng().raw = 0;
    const auto runs  = mcrng::for_all_draws([&] {
        std::vector<int> r = body();
        if (sorted) std::sort(r.begin(), r.end());
        law[r] += mcrng::rng().weight;
        mc::exec();
        mc::step();
    });
    mc::outcome(mc::mix(runs, law.size()));
    return law;
}

template <typename What>
void uniform_subsets(const Law& law, std::size_t m, std::size_t n, const char* sig, What&& what) {
    for (const auto& [s, p] : law) {
        if (s.size() != n) return mc::fail(sig, "selects " + std::to_string(s.size()) + " elements instead of " + std::to_string(n) + ": " + what());
        for (std::size_t i = 0; i < n; ++i)
            if (s[i] < 0 || s[i] >= int(m)) return mc::fail(sig, "selects something that is not in the sequence: " + what());
        for (std::size_t i = 1; i < n; ++i)
            if (s[i] == s[i - 1]) return mc::fail(sig, "selects an element twice: " + what());
    }
    if (law.size() != std::size_t(binomial(m, n) + 0.5)) return mc::fail(sig, "only " + std::to_string(law.size()) + " of " + std::to_string(binomial(m, n)) + " subsets can be selected: " + what());
    if (exact())
        for (const auto& [s, p] : law)
            if (std::fabs(double(p) * binomial(m, n) - 1) > 1e-9) return mc::fail(sig, "subset " + mc::show(s) + " has probability " + std::to_string(double(p)) + " instead of 1/" + std::to_string(binomial(m, n)) + ": " + what());
}

// ------------------------------------------------------------------------------------------------ selections
static void selections(std::size_t m_max) {
    if (mc::begin_space("select-elements"))
        for (std::size_t m = 1; m <= m_max; ++m)
            for (std::size_t n = 0; n <= m; ++n)
                for (int kind = 0; kind < 3; ++kind) {
                    if (!mc::take()) continue;
                    auto what = [&] { return "select " + std::to_string(n) + " of " + std::to_string(m) + " elements, kind " + std::to_string(kind); };
                    mc::sample(what);
                    mc::guard("select-elements", [&] {
                        const Law law = law_of([&] {
                            std::vector<int> out;
                            if (kind == 0) {  // elements 7, 10, 13, ...
                                std::vector<long> in;
                                for (std::size_t i = 0; i < m; ++i) in.push_back(7 + 3 * long(i));
                                const auto before = in;
                                const auto sel    = R::select_n_elements(in.begin(), in.end(), n);
                                if (in != before) mc::fail("select-elements", "the sequence was modified: " + what());
                                for (long v : sel) out.push_back((v - 7) % 3 ? -1 : int((v - 7) / 3));
                            } else if (kind == 1) {  // strings would not do: the library needs trivial types only here
                                std::vector<std::size_t> in;
                                for (std::size_t i = 0; i < m; ++i) in.push_back(1000 - i);
                                for (auto v : R::select_n_elements(in.cbegin(), in.cend(), n)) out.push_back(1000 - int(v));
                            } else {  // a sub-range of a longer sequence
                                std::vector<int> in{99, 98};
                                for (std::size_t i = 0; i < m; ++i) in.push_back(int(i));
                                in.push_back(97);
                                for (auto v : R::select_n_elements(in.begin() + 2, in.end() - 1, n)) out.push_back(v);
                            }
                            return out;
                        }, true);
                        uniform_subsets(law, m, n, "select-elements", what);
                    }, what);
                }
    auto interval = [&](auto zero, long first, std::size_t m, std::size_t n) {
        using T = decltype(zero);
        if (!mc::take()) return;
        auto what = [&] { return "select " + std::to_string(n) + " of [" + std::to_string(first) + ", " + std::to_string(first + long(m)) + ")"; };
        mc::guard("interval", [&] {
            const Law law = law_of([&] {
                std::vector<int> out;
                for (auto v : R::make_n_elements_from_interval<T>(n, std::pair<T, T>{T(first), T(first + long(m))})) out.push_back(int(long(v) - first));
                return out;
            }, true);
            uniform_subsets(law, m, n, "interval", what);
        }, what);
    };
    if (mc::begin_space("interval"))
        for (std::size_t m = 1; m <= m_max; ++m)
            for (std::size_t n = 0; n <= m; ++n) {
                for (long first : {0l, 1l, 100l}) interval(std::size_t{}, first, m, n);
                for (long first : {-3l, -100l, 5l}) interval(int{}, first, m, n);
                interval(long{}, -1, m, n);
            }
}

// ------------------------------------------------------------------------------------------------ samples
// sample i of the dataset is recognisable: feature f of sample i is base + i * dim + f
template <typename T>
std::vector<T> rows(std::size_t n, std::size_t dim, int base) {
    std::vector<T> x;
    for (std::size_t i = 0; i < n * dim; ++i) x.push_back(T(base + int(i)));
    return x;
}
template <typename T>
std::vector<int> rows_to_indices(const std::vector<T>& r, std::size_t n, std::size_t dim, int base) {
    std::vector<int> out;
    if (r.size() % dim) return {-1};
    for (std::size_t i = 0; i < r.size(); i += dim) {
        const int code = int(r[i]) - base;
        bool      ok   = code % int(dim) == 0;
        for (std::size_t f = 1; f < dim; ++f) ok = ok && int(r[i + f]) - base == code + int(f);
        out.push_back(ok ? code / int(dim) : -1);
    }
    return out;
}

// few elements of longer sequences and of samples with many features
static void longer_selections(std::size_t m_max) {
    if (!mc::begin_space("longer-selections")) return;
    for (auto m : gen::every(1, m_max, 257))
        for (std::size_t n = 1; n <= (m < 14 ? 3 : m > 60 ? 1 : 2); ++n)
            for (std::size_t dim : {1, 4, 9, 17}) {
                if (n > m || !mc::take()) continue;
                auto what = [&] { return "select " + std::to_string(n) + " of " + std::to_string(m) + " samples of " + std::to_string(dim) + " features"; };
                mc::guard("longer-selections", [&] {
                    const auto data = rows<double>(m, dim, 3);
                    auto       ids  = [&](const std::vector<double>& r) { return rows_to_indices(r, m, dim, 3); };
                    uniform_subsets(law_of([&] { return ids(R::select_n_random_samples(data.begin(), data.end(), dim, n)); }, true), m, n, "random-samples", what);
                    uniform_subsets(law_of([&] { return ids(R::init_uniform(data.begin(), data.end(), dim, n)); }, true), m, n, "init-uniform", what);
                    if (n == 1) uniform_subsets(law_of([&] { return ids(R::select_random_sample(data.begin(), data.end(), dim)); }, true), m, 1, "random-sample", what);
                    std::vector<std::size_t> idx(m);
                    for (std::size_t i = 0; i < m; ++i) idx[i] = m - 1 - i;
                    uniform_subsets(law_of([&] { return ids(R::select_n_random_samples_from_indices(idx.begin(), idx.end(), data.begin(), data.end(), dim, n)); }, true), m, n, "random-samples-from-indices", what);
                    uniform_subsets(law_of([&] {
                        std::vector<int> out;
                        for (auto v : R::select_n_elements(idx.begin(), idx.end(), n)) out.push_back(int(v));
                        return out;
                    }, true), m, n, "select-elements", what);
                    uniform_subsets(law_of([&] {
                        std::vector<int> out;
                        for (auto v : R::make_n_elements_from_interval<long>(n, std::pair<long, long>{-7, long(m) - 7})) out.push_back(int(v + 7));
                        return out;
                    }, true), m, n, "interval", what);
                }, what);
            }
}

template <typename T>
void sample_selections(const std::string& name, std::size_t m_max) {
    if (!mc::begin_space(name)) return;
    for (std::size_t m = 1; m <= m_max; ++m)
        for (std::size_t dim = 1; dim <= 3; ++dim)
            for (int base : {-5, 3}) {
                const auto data = rows<T>(m, dim, base);
                auto       ids  = [&](const std::vector<T>& r) { return rows_to_indices(r, m, dim, base); };
                auto       what = [&](const char* f, std::size_t n) { return std::string(f) + " of " + std::to_string(n) + " from " + std::to_string(m) + " samples of " + std::to_string(dim) + " features"; };
                if (mc::take()) {
                    auto w = [&] { return what("select_random_sample", 1); };
                    mc::guard("random-sample", [&] { uniform_subsets(law_of([&] { return ids(R::select_random_sample(data.begin(), data.end(), dim)); }, true), m, 1, "random-sample", w); }, w);
                }
                for (std::size_t n = 0; n <= m + 2; ++n) {
                    if (mc::take()) {
                        auto w = [&] { return what("select_n_random_samples", n); };
                        mc::guard("random-samples", [&] { uniform_subsets(law_of([&] { return ids(R::select_n_random_samples(data.begin(), data.end(), dim, n)); }, true), m, std::min(n, m), "random-samples", w); }, w);
                    }
                    if (n <= m && mc::take()) {
                        auto w = [&] { return what("init_uniform", n); };
                        mc::guard("init-uniform", [&] { uniform_subsets(law_of([&] { return ids(R::init_uniform(data.begin(), data.end(), dim, n)); }, true), m, n, "init-uniform", w); }, w);
                    }
                }
                // every ordered selection of indices as a pool
                for (std::size_t pool = 1; pool < (std::size_t(1) << m); ++pool) {
                    std::vector<std::size_t> idx;
                    for (std::size_t i = m; i-- > 0;)
                        if (pool >> i & 1) idx.push_back(i);
                    for (std::size_t n = 0; n <= idx.size() + 1; ++n) {
                        if (!mc::take()) continue;
                        auto w = [&] { return what("select_n_random_samples_from_indices", n) + " indices " + mc::show(idx); };
                        mc::guard("random-samples-from-indices", [&] {
                            const Law law = law_of([&] {
                                std::vector<int> out;
                                for (int i : ids(R::select_n_random_samples_from_indices(idx.begin(), idx.end(), data.begin(), data.end(), dim, n))) {
                                    const auto at = std::find(idx.begin(), idx.end(), std::size_t(i));
                                    out.push_back(at == idx.end() ? -1 : int(at - idx.begin()));
                                }
                                return out;
                            }, true);
                            uniform_subsets(law, idx.size(), std::min(n, idx.size()), "random-samples-from-indices", w);
                        }, w);
                    }
                }
            }
}

// ------------------------------------------------------------------------------------------------ spatial seeding
template <typename T>
void spatial(const std::string& name, std::size_t dim, int side, int shift, std::size_t n_max, std::size_t k_max) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            for (std::size_t k = 1; k <= k_max; ++k) {
                if (!mc::take()) continue;
                std::vector<T> data;
                for (int v : x) data.push_back(T(v - shift));
                auto what = [&] { return "init_spatial_uniform of " + std::to_string(k) + " from " + mc::show(data) + " with " + std::to_string(dim) + " features"; };
                mc::sample(what);
                mc::guard("spatial", [&] {
                    std::vector<double> lo(dim, 1e9), hi(dim, -1e9), lo_seen(dim * k, 1e9), hi_seen(dim * k, -1e9);
                    for (std::size_t i = 0; i < data.size(); ++i) lo[i % dim] = std::min<double>(lo[i % dim], data[i]), hi[i % dim] = std::max<double>(hi[i % dim], data[i]);
                    mcrng::rng().real_grid = 3;
                    mcrng::rng().raw       = 0;
                    std::map<std::vector<T>, long double> law;
                    mcrng::for_all_draws([&] {
                        mc::exec();
                        const auto c = R::init_spatial_uniform(data.begin(), data.end(), dim, k);
                        mc::step();
                        if (c.size() != k * dim) return mc::fail("spatial", "wrong number of centroids: " + what());
                        for (std::size_t i = 0; i < c.size(); ++i) {
                            if (!(c[i] >= lo[i % dim] && c[i] <= hi[i % dim])) return mc::fail("spatial", "centroids " + mc::show(c) + " outside the box of the samples: " + what());
                            lo_seen[i] = std::min<double>(lo_seen[i], c[i]);
                            hi_seen[i] = std::max<double>(hi_seen[i], c[i]);
                        }
                        law[c] += mcrng::rng().weight;
                    });
                    for (std::size_t i = 0; i < k * dim; ++i) {
                        const double len = std::is_integral_v<T> ? 0 : (hi[i % dim] - lo[i % dim]) / 5;  // the outermost of 3 representatives
                        if (lo_seen[i] > lo[i % dim] + len || hi_seen[i] < hi[i % dim] - len) return mc::fail("spatial", "the centroids cannot reach the whole box: " + what());
                    }
                    if (std::is_integral_v<T> && exact()) {
                        double cells = 1;
                        for (std::size_t d = 0; d < dim; ++d) cells *= hi[d] - lo[d] + 1;
                        for (const auto& [c, p] : law)
                            if (std::fabs(double(p) * std::pow(cells, double(k)) - 1) > 1e-9) return mc::fail("spatial", "the centroids are not uniform over the box: " + what());
                    }
                    mc::outcome(mc::mix(law.size(), k));
                }, what);
            }
        });
}

// ------------------------------------------------------------------------------------------------ weighted selection
template <typename W>
void weighted(const std::string& name, std::size_t n_max, int w_max, double scale) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::tuples(n, w_max + 1, [&](const std::vector<int>& w) {
            if (!mc::take()) return;
            std::vector<W> weights;
            for (int v : w) weights.push_back(W(v * scale));
            const int sum  = std::accumulate(w.begin(), w.end(), 0);
            auto      what = [&] { return "weights " + mc::show(weights); };
            mc::sample(what);
            mc::guard("weighted", [&] {
                if (n == 1) {
                    bool refused = false;
                    try {
                        R::VosesAliasMethod<W> none(std::vector<W>{});
                    } catch (const std::invalid_argument&) {
                        refused = true;
                    }
                    if (!refused) return mc::fail("weighted", "a selection among no items is accepted");
                }
                mcrng::rng().real_grid = n * std::max(sum, 1);
                R::VosesAliasMethod<W> method(weights);
                const Law law = law_of([&] { return std::vector<int>{int(n <= 2 || w[0] % 2 ? method.sample() : method())}; }, true);
                for (const auto& [i, p] : law)
                    if (i[0] < 0 || i[0] >= int(n)) return mc::fail("weighted", "selects item " + std::to_string(i[0]) + ": " + what());
                if (sum == 0) return;
                for (std::size_t i = 0; i < n; ++i) {
                    const auto   at = law.find({int(i)});
                    const double p = at == law.end() ? 0 : double(at->second), want = double(w[i]) / sum;
                    if (exact() ? std::fabs(p - want) > 1e-9 : (p > 0) != (want > 0)) return mc::fail("weighted", "item " + std::to_string(i) + " is selected with probability " + std::to_string(p) + " instead of " + std::to_string(want) + ": " + what());
                }
                // a second run of the same object follows the same law
                if (exact() && law_of([&] { return std::vector<int>{int(method())}; }, true) != law) mc::fail("weighted", "the law changes with use: " + what());
            }, what);
        });
}
// rounding: weights that do not divide evenly; the law is judged up to the resolution of the draws
template <typename W>
void weighted_rounding(const std::string& name, std::size_t n_max, const std::vector<double>& values, std::size_t grid) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::tuples(n, values.size(), [&](const std::vector<int>& t) {
            if (!mc::take()) return;
            std::vector<W> weights;
            for (int v : t) weights.push_back(W(values[v]));
            double sum = 0;
            for (W v : weights) sum += double(v);
            auto what = [&] { std::string s = "weights"; char b[40]; for (W v : weights) { std::snprintf(b, sizeof b, " %.9g", double(v)); s += b; } return s; };
            mc::sample(what);
            mc::guard("weighted-rounding", [&] {
                mcrng::rng().real_grid = grid * n;
                R::VosesAliasMethod<W> method(weights);
                const Law law = law_of([&] { return std::vector<int>{int(method())}; }, true);
                for (const auto& [i, p] : law)
                    if (i[0] < 0 || i[0] >= int(n)) return mc::fail("weighted-rounding", "selects item " + std::to_string(i[0]) + ": " + what());
                if (sum == 0) return;
                for (std::size_t i = 0; i < n; ++i) {
                    const auto   at = law.find({int(i)});
                    const double p = at == law.end() ? 0 : double(at->second), want = double(weights[i]) / sum;
                    if (weights[i] == 0 && p > 0) return mc::fail("weighted-rounding", "item " + std::to_string(i) + " of weight zero is selected with probability " + std::to_string(p) + ": " + what());
                    if (exact() && std::fabs(p - want) > 1.0 / (grid * n)) return mc::fail("weighted-rounding", "item " + std::to_string(i) + " is selected with probability " + std::to_string(p) + " instead of " + std::to_string(want) + ": " + what());
                }
            }, what);
        });
}

// many items, weighted 0 to 4 in turn (the resolution of the draws then shows every probability exactly)
template <typename W>
void weighted_many(const std::string& name, const std::vector<std::size_t>& sizes) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (std::size_t turn : {1, 2, 3}) {
            if (!mc::take()) continue;
            std::vector<W> weights;
            for (std::size_t i = 0; i < n; ++i) weights.push_back(W(i * turn % 5));
            auto what = [&] { return std::to_string(n) + " items of weights 0 to 4, taking every " + std::to_string(turn); };
            mc::sample(what);
            mc::guard("weighted-many", [&] {
                mcrng::rng().real_grid = 2 * n;
                R::VosesAliasMethod<W> method(weights);
                std::vector<double>    law(n, 0);
                bool                   out = false;
                mcrng::rng().raw = 0;
                const auto runs  = mcrng::for_all_draws([&] {
                    const std::size_t i = method();
                    mc::exec();
                    mc::step();
                    if (i < n)
                        law[i] += double(mcrng::rng().weight);
                    else
                        out = true;
                });
                mc::outcome(mc::mix(runs, n));
                if (out) return mc::fail("weighted-many", "selects an item that does not exist: " + what());
                for (std::size_t i = 0; i < n; ++i)
                    if (exact() ? std::fabs(law[i] * 2 * n - double(weights[i])) > 1e-6 : (law[i] > 0) != (weights[i] > 0)) return mc::fail("weighted-many", "item " + std::to_string(i) + " is selected with probability " + std::to_string(law[i]) + " instead of " + std::to_string(double(weights[i]) / (2 * n)) + ": " + what());
            }, what);
        }
}
// one item of many holds all the weight, wherever it stands
template <typename W>
void weighted_one(const std::string& name, const std::vector<std::size_t>& sizes, std::size_t grid) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (std::size_t at : {std::size_t(0), std::size_t(1), n / 2, std::size_t(255), std::size_t(256), std::size_t(32768), std::size_t(65535), std::size_t(65536), n - 2, n - 1}) {
            if (at >= n || !mc::take()) continue;
            auto what = [&] { return "item " + std::to_string(at) + " of " + std::to_string(n) + " holds all the weight"; };
            mc::sample(what);
            mc::guard("weighted-one", [&] {
                std::vector<W> weights(n, W(0));
                weights[at]            = W(3);
                mcrng::rng().real_grid = grid;
                R::VosesAliasMethod<W> method(weights);
                std::size_t            wrong = at;
                const auto             runs  = mcrng::for_all_draws([&] {
                    const std::size_t i = method();
                    mc::exec();
                    mc::step();
                    if (i != at) wrong = i;
                });
                mc::outcome(mc::mix(runs, n));
                if (wrong != at) mc::fail("weighted-one", "item " + std::to_string(wrong) + " is selected: " + what());
            }, what);
        }
}

// ------------------------------------------------------------------------------------------------ careful seeding
using Visit = std::function<void(const std::vector<int>&)>;
template <typename T, bool Previous>
void plusplus(const std::string& name, std::size_t dim, int side, double scale, int shift, std::size_t n_min, std::size_t n_max, std::size_t k_max, std::size_t grid, std::size_t k_min = 1, bool ordered = true) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        (ordered ? gen::datasets<Visit> : gen::multisets<Visit>)(n, dim, side, [&](const std::vector<int>& x) {
            for (std::size_t k = k_min; k <= k_max; ++k) {
                if (!mc::take()) continue;
                std::vector<T> data;
                for (int v : x) data.push_back(T(scale * (v - shift)));
                auto what = [&] { return std::string("kmeans++ ") + (Previous ? "from the previous centre, " : "") + std::to_string(k) + " centres of " + mc::show(data) + " with " + std::to_string(dim) + " features"; };
                mc::sample(what);
                mc::guard("plusplus", [&] {
                    mcrng::rng().real_grid = grid * n;
                    // samples are identified by position: equal samples share the first one's number
                    auto id = [&](const T* row) {
                        for (std::size_t i = 0; i < n; ++i)
                            if (std::equal(row, row + dim, data.begin() + i * dim)) return int(i);
                        return -1;
                    };
                    bool      bad = false;
                    const Law law = law_of([&] {
                        const std::vector<T> c = Previous ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(data.begin(), data.end(), dim, k)
                                                          : ffcl::kmeansplusplus::make_centroids(data.begin(), data.end(), dim, k);
                        std::vector<int> out;
                        for (std::size_t i = 0; i + dim <= c.size(); i += dim) out.push_back(id(&c[i]));
                        if (c.size() != k * dim || std::count(out.begin(), out.end(), -1)) bad = true;
                        return out;
                    }, false);
                    if (bad) return mc::fail("plusplus", "the centres are not as many samples of the dataset: " + what());
                    // conditional law of each next centre
                    std::map<std::vector<int>, std::map<int, long double>> next;
                    for (const auto& [s, p] : law)
                        for (std::size_t i = 0; i < k; ++i) next[std::vector<int>(s.begin(), s.begin() + i)][s[i]] += p;
                    for (const auto& [prefix, choices] : next) {
                        long double total = 0;
                        for (const auto& [c, p] : choices) total += p;
                        std::vector<double> weight(n, 0);
                        double              sum = 0;
                        for (std::size_t i = 0; i < n; ++i) {
                            double d = prefix.empty() ? 1 : INFINITY;
                            for (std::size_t j = Previous && !prefix.empty() ? prefix.size() - 1 : 0; j < prefix.size(); ++j)
                                d = std::min(d, std::sqrt(double(gen::sq(&x[i * dim], &x[prefix[j] * dim], dim))));
                            weight[id(&data[i * dim])] += d;
                            sum += d;
                        }
                        if (sum == 0) continue;  // every sample is a centre already: any choice will do
                        for (std::size_t i = 0; i < n; ++i) {
                            const auto   at   = choices.find(int(i));
                            const double p    = at == choices.end() ? 0 : double(at->second / total);
                            const double want = weight[i] / sum;
                            if ((want == 0 && p > 0) || (exact() && std::fabs(p - want) > (prefix.empty() ? 1e-9 : 1.0 / (grid * n)) + 1e-9))
                                return mc::fail("plusplus", "after the centres " + mc::show(prefix) + " sample " + std::to_string(i) + " is chosen with probability " + std::to_string(p) + " instead of " + std::to_string(want) + ": " + what());
                        }
                    }
                }, what);
            }
        });
}

// ------------------------------------------------------------------------------------------------ uniform draws
template <typename T>
void uniform_draws(const std::string& name) {
    if (!mc::begin_space(name)) return;
    for (int lo = -4; lo <= 4; ++lo)
        for (int hi = lo; hi <= lo + 6; ++hi) {
            if (std::is_unsigned_v<T> && lo < 0) continue;
            if (!mc::take()) continue;
            auto what = [&] { return "uniform_distribution(" + std::to_string(lo) + ", " + std::to_string(hi) + ")"; };
            mc::guard("uniform", [&] {
                mcrng::rng().real_grid = 7;
                R::uniform_distribution<T> u(static_cast<T>(lo), static_cast<T>(hi));
                mcrng::rng().raw = 0;
                std::map<T, long double> law;
                mcrng::for_all_draws([&] { mc::exec(); const T v = u(); law[v] += mcrng::rng().weight; mc::step(); });
                for (const auto& [v, p] : law)
                    if (v < static_cast<T>(lo) || v > static_cast<T>(hi)) return mc::fail("uniform", "draws " + std::to_string(v) + ": " + what());
                if (std::is_integral_v<T>) {
                    if (law.size() != std::size_t(hi - lo + 1)) return mc::fail("uniform", "cannot draw every value: " + what());
                    for (const auto& [v, p] : law)
                        if (exact() && std::fabs(double(p) * (hi - lo + 1) - 1) > 1e-9) return mc::fail("uniform", "is not uniform: " + what());
                } else if (law.size() != (lo == hi ? 1u : 7u))
                    mc::fail("uniform", "is not uniform (" + std::to_string(law.size()) + " of 7 representatives): " + what());
                mc::outcome(law.size());
            }, what);
        }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    selections(S ? 4 : T ? 8 : 6);
    if (!S) longer_selections(T ? 60 : 40);
    sample_selections<float>("samples", S ? 3 : T ? 5 : 4);
    sample_selections<int>("samples-int", S ? 2 : T ? 5 : 4);
    spatial<float>("spatial", 1, 4, 3, S ? 2 : 3, S ? 2 : 3);
    spatial<float>("spatial-positive", 1, 4, -1, 3, 2);
    spatial<int>("spatial-int", 1, 4, 6, S ? 2 : 3, S ? 2 : 3);
    spatial<double>("spatial-plane", 2, 3, 2, 2, S ? 1 : T ? 3 : 2);
    if (!S) spatial<int>("spatial-plane-int", 2, 3, 4, T ? 3 : 2, 2);
    weighted<float>("weights", S ? 3 : T ? 5 : 4, S ? 3 : 4, 1);
    weighted<double>("weights-double", S ? 2 : T ? 5 : 4, S ? 2 : T ? 4 : 3, 0.125);
    weighted<int>("weights-int", S ? 2 : T ? 4 : 3, 4, 1);
    weighted<std::size_t>("weights-size", S ? 2 : 3, 3, 2);
    weighted<float>("weights-large", S ? 2 : 3, T ? 12 : 7, 1000);
    if (!S) weighted_rounding<float>("weights-rounding", T ? 6 : 5, {0, 0.1, 0.3, 0.7, 1}, 4);
    if (!S) weighted_rounding<double>("weights-rounding-double", T ? 6 : 5, {0, 0.1, 1.0 / 3, 0.7}, 4);
    if (!S) weighted_rounding<float>("weights-range", T ? 4 : 3, {0, 1e-6, 1, 1e6, 1.5, 3e-3}, 16);
    weighted_many<float>("weights-many", S ? std::vector<std::size_t>{10} : std::vector<std::size_t>{5, 10, 15, 20, 25, 30, 35, 40, 65, 130, 255, 260});
    if (!S) weighted_many<double>("weights-many-double", {5, 10, 20, 40, 260});
    if (!S) weighted_one<float>("weights-one", {2, 3, 9, 17, 33, 65, 100, 257, 1000, gen::kHuge}, 200);
    plusplus<float, false>("plusplus", 1, 4, 1, 2, 1, S ? 2 : T ? 4 : 3, 2, 12);
    plusplus<float, false>("plusplus-3", 1, S ? 2 : T ? 4 : 3, 0.5, 1, 2, 3, 3, S ? 1 : 4);
    plusplus<double, false>("plusplus-plane", 2, S ? 2 : 3, 1, 1, 2, S ? 2 : 3, 2, S ? 2 : T ? 12 : 6);
    plusplus<float, true>("previous", 1, S ? 2 : 4, 1, 2, 1, S ? 2 : T ? 4 : 3, 2, 12);
    plusplus<float, true>("previous-3", 1, S ? 2 : T ? 4 : 3, 0.5, 1, 2, 3, 3, S ? 1 : 4);
    if (!S) plusplus<float, false>("plusplus-4", 1, 3, 1, 1, 4, 4, 4, 1, 4);
    if (!S) plusplus<double, false>("plusplus-4-plane", 2, 2, 1, 0, 4, 4, 4, 1, 4, false);
    if (!S) plusplus<float, false>("plusplus-5", 1, T ? 5 : 3, 2, 1, 5, 5, 5, 1, 5, false);
    if (!S) plusplus<float, true>("previous-4", 1, 3, 1, 1, 4, 4, 4, 1, 4);
    if (!S && T) plusplus<float, true>("previous-5", 1, 5, 2, 1, 5, 5, 5, 1, 5, false);
    uniform_draws<int>("uniform-int");
    uniform_draws<std::size_t>("uniform-size");
    uniform_draws<float>("uniform-float");
    return 0;
}
MC_MAIN
