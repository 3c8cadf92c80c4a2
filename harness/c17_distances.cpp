// C17: metrics against their definition; distance matrices against the metrics.
#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"

#include <cmath>
#include <functional>
#include <list>

namespace H = ffcl::common::math::heuristics;

static bool same(long double a, long double b, long double tol) { return a == b || std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)); }

template <typename T>
long double tolerance() { return std::is_integral_v<T> ? 0 : 8 * (long double)std::numeric_limits<T>::epsilon(); }

struct Def {
    long double l1 = 0, l2 = 0, dot = 0, a = 0, b = 0, a1 = 0;
};
template <typename T>
Def define(const std::vector<T>& x, const std::vector<T>& y) {
    Def d;
    for (std::size_t f = 0; f < x.size(); ++f) {
        const long double u = x[f], v = y[f];
        d.l1 += std::fabs(u - v), d.l2 += (u - v) * (u - v), d.dot += u * v, d.a += u * u, d.b += v * v, d.a1 += std::fabs(u);
    }
    return d;
}

template <typename T>
void check_pair(const std::vector<T>& x, const std::vector<T>& y) {
    const auto tol = tolerance<T>();
    const Def  d   = define(x, y);
    auto what = [&](const char* m, long double got, long double want) {
        mc::fail(m, std::string(m) + " of " + mc::show(x) + " and " + mc::show(y) + " is " + std::to_string((double)got) + " instead of " + std::to_string((double)want));
    };
    auto eq = [&](const char* m, auto got, long double want) {
        mc::step();
        if (!same(got, want, tol)) what(m, got, want);
    };
    mc::exec();
    const auto a = x.begin(), b = x.end(), c = y.begin(), e = y.end();
    if constexpr (std::is_floating_point_v<T>) {
        eq("squared_euclidean_distance", H::squared_euclidean_distance(a, b, c, e), d.l2);
        eq("euclidean_distance", H::euclidean_distance(a, b, c, e), std::sqrt(d.l2));
        eq("manhattan_distance", H::manhattan_distance(a, b, c, e), d.l1);
        eq("squared_euclidean_distance_from_origin", H::squared_euclidean_distance_from_origin(a, b), d.a);
        eq("euclidean_distance_from_origin", H::euclidean_distance_from_origin(a, b), std::sqrt(d.a));
        eq("manhattan_distance_from_origin", H::manhattan_distance_from_origin(a, b), d.a1);
        eq("auto_distance", H::auto_distance(a, b, c, e), std::sqrt(d.l2));
        eq("auto_distance_from_origin", H::auto_distance_from_origin(a, b), std::sqrt(d.a));
        const long double cosine = H::cosine_similarity(a, b, c, e);
        if (d.a > 0 && d.b > 0) {
            const long double want = d.dot / (std::sqrt(d.a) * std::sqrt(d.b));
            mc::step();
            if (!(std::fabs(cosine - want) <= 8 * tol)) what("cosine_similarity", cosine, want);
        } else if (!std::isinf((double)cosine))
            what("cosine_similarity", cosine, INFINITY);
        if (H::auto_distance(a, b, c, e) != H::auto_distance(c, e, a, b)) mc::fail("symmetry", "the distance of " + mc::show(x) + " and " + mc::show(y) + " depends on the order");
        if ((x == y) != (H::auto_distance(a, b, c, e) == 0)) mc::fail("identity", "the distance of " + mc::show(x) + " and " + mc::show(y) + " is wrongly zero or not zero");
    } else if constexpr (std::is_signed_v<T>) {
        eq("manhattan_distance", H::manhattan_distance(a, b, c, e), d.l1);
        eq("manhattan_distance_from_origin", H::manhattan_distance_from_origin(a, b), d.a1);
        eq("auto_distance", H::auto_distance(a, b, c, e), d.l1);
        eq("auto_distance_from_origin", H::auto_distance_from_origin(a, b), d.a1);
    } else {
        eq("unsigned_manhattan_distance", H::unsigned_manhattan_distance(a, b, c, e), d.l1);
        eq("unsigned_manhattan_distance_from_origin", H::unsigned_manhattan_distance_from_origin(a, b), d.a1);
        eq("auto_distance", H::auto_distance(a, b, c, e), d.l1);
        eq("auto_distance_from_origin", H::auto_distance_from_origin(a, b), d.a1);
    }
    mc::outcome(mc::mix(std::uint64_t(d.l1 * 1024), std::uint64_t(d.l2 * 1024)));
}

template <typename T>
void pairs(const std::string& name, std::size_t dim, const std::vector<T>& values) {
    if (!mc::begin_space(name)) return;
    std::vector<std::vector<T>> pts;
    gen::tuples(dim, values.size(), [&](const std::vector<int>& t) {
        std::vector<T> p;
        for (int i : t) p.push_back(values[i]);
        pts.push_back(p);
    });
    for (auto& x : pts) {
        if (!mc::take()) continue;
        mc::guard("metric", [&] {
            for (auto& y : pts) {
                check_pair(x, y);
                if (pts.size() > 130) continue;
                for (auto& z : pts) {
                    const double xy = H::auto_distance(x.begin(), x.end(), y.begin(), y.end()), xz = H::auto_distance(x.begin(), x.end(), z.begin(), z.end()), zy = H::auto_distance(z.begin(), z.end(), y.begin(), y.end());
                    mc::step();
                    if (xy > (xz + zy) * (1 + 1e-6)) mc::fail("triangle", "the detour from " + mc::show(x) + " to " + mc::show(y) + " over " + mc::show(z) + " is shorter");
                }
            }
        }, [&] { return "distances from " + mc::show(x); });
    }
}

// vectors of every length: a few patterns, and each of them changed in each single coordinate
template <typename T>
void lengths(const std::string& name, std::size_t n_max, double scale) {
    if (!mc::begin_space(name)) return;
    for (auto n : n_max ? gen::every(1, n_max, n_max < 70 ? 0 : 513) : std::vector<std::size_t>{gen::kHuge}) {
        if (!mc::take()) continue;
        std::vector<std::vector<T>> base, pts;
        for (int m : {1, 2, 3, 7}) {
            std::vector<T> p;
            for (std::size_t i = 0; i < n; ++i) p.push_back(static_cast<T>(scale * static_cast<double>((i * i + 5 * i) % m)));
            base.push_back(p);
        }
        pts = base;
        for (auto& b : base)
            for (std::size_t i = 0; i < n; i += n < gen::kHuge ? 1 : 6600) pts.push_back(b), pts.back()[i] = static_cast<T>(pts.back()[i] + scale * (1 + i % 5));
        mc::guard("metric", [&] {
            for (auto& x : base)
                for (auto& y : pts) check_pair(x, y), check_pair(y, x);
        }, [&] { return "distances of vectors of length " + std::to_string(n); });
    }
}

template <typename T>
void matrices(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_max, double scale, double shift, bool large = false) {
    if (!mc::begin_space(name)) return;
    auto check = [&](const std::vector<int>& x) {
        if (!mc::take()) return;
        std::vector<T> data;
        for (int v : x) data.push_back(static_cast<T>(scale * (v - shift)));
        mc::guard("matrix", [&] {
            const std::size_t n = data.size() / dim;
            using It            = typename std::vector<T>::iterator;
            const ffcl::datastruct::PairwiseDistanceMatrix<It>        a(data.begin(), data.end(), dim), b(std::make_tuple(data.begin(), data.end(), dim));
            const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> c(data.begin(), data.end(), dim), d(std::make_tuple(data.begin(), data.end(), dim));
            const auto copy = a;
            mc::exec(4);
            auto what = [&] { return "samples " + mc::show(data) + " of " + std::to_string(dim) + " features"; };
            auto size = [&](const auto& m, const char* kind) {
                if (m.n_rows() != n || m.n_columns() != n) mc::fail("matrix", std::string(kind) + " matrix has the wrong size: " + what());
            };
            size(a, "precomputed"), size(b, "precomputed"), size(c, "on demand"), size(d, "on demand");
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) {
                    const std::vector<T> p(data.begin() + i * dim, data.begin() + (i + 1) * dim), q(data.begin() + j * dim, data.begin() + (j + 1) * dim);
                    const Def         def  = define(p, q);
                    const long double want = std::is_integral_v<T> ? def.l1 : std::sqrt(def.l2);
                    const auto v = a(i, j);
                    mc::step(5);
                    if (!same(v, want, tolerance<T>())) return mc::fail("matrix", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + std::to_string((double)v) + " instead of " + std::to_string((double)want) + ": " + what());
                    if (v != a(j, i) || v != b(i, j) || v != copy(i, j) || v != c(i, j) || v != d(j, i)) return mc::fail("matrix", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") differs between the kinds of matrices or with its mirror: " + what());
                }
            mc::outcome(mc::mix(x.front(), n));
        }, [&] { return "matrix of " + mc::show(data); });
    };
    if (large) {
        for (std::size_t n : {17, 64, 129}) gen::lattice(n, dim, {1, 3, 7}, {1, 5}, {0, 1, 2}, {17, 41}, check);
        for (std::size_t n = 1; n <= 130; ++n) gen::lattice(n, dim, {3}, {5}, {1}, {41}, check);
        return;
    }
    for (std::size_t n = 1; n <= n_max; ++n) gen::datasets(n, dim, side, check);
}

// every pair of words up to a length
template <typename T>
void words(const std::string& name, std::size_t letters, std::size_t len) {
    if (!mc::begin_space(name)) return;
    std::vector<std::vector<T>> w;
    for (std::size_t l = 0; l <= len; ++l)
        gen::tuples(l, letters, [&](const std::vector<int>& t) { w.emplace_back(t.begin(), t.end()); });
    for (auto& x : w) {
        if (!mc::take()) continue;
        mc::guard("levenshtein", [&] {
            for (auto& y : w) {
                // by definition: full recursion with memory over suffixes
                std::vector<std::vector<int>> memo(x.size() + 1, std::vector<int>(y.size() + 1, -1));
                std::function<int(std::size_t, std::size_t)> lev = [&](std::size_t i, std::size_t j) -> int {
                    if (i == x.size()) return y.size() - j;
                    if (j == y.size()) return x.size() - i;
                    if (memo[i][j] >= 0) return memo[i][j];
                    return memo[i][j] = x[i] == y[j] ? lev(i + 1, j + 1) : 1 + std::min({lev(i + 1, j), lev(i, j + 1), lev(i + 1, j + 1)});
                };
                mc::exec();
                mc::step();
                const auto got = H::levenshtein_distance(x.begin(), x.end(), y.begin(), y.end());
                if ((long long)got != lev(0, 0)) mc::fail("levenshtein", "the edit distance of " + mc::show(std::vector<int>(x.begin(), x.end())) + " and " + mc::show(std::vector<int>(y.begin(), y.end())) + " is " + std::to_string((long long)got) + " instead of " + std::to_string(lev(0, 0)));
                mc::outcome(mc::mix(got, x.size()) + y.size());
            }
        }, [&] { return "edit distances of a word of length " + std::to_string(x.size()); });
    }
}

// longer words: a pattern against itself after one or two edits at every position, and against other patterns
template <typename T>
void long_words(const std::string& name, std::size_t len) {
    if (!mc::begin_space(name)) return;
    auto pattern = [](std::size_t l, int m) {
        std::vector<T> w;
        for (std::size_t i = 0; i < l; ++i) w.push_back(static_cast<T>((i * i + i) % m));
        return w;
    };
    for (std::size_t l = 1; l <= len; ++l)
        for (int m : {1, 3, 5, 11}) {
            if (!mc::take()) continue;
            const auto x = pattern(l, m);
            mc::guard("levenshtein", [&] {
                std::vector<std::vector<T>> w;
                for (std::size_t i = 0; i < l; ++i) {
                    w.push_back(x), w.back().erase(w.back().begin() + i);
                    w.push_back(x), w.back().insert(w.back().begin() + i, T(12));
                    w.push_back(x), w.back()[i] = T(13);
                    w.push_back(w.back()), w.back().erase(w.back().begin() + (i + l / 2) % l);
                    w.push_back(x), std::swap(w.back()[i], w.back()[(i + 1) % l]);
                }
                for (std::size_t k : {std::size_t(0), l / 2, l, 2 * l})
                    for (int o : {2, 3, 7}) w.push_back(pattern(k, o));
                for (auto& y : w)
                    for (int turn = 0; turn < 2; ++turn) {
                        const auto &a = turn ? y : x, &b = turn ? x : y;
                        std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
                        for (std::size_t i = a.size() + 1; i-- > 0;)
                            for (std::size_t j = b.size() + 1; j-- > 0;)
                                d[i][j] = i == a.size() ? int(b.size() - j) : j == b.size() ? int(a.size() - i) : a[i] == b[j] ? d[i + 1][j + 1] : 1 + std::min({d[i + 1][j], d[i][j + 1], d[i + 1][j + 1]});
                        const auto got = H::levenshtein_distance(a.begin(), a.end(), b.begin(), b.end());
                        mc::exec();
                        mc::step();
                        if ((long long)got != d[0][0]) mc::fail("levenshtein", "the edit distance of " + mc::show(std::vector<int>(a.begin(), a.end())) + " and " + mc::show(std::vector<int>(b.begin(), b.end())) + " is " + std::to_string((long long)got) + " instead of " + std::to_string(d[0][0]));
                        mc::outcome(mc::mix(got, a.size()) + b.size());
                    }
            }, [&] { return "edit distances of words of length " + std::to_string(l); });
        }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    pairs<float>("float-1d", 1, {-1e6f, -3.5f, -1, -0.25f, 0, 1e-4f, 0.5f, 1, 2, 3, 7.25f, 1e5f});
    pairs<double>("double-1d", 1, {-1e9, -3.5, -1, -0.25, 0, 1e-9, 0.5, 1, 2, 3, 7.25, 1e7});
    pairs<int>("int-1d", 1, {-1000000000, -7, -2, -1, 0, 1, 2, 3, 1000000000});
    pairs<unsigned>("unsigned-1d", 1, {0, 1, 2, 3, 7, 4000000000u});
    pairs<std::uint8_t>("byte-1d", 1, {0, 1, 2, 100, 255});
    pairs<short>("short-2d", 2, {-3000, -1, 0, 2, 10000});
    pairs<long long>("long-2d", 2, {-4000000000ll, -1, 0, 2, 5000000000ll});
    pairs<float>("float-2d", 2, {-3.5f, -1, 0, 0.5f, 2, 1000});
    pairs<double>("double-3d", 3, {-2, 0, 0.5, 1e3});
    pairs<int>("int-2d", 2, {-7, -1, 0, 2, 5});
    pairs<unsigned>("unsigned-2d", 2, {0, 1, 3, 7});
    pairs<int>("int-5d", S ? 3 : 5, {-2, 0, 1});
    pairs<float>("float-5d", S ? 3 : 5, {-2, 0.5f, 1});
    if (T) pairs<float>("float-7d", 7, {-2, 0.5f, 1});
    if (T) pairs<int>("int-7d", 7, {-2, 0, 1});
    lengths<float>("lengths-float", S ? 9 : 70, 0.5);
    lengths<double>("lengths-double", S ? 9 : 70, 1);
    lengths<int>("lengths-int", S ? 9 : 70, 3);
    if (!S) lengths<double>("huge-lengths", 0, 1);
    if (!S) lengths<int>("huge-lengths-int", 0, 3);
    lengths<std::uint8_t>("lengths-byte", S ? 9 : 9, 1);
    matrices<float>("matrix", 1, 5, S ? 3 : 5, 0.75, 2);
    matrices<int>("matrix-int", 1, 5, S ? 3 : 5, 3, 2);
    matrices<float>("matrix-2d", 2, 3, S ? 2 : 4, 0.75, 1);
    if (!S) matrices<double>("matrix-3d", 3, 2, T ? 6 : 5, 0.75, 1);
    matrices<float>("matrix-large", 2, 0, 0, 0.5, 9, true);
    if (!S) matrices<int>("matrix-large-int", 3, 0, 0, 2, 9, true);
    long_words<char>("long-words", S ? 9 : 40);
    if (!S) for (std::size_t dim : {5, 8, 9, 16, 17, 33}) matrices<float>("matrix-large-" + std::to_string(dim), dim, 0, 0, 0.5, 9, true);
    words<char>("words", 2, S ? 4 : T ? 9 : 8);
    words<int>("words-3", 3, S ? 3 : T ? 7 : 6);
    words<std::uint8_t>("words-byte", 4, S ? 2 : 4);
    return 0;
}
MC_MAIN
