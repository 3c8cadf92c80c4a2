// C20: column statistics, extreme positions, transposes, translations and the numeric helpers against their definitions.
#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/common/Utils.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"

namespace S = ffcl::common::math::statistics;
namespace L = ffcl::common::math::linear_algebra;
namespace C = ffcl::common;

// ------------------------------------------------------------------------------------------------ column statistics
struct Column {
    double mean = 0, var_sum = 0, top = 0;
    std::size_t n = 0;
};
template <typename T>
Column column(const std::vector<T>& x, std::size_t dim, const std::vector<std::size_t>& rows, std::size_t f) {
    Column c;
    c.n = rows.size();
    for (auto r : rows) c.mean += double(x[r * dim + f]), c.top = std::max(c.top, std::fabs(double(x[r * dim + f])));
    c.mean /= c.n;
    for (auto r : rows) c.var_sum += std::pow(double(x[r * dim + f]) - c.mean, 2);
    return c;
}
// integer statistics are computed in the element type: the mean is rounded towards zero, the variance may be off by the
// rounding of the mean and of the division
// sums of many terms lose digits in proportion to their number
template <typename T>
double tolerance(std::size_t n) { return gen::precision<T>() * std::max(1.0, n / 100.0); }
template <typename T>
bool mean_ok(T got, const Column& c) {
    if (std::is_integral_v<T>) return double(got) == std::trunc(c.mean + (c.mean < 0 ? -1e-9 : 1e-9));
    return std::fabs(double(got) - c.mean) <= tolerance<T>(c.n) * c.top;
}
template <typename T>
bool var_ok(T got, const Column& c) {
    const double want = c.var_sum / (c.n - 1);
    if (std::is_integral_v<T> && want + 2 > double(std::numeric_limits<T>::max())) return true;  // no value of the type
    if (std::is_integral_v<T>) return double(got) >= want - 1 - 1e-9 && double(got) <= want + double(c.n) / (c.n - 1) + 1e-9;
    const double error = tolerance<T>(c.n);
    return std::fabs(double(got) - want) <= 2 * error * want + error * error * c.top * c.top;
}
template <typename T>
bool argmax_ok(std::size_t got, const std::vector<T>& x, std::size_t dim, const std::vector<std::size_t>& rows, const std::vector<std::size_t>& features) {
    if (std::find(features.begin(), features.end(), got) == features.end()) return false;
    double best = 0, top = 0;
    for (auto f : features) {
        const auto c = column(x, dim, rows, f);
        best         = std::max(best, c.var_sum);
        top          = std::max(top, c.top);
    }
    const double slack = std::is_integral_v<T> ? double(rows.size()) - 1e-9 : 10 * gen::precision<T>() * best + rows.size() * std::pow(gen::precision<T>() * top, 2);
    return column(x, dim, rows, got).var_sum >= best - slack;
}

template <typename T>
void check_columns(const std::vector<T>& x, std::size_t dim, const std::vector<std::vector<std::size_t>>& pools) {
    const std::size_t        n = x.size() / dim;
    std::vector<std::size_t> all(n), every(dim);
    std::iota(all.begin(), all.end(), 0);
    std::iota(every.begin(), every.end(), 0);
    auto what = [&] { return "samples " + mc::show(x) + " of " + std::to_string(dim) + " features"; };
    mc::guard("columns", [&] {
        mc::exec();
        const auto before = x;
        {
            const auto m = S::compute_mean_per_feature(x.begin(), x.end(), dim);
            if (m.size() != dim) return mc::fail("mean", "not one mean per feature: " + what());
            for (std::size_t f = 0; f < dim; ++f)
                if (!mean_ok<T>(m[f], column(x, dim, all, f))) return mc::fail("mean", "mean of feature " + std::to_string(f) + " is " + std::to_string(m[f]) + ": " + what());
            mc::step();
            if (n > 1) {
                const auto v = S::compute_variance_per_feature(x.begin(), x.end(), dim);
                if (v.size() != dim) return mc::fail("variance", "not one variance per feature: " + what());
                for (std::size_t f = 0; f < dim; ++f)
                    if (!var_ok<T>(v[f], column(x, dim, all, f))) return mc::fail("variance", "variance of feature " + std::to_string(f) + " is " + std::to_string(v[f]) + ": " + what());
                const auto a = S::argmax_variance_per_feature(x.begin(), x.end(), dim);
                if (!argmax_ok(a, x, dim, all, every)) return mc::fail("argmax-variance", "feature " + std::to_string(a) + " does not have the greatest variance: " + what());
                mc::step(2);
                if (dim == 1) {
                    const auto s = S::compute_variance(x.begin(), x.end());
                    if (!var_ok<T>(s, column(x, dim, all, 0))) return mc::fail("variance", "the variance is " + std::to_string(s) + ": " + what());
                    mc::step();
                }
            }
        }
        for (const auto& rows : pools) {
            auto where = [&] { return what() + ", indices " + mc::show(rows); };
            const auto m = S::compute_mean_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim);
            if (m.size() != dim) return mc::fail("mean", "not one mean per feature: " + where());
            for (std::size_t f = 0; f < dim; ++f)
                if (!mean_ok<T>(m[f], column(x, dim, rows, f))) return mc::fail("mean", "mean of feature " + std::to_string(f) + " is " + std::to_string(m[f]) + ": " + where());
            mc::step();
            if (rows.size() > 1) {
                const auto v = S::compute_variance_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim);
                if (v.size() != dim) return mc::fail("variance", "not one variance per feature: " + where());
                for (std::size_t f = 0; f < dim; ++f)
                    if (!var_ok<T>(v[f], column(x, dim, rows, f))) return mc::fail("variance", "variance of feature " + std::to_string(f) + " is " + std::to_string(v[f]) + ": " + where());
                const auto a = S::argmax_variance_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim);
                if (!argmax_ok(a, x, dim, rows, every)) return mc::fail("argmax-variance", "feature " + std::to_string(a) + " does not have the greatest variance: " + where());
                mc::step(2);
            }
            for (std::size_t bits = 1; bits < (std::size_t(1) << std::min<std::size_t>(dim, 4)); ++bits)
                for (bool reversed : {false, true}) {
                    std::vector<std::size_t> mask;
                    for (std::size_t f = 0; f < dim; ++f)
                        if (bits >> f & 1) mask.push_back(f);
                    if (reversed) {
                        if (mask.size() < 2) continue;
                        std::reverse(mask.begin(), mask.end());
                    }
                    auto masked = [&] { return where() + ", features " + mc::show(mask); };
                    const auto mm = S::compute_mean_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim, mask);
                    if (mm.size() != mask.size()) return mc::fail("mean", "not one mean per feature: " + masked());
                    for (std::size_t i = 0; i < mask.size(); ++i)
                        if (!mean_ok<T>(mm[i], column(x, dim, rows, mask[i]))) return mc::fail("mean", "mean of feature " + std::to_string(mask[i]) + " is " + std::to_string(mm[i]) + ": " + masked());
                    mc::step();
                    if (rows.size() < 2) continue;
                    const auto v = S::compute_variance_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim, mask);
                    if (v.size() != mask.size()) return mc::fail("variance", "not one variance per feature: " + masked());
                    for (std::size_t i = 0; i < mask.size(); ++i)
                        if (!var_ok<T>(v[i], column(x, dim, rows, mask[i]))) return mc::fail("variance", "variance of feature " + std::to_string(mask[i]) + " is " + std::to_string(v[i]) + ": " + masked());
                    const auto a = S::argmax_variance_per_feature(rows.begin(), rows.end(), x.begin(), x.end(), dim, mask);
                    if (!argmax_ok(a, x, dim, rows, mask)) return mc::fail("argmax-variance", "feature " + std::to_string(a) + " does not have the greatest variance: " + masked());
                    mc::step(2);
                }
        }
        if (x != before) mc::fail("columns", "the samples were modified: " + what());
        std::uint64_t h = dim;
        for (T v : x) h = mc::mix(h, std::uint64_t(std::int64_t(double(v) * 16)));
        mc::outcome(h);
    }, what);
}

template <typename T>
void columns(const std::string& name, std::size_t dim, int side, std::size_t n_min, std::size_t n_max, double scale, int shift) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& c) {
            if (!mc::take()) return;
            std::vector<T> x;
            for (int v : c) x.push_back(T(scale * (v - shift)));
            mc::sample([&] { return mc::show(x); });
            std::vector<std::vector<std::size_t>> pools;
            for (std::size_t bits = 1; bits < (std::size_t(1) << n); ++bits) {
                std::vector<std::size_t> rows;
                for (std::size_t r = n; r-- > 0;)
                    if (bits >> r & 1) rows.push_back(r);
                pools.push_back(rows);
            }
            pools.push_back({n - 1, 0, n - 1});  // a repeated sample
            check_columns(x, dim, pools);
        });
}

// ------------------------------------------------------------------------------------------------ sequences
template <typename T>
void check_sequence(std::vector<T> x) {
    auto what = [&] { return "sequence " + (x.size() < 20 ? mc::show(x) : "of " + std::to_string(x.size()) + " elements starting " + mc::show(std::vector<T>(x.begin(), x.begin() + 5))); };
    mc::guard("sequence", [&] {
        mc::exec();
        const auto before = x;
        auto       sorted = x;
        std::sort(sorted.begin(), sorted.end());
        const std::size_t n = x.size();
        auto index = [&](const char* sig, double i, T want) { if (!(i >= 0 && i < double(n) && x[std::size_t(i)] == want)) mc::fail(sig, std::string(sig) + " returns position " + std::to_string(i) + ": " + what()); mc::step(); };
        index("argmin", double(S::argmin(x.begin(), x.end())), sorted[0]);
        index("argmax", double(S::argmax(x.begin(), x.end())), sorted[n - 1]);
        const auto mn = S::get_min_index_value_pair(x.begin(), x.end());
        const auto mx = S::get_max_index_value_pair(x.begin(), x.end());
        index("min-pair", double(mn.first), sorted[0]);
        index("max-pair", double(mx.first), sorted[n - 1]);
        if (mn.second != sorted[0] || mx.second != sorted[n - 1]) mc::fail("pair", "wrong extreme value: " + what());
        const auto second = S::get_second_max_index_value_pair(x.begin(), x.end());
        const T    want   = n < 2 ? sorted[0] : sorted[n - 2];
        index("second-max", double(second.first), want);
        if (second.second != want) mc::fail("second-max", "the second largest value is given as " + std::to_string(second.second) + ": " + what());
        if (x != before) mc::fail("sequence", "the sequence was modified: " + what());
        for (std::size_t k = 1; k <= n; k += n < 20 ? 1 : 37) {
            const auto kth = S::find_nth_smallest_index_and_element(x.begin(), x.end(), k);
            index("nth-smallest", double(kth.first), sorted[k - 1]);
            if (kth.second != sorted[k - 1]) mc::fail("nth-smallest", "element " + std::to_string(k) + " in order is given as " + std::to_string(kth.second) + ": " + what());
        }
        double sum = 0;
        for (T v : x) sum += double(v);
        if (sum != 0) {
            const auto p = S::normalize<double>(x.begin(), x.end());
            const auto q = S::normalize<float>(x.begin(), x.end());
            for (std::size_t i = 0; i < n; ++i)
                if (p.size() != n || q.size() != n || std::fabs(p[i] - double(x[i]) / sum) > 1e-9 * (1 + std::fabs(p[i])) || std::fabs(q[i] - double(x[i]) / sum) > 1e-5 * (1 + std::fabs(p[i]))) return mc::fail("normalize", "the normalized sequence is " + mc::show(p) + ": " + what());
            mc::step(2);
        }
        const auto r = S::normalize_min_max(x.begin(), x.end());
        if (r.size() != n) return mc::fail("normalize-min-max", "wrong size: " + what());
        for (std::size_t i = 0; i < n; ++i) {
            const double want_r = sorted[0] == sorted[n - 1] ? 1.0 / n : 1 - (double(x[i]) - double(sorted[0])) / (double(sorted[n - 1]) - double(sorted[0]));
            if (!(std::fabs(r[i] - want_r) <= 1e-6)) return mc::fail("normalize-min-max", "the scores are " + mc::show(r) + ": " + what());
        }
        auto       left = x, right = x;
        const auto reversed = std::vector<T>(x.rbegin(), x.rend());
        S::min_container_inplace_left(left, reversed);
        for (std::size_t i = 0; i < n; ++i)
            if (left[i] != std::min(x[i], x[n - 1 - i])) return mc::fail("min-container", "wrong minimum: " + what());
        mc::step(2);
        mc::outcome(mc::mix(mn.first * 100 + mx.first, second.first));
    }, what);
}
template <typename T>
void sequences(const std::string& name, std::size_t n_max, int side, double scale, int shift, const std::vector<T>& extra) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::tuples(n, side + extra.size(), [&](const std::vector<int>& c) {
            if (!mc::take()) return;
            std::vector<T> x;
            for (int v : c) x.push_back(v < side ? T(scale * (v - shift)) : extra[v - side]);
            mc::sample([&] { return mc::show(x); });
            check_sequence(x);
        });
    // long sequences with the extreme elements at every position
    for (std::size_t n : {130, 300})
        for (std::size_t at = 0; at < n; at += 7)
            for (std::size_t at2 : {std::size_t(0), n / 2, n - 1}) {
                if (!mc::take()) continue;
                std::vector<T> x;
                for (std::size_t i = 0; i < n; ++i) x.push_back(T(20 + i * 7 % 11));
                x[at]  = T(100);
                x[at2] = T(2);
                check_sequence(x);
            }
}

// ------------------------------------------------------------------------------------------------ matrices
template <typename T>
void check_matrix(std::size_t rows, std::size_t cols) {
    auto what = [&] { return std::to_string(rows) + " x " + std::to_string(cols) + " matrix"; };
    mc::guard("transpose", [&] {
        std::vector<T> x;
        for (std::size_t i = 0; i < rows * cols; ++i) x.push_back(T(i * 5 % 251) - T(sizeof(T) > 1 ? 3 : 0) + T(i));
        const auto before = x;
        auto one = [&](auto&& f, const char* name) {
            mc::exec();
            const auto [t, r, c] = f(x.begin(), x.end(), cols);
            mc::step();
            if (r != cols || c != rows || t.size() != x.size()) return mc::fail("transpose", std::string(name) + " returns the wrong shape: " + what());
            for (std::size_t i = 0; i < rows; ++i)
                for (std::size_t j = 0; j < cols; ++j)
                    if (t[j * rows + i] != x[i * cols + j]) return mc::fail("transpose", std::string(name) + " misplaces entry (" + std::to_string(i) + ", " + std::to_string(j) + "): " + what());
            const auto [back, br, bc] = f(t.begin(), t.end(), c);
            mc::step();
            if (br != rows || bc != cols || back != x) return mc::fail("transpose", std::string(name) + " applied twice does not restore the matrix: " + what());
        };
        one([](auto a, auto b, std::size_t n) { return L::transpose(a, b, n); }, "transpose");
        one([](auto a, auto b, std::size_t n) { return L::transpose_sequential(a, b, n); }, "transpose_sequential");
        one([](auto a, auto b, std::size_t n) { return L::transpose_parallel_openmp(a, b, n); }, "transpose_parallel_openmp");
        if (x != before) mc::fail("transpose", "the matrix was modified: " + what());
        mc::outcome(rows * 1000 + cols);
    }, what);
}

// ------------------------------------------------------------------------------------------------ helpers
template <typename T>
T num(int v) { return std::is_integral_v<T> ? T(v) : T(v * 0.5); }

template <typename T>
void check_helpers(const std::string& name, int lo, int hi) {
    if (!mc::begin_space(name)) return;
    for (int a = lo; a <= hi; ++a)
        for (int b = lo; b <= hi; ++b) {
            if (!mc::take()) continue;
            auto what = [&] { return "arguments " + std::to_string(num<T>(a)) + " and " + std::to_string(num<T>(b)); };
            mc::guard("helpers", [&] {
                mc::exec();
                mc::step(7);
                const T x = num<T>(a), y = num<T>(b);
                if (C::abs(x) != num<T>(std::abs(a))) mc::fail("abs", "wrong absolute value: " + what());
                if (C::equality(x, y) != (a == b) || C::inequality(x, y) != (a != b)) mc::fail("equality", "wrong comparison: " + what());
                if (!std::is_integral_v<T>) {
                    const T tiny = std::numeric_limits<T>::epsilon() / 2;
                    if (!C::equality(T(0.25), T(T(0.25) + tiny)) || C::equality(T(0.25), T(T(0.25) + 8 * tiny))) mc::fail("equality", "wrong tolerance");
                }
                const auto q = C::division(x, y, T(7));
                if (q != (b == 0 ? T(7) : T(x / y))) mc::fail("division", "wrong quotient: " + what());
                if (b == 0 && C::division(x, y) != T(0)) mc::fail("division", "wrong default: " + what());
                if (a <= b) {
                    const double mid = (double(x) + double(y)) / 2;
                    const auto   m   = C::compute_center_with_left_rounding(x, y);
                    if (double(m) != (std::is_integral_v<T> ? std::floor(mid) : mid)) mc::fail("center", "the centre is " + std::to_string(m) + ": " + what());
                    const auto s = C::compute_size_from_center_with_left_rounding(x, y);
                    if (double(s) != (std::is_integral_v<T> ? 1 + double(y) - std::floor(mid) : (double(y) - double(x)) / 2)) mc::fail("center", "the size is " + std::to_string(s) + ": " + what());
                }
                mc::outcome(std::uint64_t(double(q) * 64 + 100000));
            }, what);
        }
}

static void check_containers(std::size_t n_max, int side) {
    if (!mc::begin_space("containers")) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::tuples(2 * n, side, [&](const std::vector<int>& v) {
            if (!mc::take()) return;
            const std::vector<int> a(v.begin(), v.begin() + n), b(v.begin() + n, v.end());
            auto what = [&] { return mc::show(a) + " and " + mc::show(b); };
            mc::guard("containers", [&] {
                mc::exec();
                mc::step(9);
                std::size_t same = 0;
                for (std::size_t i = 0; i < n; ++i) same += a[i] == b[i];
                if (C::are_containers_equal(a, b) != (a == b) || C::are_containers_equal(a.begin(), a.end(), b.begin()) != (a == b)) mc::fail("containers-equal", "wrong comparison: " + what());
                const auto fa = C::to_type<float>(a.begin(), a.end());
                const auto fb = C::to_type<float>(b.begin(), b.end());
                for (std::size_t i = 0; i < n; ++i)
                    if (fa.size() != n || fa[i] != float(a[i])) return mc::fail("to-type", "wrong conversion: " + what());
                if (C::to_type<int>(fa.begin(), fa.end()) != a || C::to_type<int>(a.begin(), a.end()) != a) mc::fail("to-type", "wrong conversion: " + what());
                if (C::are_containers_equal(fa, fb) != (a == b)) mc::fail("containers-equal", "wrong comparison: " + what());
                float far = 0;
                for (std::size_t i = 0; i < n; ++i) far = std::max(far, std::fabs(fa[i] - fb[i]));
                for (float tol : {0.5f, 1.5f})
                    if (C::are_containers_equal(fa, fb, tol) != (far <= tol)) mc::fail("containers-equal", "wrong tolerance: " + what());
                auto longer = a;
                longer.push_back(0);
                if (C::are_containers_equal(a, longer) || C::are_containers_equal(longer, a)) mc::fail("containers-equal", "different sizes are equal: " + what());
                if (C::count_matches(a.begin(), a.end(), b.begin()) != same) mc::fail("count-matches", "wrong count: " + what());
                for (int value = 0; value < side; ++value) {
                    std::size_t want = 0;
                    for (std::size_t i = 0; i < n; ++i) want += a[i] == value && b[i] == value;
                    if (C::count_matches_for_value(a.begin(), a.end(), b.begin(), value) != want) mc::fail("count-matches", "wrong count: " + what());
                    const bool in = std::count(a.begin(), a.end(), value) > 0;
                    if (C::is_element_in(a.begin(), a.end(), value) != in || C::is_element_not_in(a.begin(), a.end(), value) == in) mc::fail("element-in", "wrong membership: " + what());
                    std::vector<std::pair<int, int>> pairs;
                    for (std::size_t i = 0; i < n; ++i) pairs.push_back({a[i], b[i]});
                    if (C::is_element_in_first(pairs.begin(), pairs.end(), value) != in || C::is_element_not_in_first(pairs.begin(), pairs.end(), value) == in) mc::fail("element-in", "wrong membership: " + what());
                }
                // translation of b by a
                const auto t = L::translate_right_range_to_origin(a.begin(), a.end(), b.begin(), b.end());
                for (std::size_t i = 0; i < n; ++i)
                    if (t.size() != n || t[i] != b[i] - a[i]) return mc::fail("translate", "wrong translation: " + what());
                mc::outcome(same * 100 + n);
            }, what);
        });
}

static void check_permutations(std::size_t n_max) {
    if (!mc::begin_space("permutations")) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::permutations(n, [&](const std::vector<std::size_t>& p) {
            for (std::size_t dim = 1; dim <= 3; ++dim) {
                if (!mc::take()) continue;
                auto what = [&] { return "permutation " + mc::show(p) + " of " + std::to_string(dim) + " features"; };
                mc::guard("permutation", [&] {
                    mc::exec();
                    mc::step(2);
                    std::vector<float> x;
                    for (std::size_t i = 0; i < n * dim; ++i) x.push_back(float(i) + 0.5f);
                    const auto y = C::remap_ranges_from_indices(p, x, dim);
                    if (y.size() != x.size()) return mc::fail("permutation", "wrong size: " + what());
                    for (std::size_t i = 0; i < n; ++i)
                        for (std::size_t f = 0; f < dim; ++f)
                            if (y[i * dim + f] != x[p[i] * dim + f]) return mc::fail("permutation", "row " + std::to_string(i) + " is wrong: " + what());
                    const std::vector<float> v(x.begin(), x.begin() + n);
                    const auto               z = C::permutation_from_indices(p, v);
                    for (std::size_t i = 0; i < n; ++i)
                        if (z.size() != n || z[i] != v[p[i]]) return mc::fail("permutation", "element " + std::to_string(i) + " is wrong: " + what());
                    if (C::get_n_samples(x.begin(), x.end(), dim) != n) mc::fail("n-samples", "wrong number of samples: " + what());
                    bool threw = false;
                    try {
                        C::permutation_from_indices(p, std::vector<float>(n + 1));
                    } catch (const std::invalid_argument&) {
                        threw = true;
                    }
                    if (!threw) mc::fail("permutation", "sizes that do not match are accepted: " + what());
                    for (int rows : {-1, 1}) {
                        if (rows < 0 && n == 1) continue;
                        threw = false;
                        try {
                            C::remap_ranges_from_indices(p, std::vector<float>((n + rows) * dim), dim);
                        } catch (const std::invalid_argument&) {
                            threw = true;
                        }
                        if (!threw) mc::fail("permutation", "a matrix with another number of rows is accepted: " + what());
                    }
                    mc::outcome(mc::mix(n, std::uint64_t(y[0])));
                }, what);
            }
        });
}

int mc::explore() {
    const bool T = mc::thorough(), A = mc::san();
    columns<float>("line", 1, 4, 1, A ? 3 : T ? 7 : 6, 0.5, 2);
    columns<float>("plane", 2, 3, 1, A ? 2 : T ? 6 : 5, 1, 1);
    columns<double>("space", 3, 2, 1, A ? 2 : T ? 6 : 5, 3, 1);
    columns<double>("space-3", 3, 3, 1, A ? 1 : T ? 4 : 3, 1, 0);
    columns<int>("line-int", 1, 5, 1, A ? 3 : T ? 7 : 6, 3, 2);
    columns<int>("plane-int", 2, 4, 1, A ? 2 : T ? 5 : 4, 5, 2);
    columns<unsigned>("plane-unsigned", 2, 3, 1, A ? 2 : T ? 5 : 4, 7, 0);
    if (!A) columns<long>("line-long", 1, 4, 1, 5, 1000003, 3);
    if (!A) columns<std::uint8_t>("narrow", 1, 4, 1, 6, 5, -40);
    if (!A) columns<std::uint8_t>("narrow-plane", 2, 3, 1, 4, 30, -5);
    if (!A) columns<std::int16_t>("narrow-16", 2, 3, 1, 4, 9000, 1);
    if (!A) columns<int>("wide-int", 2, 3, 1, 4, 700000000, 1);
    if (!A) columns<float>("far", 2, 3, 2, 3, 8, -1000);
    if (!A) columns<double>("far-double", 2, 3, 2, 3, 1, -(1 << 30));
    if (!A) columns<float>("far-float", 1, 4, 2, 5, 1, -(1 << 16));
    if (mc::begin_space("structured"))
        for (std::size_t n : {30, 101})
            for (std::size_t dim : {1, 2, 4})
                gen::lattice(n, dim, {1, 3, 7, 12}, {1, 5}, {0, 1, 2}, {17, 41, 97}, [&](const std::vector<int>& c) {
                    if (!mc::take()) return;
                    std::vector<std::vector<std::size_t>> pools(3);
                    for (std::size_t i = 0; i < n; ++i) {
                        if (i % 3 == 1) pools[0].push_back(i);
                        if (i > n / 2) pools[1].push_back(n - 1 - (i - n / 2));
                        pools[2].push_back((i * 7) % n);
                    }
                    std::vector<float> x;
                    std::vector<int>   xi;
                    for (int v : c) x.push_back(0.5f * (v - 20)), xi.push_back(4 * (v - 30));
                    check_columns(x, dim, pools);
                    check_columns(xi, dim, pools);
                });
    if (!A && mc::begin_space("sizes"))
        for (std::size_t dim : {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 300})
            for (auto n : dim < 3 ? gen::every(1, T ? 200 : 130, gen::kHuge) : std::vector<std::size_t>{1, 2, 7, 8, 16, 33})
                gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& c) {
                    if (!mc::take()) return;
                    std::vector<std::vector<std::size_t>> pools(2);
                    for (std::size_t i = 0; i < n; ++i) {
                        if (i % 3 == 0) pools[0].push_back(n - 1 - i);
                        pools[1].push_back((i + n / 3) % n);
                    }
                    std::vector<float>  x;
                    std::vector<double> xd;
                    std::vector<int>    xi;
                    for (int v : c) x.push_back(0.5f * (v - 20)), xi.push_back(4 * (v - 30)), xd.push_back(v / 8.0);
                    if (n < gen::kHuge) check_columns(x, dim, pools);  // beyond the precision of float
                    check_columns(xd, dim, pools);
                    check_columns(xi, dim, pools);
                });
    if (!A && mc::begin_space("sequence-sizes"))
        for (std::size_t n = 1; n <= (T ? 130 : 70); ++n)
            for (std::size_t at = 0; at < n; ++at) {
                if (!mc::take()) continue;
                for (int m : {3, 11, 101}) {
                    std::vector<float> x;
                    std::vector<int>   y;
                    for (std::size_t i = 0; i < n; ++i) x.push_back(1 + static_cast<float>((i * i + 7 * i) % m)), y.push_back(-3 - static_cast<int>((i * i + 5 * i) % m));
                    x[at] = 200;
                    y[at] = at % 2 ? -400 : 400;
                    check_sequence(x);
                    check_sequence(y);
                }
            }
    sequences<float>("sequence", A ? 4 : T ? 8 : 7, 4, 0.5, 2, {});
    sequences<int>("sequence-int", A ? 3 : T ? 8 : 7, 3, 1, 1, {std::numeric_limits<int>::lowest() / 2});
    sequences<double>("sequence-extreme", A ? 3 : 5, 3, 1, 1, {std::numeric_limits<double>::lowest(), -1e300});
    sequences<std::uint8_t>("sequence-byte", A ? 3 : T ? 7 : 6, 3, 1, 0, {255});
    sequences<std::int8_t>("sequence-small", A ? 3 : 5, 3, 1, 1, {});
    if (mc::begin_space("transpose")) {
        const std::size_t top = A ? 6 : T ? 41 : 40;
        std::vector<std::size_t> sizes(top);
        std::iota(sizes.begin(), sizes.end(), 1);
        for (std::size_t s : {63, 64, 65, 127, 128, 129, 200}) sizes.push_back(s);
        for (std::size_t r : sizes)
            for (std::size_t c : sizes) {
                if (A && r > 65 && c > 65) continue;
                if (!mc::take()) continue;
                check_matrix<float>(r, c);
                check_matrix<int>(r, c);
                check_matrix<std::uint8_t>(r, c);
            }
    }
    check_helpers<int>("helpers-int", -12, 12);
    check_helpers<float>("helpers-float", -12, 12);
    check_helpers<double>("helpers-double", -12, 12);
    check_helpers<unsigned>("helpers-unsigned", 0, 20);
    check_helpers<long>("helpers-long", -8, 8);
    check_containers(A ? 2 : T ? 6 : 5, 3);
    check_permutations(A ? 3 : T ? 9 : 8);
    return 0;
}
MC_MAIN
