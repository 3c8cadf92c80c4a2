// Enumerated dataset families shared by the search harnesses: f(points, dim, index order) is called for every member.
#pragma once
#include "trees.hpp"

namespace th {

inline std::vector<std::vector<int>> grid(std::size_t dim, int lo, int hi, int stride = 1) {
    std::vector<std::vector<int>> r;
    const int                     side = (hi - lo) / stride + 1;
    gen::tuples(dim, side, [&](const std::vector<int>& t) {
        std::vector<int> q;
        for (int v : t) q.push_back(lo + v * stride);
        r.push_back(q);
    });
    return r;
}
inline std::vector<std::size_t> upto(std::size_t n) {
    std::vector<std::size_t> r;
    for (std::size_t k = 1; k <= n + 1; ++k) r.push_back(k);
    return r;
}
inline std::vector<Config> configs(std::vector<int> policies, std::vector<std::size_t> buckets, std::vector<std::size_t> depths) {
    std::vector<Config> r;
    for (int p : policies)
        for (auto b : buckets)
            for (auto d : depths) r.push_back({p, b, d});
    return r;
}
inline Indices iota(std::size_t n) {
    Indices v(n);
    std::iota(v.begin(), v.end(), 0);
    return v;
}

namespace space {
// every ordered dataset of n_min..n_max points of {0..side-1}^dim
template <typename F>
void ordered(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, F&& f) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            f(x, dim, iota(n));
        });
}
// every multiset of points, with three sample orders
template <typename F>
void multisets(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, F&& f, bool orders = true) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            Indices a = iota(n), b(a.rbegin(), a.rend()), c;
            f(x, dim, a);
            if (!orders) return;
            f(x, dim, b);
            for (std::size_t i = 0; i < n; ++i) c.push_back((i * 3 + 1) % n);
            if (std::set<std::size_t>(c.begin(), c.end()).size() == n) f(x, dim, c);
        });
}
// every non-empty subset of the samples of every multiset, in every order
template <typename F>
void subsets(const std::string& name, std::size_t dim, std::size_t side, std::size_t n, F&& f) {
    if (!mc::begin_space(name)) return;
    gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
        for (unsigned mask = 1; mask < (1u << n); ++mask) {
            Indices sub;
            for (std::size_t i = 0; i < n; ++i)
                if (mask >> i & 1) sub.push_back(i);
            do {
                if (!mc::take()) continue;
                mc::sample([&] { return show_points(x, dim) + " indices " + mc::show(sub); });
                f(x, dim, sub);
            } while (std::next_permutation(sub.begin(), sub.end()));
        }
    });
}
// structured larger datasets
template <typename F>
void large(const std::string& name, std::size_t dim, std::vector<std::size_t> sizes, std::vector<int> as, std::vector<int> es, std::vector<int> ms, F&& f) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        gen::lattice(n, dim, as, {1, 5}, es, ms, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return std::to_string(n) + " points " + show_points({x.begin(), x.begin() + std::min<std::size_t>(x.size(), 6 * dim)}, dim) + "..."; });
            f(x, dim, iota(n));
        });
}
// two datasets of every size up to n_max, and of every dimension in the list
template <typename F>
void sizes(const std::string& name, std::size_t dim, std::size_t n_min, std::size_t n_max, F&& f) {
    large(name, dim, gen::every(n_min, n_max), {3}, {1}, {97}, f);
}
template <typename F>
void big(const std::string& name, std::size_t dim, std::size_t n_max, F&& f) {
    large(name, dim, gen::big(n_max), {3}, {1}, {41, 2003}, f);
}
template <typename F>
void huge(const std::string& name, std::size_t dim, F&& f) {
    large(name, dim, {gen::kHuge}, {3}, {1}, {99991}, f);
}
template <typename F>
void dims(const std::string& name, const std::vector<std::size_t>& dimensions, const std::vector<std::size_t>& sizes, F&& f) {
    for (auto dim : dimensions) large(name + "-" + std::to_string(dim), dim, sizes, {3}, {1}, {5, 97}, f);
}
// many features (gen::wide)
template <typename F>
void wide(const std::string& name, const std::vector<std::size_t>& dimensions, const std::vector<std::size_t>& sizes, F&& f) {
    if (!mc::begin_space(name)) return;
    for (auto dim : dimensions)
        for (auto n : sizes)
            gen::wide(n, dim, 41, [&](const std::vector<int>& x) {
                if (mc::take()) f(x, dim, iota(n));
            });
}
}  // namespace space

// a few queries of a larger dataset: samples, neighbours of samples, far corners
inline std::vector<std::vector<int>> probes(const std::vector<int>& x, std::size_t dim, std::size_t count = 9) {
    const std::size_t             n = x.size() / dim;
    const int                     m = *std::max_element(x.begin(), x.end()) + 1;
    std::vector<std::vector<int>> q;
    for (std::size_t i = 0; i < n; i += 1 + n / count) {
        std::vector<int> p(x.begin() + i * dim, x.begin() + (i + 1) * dim);
        q.push_back(p);
        for (std::size_t d = 0; d < dim; ++d) {
            if (dim > 64 && d > 1 && d + 2 < dim && d % 37 != 0) continue;
            auto r = p;
            r[d] += (i % 2 ? 1 : -1) * (1 + static_cast<int>(i) % 3);
            q.push_back(r);
        }
    }
    q.push_back(std::vector<int>(dim, -m));
    q.push_back(std::vector<int>(dim, 2 * m));
    return q;
}

// Radii (in units of the embedding's scale) that separate the exact distance keys robustly: 2*r^2 as an integer, so
// that a sample is inside iff 2*key < value. Boundary values are used only where the square root is exact.
template <typename T>
struct Radius {
    double value;
    long   twice_key;  // floating point: 2 r^2; integers: 2 r
};
template <typename T>
std::vector<Radius<T>> radii(const std::vector<long>& keys, std::size_t cap = 64) {
    std::vector<Radius<T>> r{{0, 0}};
    std::set<long>         k(keys.begin(), keys.end());
    std::vector<long>      v(k.begin(), k.end());
    const std::size_t      stride = 1 + v.size() / cap;
    for (std::size_t i = 0; i < v.size(); i += stride) {
        if constexpr (std::is_floating_point_v<T>) {
            const long root = std::lround(std::sqrt(static_cast<double>(v[i])));
            if (root * root == v[i] && v[i]) r.push_back({static_cast<double>(root), 2 * v[i]});
            r.push_back({std::sqrt(v[i] + 0.5), 2 * v[i] + 1});
        } else {
            r.push_back({static_cast<double>(v[i]), 2 * v[i]});
            r.push_back({static_cast<double>(v[i] + 1), 2 * v[i] + 2});
        }
    }
    return r;
}

}  // namespace th
