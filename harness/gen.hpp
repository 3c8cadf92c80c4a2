// Enumerators of small input spaces shared by the harnesses.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <numeric>
#include <vector>

namespace gen {

// calls f(v) for every v in {0..base-1}^len
template <typename F>
void tuples(std::size_t len, std::size_t base, F&& f) {
    std::vector<int> v(len, 0);
    for (;;) {
        f(const_cast<const std::vector<int>&>(v));
        std::size_t i = len;
        while (i > 0) {
            --i;
            if (++v[i] < static_cast<int>(base)) break;
            v[i] = 0;
            if (i == 0) return;
        }
        if (len == 0) return;
    }
}

// every ordered n-point dataset in {0..side-1}^dim given as point codes (base side^dim)
template <typename F>
void datasets(std::size_t n, std::size_t dim, std::size_t side, F&& f) {
    std::size_t cells = 1;
    for (std::size_t d = 0; d < dim; ++d) cells *= side;
    std::vector<int> coords(n * dim);
    tuples(n, cells, [&](const std::vector<int>& codes) {
        for (std::size_t i = 0; i < n; ++i) {
            int c = codes[i];
            for (std::size_t d = 0; d < dim; ++d) {
                coords[i * dim + d] = c % static_cast<int>(side);
                c /= static_cast<int>(side);
            }
        }
        f(const_cast<const std::vector<int>&>(coords));
    });
}

// every multiset (non-decreasing sequence of cell codes) of n points in {0..side-1}^dim
template <typename F>
void multisets(std::size_t n, std::size_t dim, std::size_t side, F&& f) {
    std::size_t cells = 1;
    for (std::size_t d = 0; d < dim; ++d) cells *= side;
    std::vector<int> codes(n, 0), coords(n * dim);
    for (;;) {
        for (std::size_t i = 0; i < n; ++i) {
            int c = codes[i];
            for (std::size_t d = 0; d < dim; ++d) {
                coords[i * dim + d] = c % static_cast<int>(side);
                c /= static_cast<int>(side);
            }
        }
        f(const_cast<const std::vector<int>&>(coords));
        std::size_t i = n;
        while (i > 0 && codes[i - 1] == static_cast<int>(cells) - 1) --i;
        if (i == 0) return;
        const int v = codes[i - 1] + 1;
        for (std::size_t j = i - 1; j < n; ++j) codes[j] = v;
    }
}

// structured family of larger datasets: x[i][d] = ((a*i + b*d + c*i*d + e*i*i) mod m) - shift, for all parameters
template <typename F>
void lattice(std::size_t n, std::size_t dim, const std::vector<int>& as, const std::vector<int>& bs,
             const std::vector<int>& es, const std::vector<int>& ms, F&& f) {
    std::vector<int> x(n * dim);
    for (int m : ms)
        for (int a : as)
            for (int b : bs)
                for (int e : es) {
                    for (std::size_t i = 0; i < n; ++i)
                        for (std::size_t d = 0; d < dim; ++d) {
                            const long ii = static_cast<long>(i), dd = static_cast<long>(d);
                            x[i * dim + d] = static_cast<int>(((a + b * dd) * ii + e * ii * ii * (dd + 1) + 3 * dd) % m);
                        }
                    f(const_cast<const std::vector<int>&>(x));
                }
}

// many features, where the last two tell the samples apart and the others vary by one at most
template <typename F>
void wide(std::size_t n, std::size_t dim, int m, F&& f) {
    std::vector<int> x(n * dim);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t d = 0; d < dim; ++d) x[i * dim + d] = static_cast<int>(i * (d + 1) / 3 % 2);
        x[i * dim + dim - 2] = static_cast<int>((3 * i + i * i) % m);
        x[i * dim + dim - 1] = static_cast<int>((5 * i + 2 * i * i + 3) % (2 * m));
    }
    f(const_cast<const std::vector<int>&>(x));
}

// sizes around what implementations treat as large
inline std::vector<std::size_t> big(std::size_t hi = 1025) {
    std::vector<std::size_t> r;
    for (std::size_t n : {128, 129, 200, 255, 256, 257, 300, 400, 500, 512, 513, 700, 1000, 1024, 1025, 2000, 2048, 2049, 4096, 4097, 5000, 10000, 66001})
        if (n <= hi) r.push_back(n);
    return r;
}

// more samples than 16 bits can count
constexpr std::size_t kHuge = 66001;

// every size from lo to hi, and some larger ones up to more
inline std::vector<std::size_t> every(std::size_t lo, std::size_t hi, std::size_t more = 0) {
    std::vector<std::size_t> r;
    for (; lo <= hi; ++lo) r.push_back(lo);
    for (auto n : big(more))
        if (n > hi) r.push_back(n);
    return r;
}

template <typename F>
void permutations(std::size_t n, F&& f) {
    std::vector<std::size_t> p(n);
    std::iota(p.begin(), p.end(), 0);
    do f(const_cast<const std::vector<std::size_t>&>(p));
    while (std::next_permutation(p.begin(), p.end()));
}

// every set partition of {0..n-1} as a restricted growth string
template <typename F>
void partitions(std::size_t n, F&& f) {
    std::vector<int> r(n, 0);
    std::vector<int> mx(n, 0);
    for (;;) {
        f(const_cast<const std::vector<int>&>(r));
        std::size_t i = n;
        while (i > 1) {
            --i;
            int prefix_max = 0;
            for (std::size_t j = 0; j < i; ++j) prefix_max = std::max(prefix_max, r[j]);
            if (r[i] <= prefix_max) {
                ++r[i];
                for (std::size_t j = i + 1; j < n; ++j) r[j] = 0;
                i = n + 1;
                break;
            }
            if (i == 1) {
                i = 0;
                break;
            }
        }
        if (i != n + 1) return;
    }
}

inline long sq(const int* a, const int* b, std::size_t dim) {
    long s = 0;
    for (std::size_t d = 0; d < dim; ++d) s += static_cast<long>(a[d] - b[d]) * (a[d] - b[d]);
    return s;
}

// relative error allowed to a short computation in the type
template <typename T>
constexpr double precision() {
    return std::is_same_v<T, float> ? 1e-5 : 1e-13;
}
inline bool close(double a, double b, double rel = 1e-5, double abs = 1e-6) {
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

}  // namespace gen

namespace gen {
// every labelled tree on n nodes as a list of edges (Pruefer codes)
template <typename F>
void labelled_trees(std::size_t n, F&& f) {
    using Edges = std::vector<std::pair<std::size_t, std::size_t>>;
    if (n == 1) return f(Edges{});
    if (n == 2) return f(Edges{{0, 1}});
    tuples(n - 2, n, [&](const std::vector<int>& code) {
        std::vector<int> degree(n, 1);
        for (int c : code) ++degree[c];
        Edges edges;
        for (int c : code)
            for (std::size_t v = 0; v < n; ++v)
                if (degree[v] == 1) {
                    edges.push_back({v, static_cast<std::size_t>(c)});
                    --degree[v];
                    --degree[c];
                    break;
                }
        std::vector<std::size_t> rest;
        for (std::size_t v = 0; v < n; ++v)
            if (degree[v] == 1) rest.push_back(v);
        edges.push_back({rest[0], rest[1]});
        f(const_cast<const Edges&>(edges));
    });
}
}  // namespace gen
