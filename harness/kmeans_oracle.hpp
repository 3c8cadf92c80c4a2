// Reference arithmetic for k-means on small integer-valued samples.
#pragma once
#include "rng_control.hpp"

#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/kmeans/KMeans.hpp"

#include <algorithm>

namespace km {

using Points = std::vector<double>;

template <typename V>
double distance(const Points& x, std::size_t i, const V& c, std::size_t j, std::size_t dim) {
    double s = 0;
    for (std::size_t d = 0; d < dim; ++d) s += (x[i * dim + d] - c[j * dim + d]) * (x[i * dim + d] - c[j * dim + d]);
    return std::sqrt(s);
}
template <typename V>
double nearest(const Points& x, std::size_t i, const V& c, std::size_t dim) {
    double best = distance(x, i, c, 0, dim);
    for (std::size_t j = 1; j * dim < c.size(); ++j) best = std::min(best, distance(x, i, c, j, dim));
    return best;
}
template <typename V>
double total(const Points& x, const V& c, std::size_t dim) {
    double s = 0;
    for (std::size_t i = 0; i * dim < x.size(); ++i) s += nearest(x, i, c, dim);
    return s;
}
template <typename V>
double inertia(const Points& x, const V& c, std::size_t dim) {
    double s = 0;
    for (std::size_t i = 0; i * dim < x.size(); ++i) {
        const double d = nearest(x, i, c, dim);
        s += d * d;
    }
    return s;
}
inline double magnitude(const Points& x) {
    double m = 0;
    for (double v : x) m = std::max(m, std::fabs(v));
    return m;
}

// the centroids reachable by one iteration: every choice of a nearest centroid for every sample
struct Iteration {
    std::vector<std::vector<std::size_t>> options;  // per sample: its nearest centroids
    std::size_t                           combinations = 1;

    template <typename V>
    Iteration(const Points& x, const V& c, std::size_t dim, double tolerance) {
        const std::size_t n = x.size() / dim, k = c.size() / dim;
        for (std::size_t i = 0; i < n; ++i) {
            const double             best = nearest(x, i, c, dim);
            std::vector<std::size_t> o;
            for (std::size_t j = 0; j < k; ++j)
                if (distance(x, i, c, j, dim) <= best + tolerance) o.push_back(j);
            combinations = std::min<std::size_t>(combinations * o.size(), 1u << 24);
            options.push_back(o);
        }
    }
    bool unique() const { return combinations == 1; }

    // is `after` the result of one iteration from `before` for some choice?
    template <typename V>
    bool allows(const Points& x, const V& before, const V& after, std::size_t dim, double tolerance) const {
        const std::size_t        n = options.size(), k = before.size() / dim;
        std::vector<std::size_t> pick(n, 0);
        for (;;) {
            std::vector<double>      sum(k * dim, 0);
            std::vector<std::size_t> size(k, 0);
            for (std::size_t i = 0; i < n; ++i) {
                const auto j = options[i][pick[i]];
                ++size[j];
                for (std::size_t d = 0; d < dim; ++d) sum[j * dim + d] += x[i * dim + d];
            }
            bool ok = true;
            for (std::size_t j = 0; j < k && ok; ++j)
                for (std::size_t d = 0; d < dim; ++d) {
                    const double want = size[j] ? sum[j * dim + d] / size[j] : before[j * dim + d];
                    if (!(std::fabs(want - after[j * dim + d]) <= tolerance)) {
                        ok = false;
                        break;
                    }
                }
            if (ok) return true;
            std::size_t i = 0;
            while (i < n && ++pick[i] == options[i].size()) pick[i++] = 0;
            if (i == n) return false;
        }
    }
};

inline std::string show(const Points& x, std::size_t dim) {
    std::string s = "{";
    for (std::size_t i = 0; i < x.size(); ++i) {
        char b[32];
        std::snprintf(b, sizeof b, "%.6g", x[i]);
        s += (i % dim == 0 ? (i ? " (" : "(") : ",") + std::string(b) + (i % dim == dim - 1 ? ")" : "");
    }
    return s + "}";
}
template <typename V>
std::string show_c(const V& c, std::size_t dim) {
    return show(Points(c.begin(), c.end()), dim);
}

}  // namespace km
