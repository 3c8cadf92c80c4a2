// Reference spanning tree quantities computed on exact integer distance keys.
#pragma once
#include "spaces.hpp"

namespace th {

// exact (mutual reachability) keys between all pairs; k counts the sample itself, k <= 1 means plain distances
template <typename T>
std::vector<long> pair_keys(const std::vector<int>& x, std::size_t dim, std::size_t k, std::vector<long>* cores = nullptr) {
    const std::size_t n = x.size() / dim;
    std::vector<long> d(n * n), core(n, 0);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) d[i * n + j] = key<T>(x.data() + i * dim, x.data() + j * dim, dim);
    if (k > 1) {
        for (std::size_t i = 0; i < n; ++i) {
            std::vector<long> row(d.begin() + i * n, d.begin() + (i + 1) * n);
            std::sort(row.begin(), row.end());
            core[i] = row[std::min(k, n) - 1];
        }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) d[i * n + j] = std::max({d[i * n + j], core[i], core[j]});
    }
    if (cores) *cores = core;
    return d;
}
// sorted edge keys of a minimum spanning tree (unique as a multiset)
inline std::vector<long> mst_keys(const std::vector<long>& d, std::size_t n) {
    std::vector<long> r, best(n, -1);
    std::vector<char> in(n, 0);
    if (!n) return r;
    in[0] = 1;
    for (std::size_t i = 1; i < n; ++i) best[i] = d[i];
    for (std::size_t s = 1; s < n; ++s) {
        std::size_t pick = n;
        for (std::size_t i = 0; i < n; ++i)
            if (!in[i] && (pick == n || best[i] < best[pick])) pick = i;
        in[pick] = 1;
        r.push_back(best[pick]);
        for (std::size_t i = 0; i < n; ++i)
            if (!in[i]) best[i] = std::min(best[i], d[pick * n + i]);
    }
    std::sort(r.begin(), r.end());
    return r;
}
// explanation of why `edges` is not a minimum spanning tree for the keys; empty when it is
template <typename T, typename Edges>
std::string judge_mst(const Edges& edges, const std::vector<long>& d, std::size_t n, const Embedding& e) {
    if (edges.size() != n - 1) return "the tree has " + std::to_string(edges.size()) + " edges for " + std::to_string(n) + " samples";
    std::vector<std::size_t> parent(n);
    std::iota(parent.begin(), parent.end(), 0);
    auto root = [&](std::size_t i) {
        while (parent[i] != i) i = parent[i];
        return i;
    };
    std::vector<long> got;
    for (const auto& edge : edges) {
        const std::size_t a = std::get<0>(edge), b = std::get<1>(edge);
        if (a >= n || b >= n) return "an edge ends outside of the dataset";
        if (root(a) == root(b)) return "edge (" + std::to_string(a) + "," + std::to_string(b) + ") closes a cycle";
        parent[root(a)] = root(b);
        const long want = d[a * n + b];
        if (!same<T>(static_cast<double>(std::get<2>(edge)), dist_of_key<T>(want, e), e))
            return "edge (" + std::to_string(a) + "," + std::to_string(b) + ") has weight " + std::to_string(static_cast<double>(std::get<2>(edge))) + " instead of " + std::to_string(dist_of_key<T>(want, e));
        got.push_back(want);
    }
    std::sort(got.begin(), got.end());
    const auto want = mst_keys(d, n);
    if (got != want) return "the tree is not minimal: sorted squared weights " + mc::show(got) + " against " + mc::show(want);
    return "";
}

}  // namespace th
