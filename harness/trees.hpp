// Tree configurations and reference distances shared by the search harnesses.
#pragma once
#include "rng_control.hpp"

#include "mc.hpp"
#include "gen.hpp"

#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"

namespace th {

using Indices = std::vector<std::size_t>;
template <typename T>
using Data = std::vector<T>;
template <typename T>
using Tree = ffcl::datastruct::KDTree<Indices::iterator, typename Data<T>::iterator>;

inline constexpr std::size_t kNoLimit = static_cast<std::size_t>(1) << 40;

enum Policy { Cycle, Spread, Variance, VarianceFull };
inline const char* policy_name(int p) {
    static const char* n[] = {"cycle", "spread", "variance(0.1)", "variance(1)"};
    return n[p];
}

struct Config {
    int         policy = Cycle;
    std::size_t bucket = 1;
    std::size_t depth  = kNoLimit;
    std::string text() const {
        return std::string(policy_name(policy)) + ",bucket=" + std::to_string(bucket) +
               (depth == kNoLimit ? "" : ",depth<=" + std::to_string(depth));
    }
};

template <typename T>
typename Tree<T>::Options options(const Config& c) {
    using I = Indices::iterator;
    using S = typename Data<T>::iterator;
    namespace pol = ffcl::datastruct::kdtree::policy;
    typename Tree<T>::Options o;
    o.bucket_size(c.bucket).max_depth(c.depth);
    o.splitting_rule_policy(pol::QuickselectMedianRange<I, S>());
    switch (c.policy) {
        case Cycle: o.axis_selection_policy(pol::CycleThroughAxesBuild<I, S>()); break;
        case Spread: o.axis_selection_policy(pol::MaximumSpreadBuild<I, S>()); break;
        case Variance: o.axis_selection_policy(pol::HighestVarianceBuild<I, S>().sampling_rate(0.1)); break;
        default: o.axis_selection_policy(pol::HighestVarianceBuild<I, S>().sampling_rate(1.0)); break;
    }
    return o;
}

template <typename T>
Tree<T> make_tree(Indices& idx, Data<T>& data, std::size_t dim, const Config& c, std::uint64_t draws = 2) {
    mcrng::rng().reset_fixed(draws);
    return Tree<T>(idx.begin(), idx.end(), data.begin(), data.end(), dim, options<T>(c));
}

// coordinates are enumerated as integers; the library sees  scale * (v - shift)
struct Embedding {
    double      scale = 1;
    int         shift = 0;
    std::string text() const { return scale == 1 && !shift ? "" : " scale=" + std::to_string(scale) + " shift=" + std::to_string(shift); }
};
// coordinates far from the origin: exact for the type, but without bits to spare for a narrower one
inline const Embedding kFar{1, -(1 << 30)}, kFarFloat{1, -(1 << 20)};
// gaps whose squares exceed the range of 32 bit integers although the distances do not
inline const Embedding kWide{100003, 3};
template <typename T>
Data<T> embed(const std::vector<int>& x, const Embedding& e) {
    Data<T> d(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) d[i] = static_cast<T>(e.scale * (x[i] - e.shift));
    return d;
}

// order-preserving exact integer distance key and the true distance it stands for (Euclidean for floating point,
// Manhattan for integers: what auto_distance documents)
template <typename T>
long key(const int* a, const int* b, std::size_t dim) {
    if constexpr (std::is_floating_point_v<T>) return gen::sq(a, b, dim);
    long s = 0;
    for (std::size_t d = 0; d < dim; ++d) s += std::abs(a[d] - b[d]);
    return s;
}
template <typename T>
double dist_of_key(long k, const Embedding& e) {
    if constexpr (std::is_floating_point_v<T>) return e.scale * std::sqrt(static_cast<double>(k));
    return e.scale * k;
}
template <typename T>
bool same(double a, double b, const Embedding& e) {
    return gen::close(a, b, gen::precision<T>(), gen::precision<T>() * e.scale);
}

inline std::string show_points(const std::vector<int>& x, std::size_t dim) {
    std::string s = "{";
    for (std::size_t i = 0; i * dim < x.size(); ++i) {
        if (i > 3000) return s + " ... " + std::to_string(x.size() / dim) + " in all}";
        s += i ? " (" : "(";
        for (std::size_t d = 0; d < dim; ++d) s += (d ? "," : "") + std::to_string(x[i * dim + d]);
        s += ")";
    }
    return s + "}";
}

struct Entry {
    std::size_t index;
    double      distance;
};
template <typename Buffer>
std::vector<Entry> entries(const Buffer& b) {
    std::vector<Entry> r;
    const auto         i = b.indices();
    const auto         d = b.distances();
    for (std::size_t k = 0; k < i.size(); ++k) r.push_back({i[k], k < d.size() ? static_cast<double>(d[k]) : -1});
    if (d.size() != i.size()) r.push_back({static_cast<std::size_t>(-1), -1});
    return r;
}

// Is `got` a correct answer: min(k, |allowed|) distinct members of `allowed`, true distances, none left out strictly
// closer? Returns an explanation, empty when correct. `keys[i]` is the exact distance key of sample i.
template <typename T>
std::string judge(const std::vector<Entry>& got, const std::vector<long>& keys, const std::vector<char>& allowed,
                  std::size_t k, const Embedding& e) {
    std::size_t n_allowed = 0;
    for (char a : allowed) n_allowed += a;
    const std::size_t want = std::min(k, n_allowed);
    if (got.size() != want) return "returned " + std::to_string(got.size()) + " samples instead of " + std::to_string(want);
    std::vector<char> seen(allowed.size(), 0);
    long              worst = -1;
    for (const auto& g : got) {
        if (g.index >= allowed.size()) return "returned index " + std::to_string(g.index) + " is not a sample";
        if (!allowed[g.index]) return "returned sample " + std::to_string(g.index) + " is not permitted";
        if (seen[g.index]) return "returned sample " + std::to_string(g.index) + " twice";
        seen[g.index] = 1;
        if (!same<T>(g.distance, dist_of_key<T>(keys[g.index], e), e))
            return "distance of sample " + std::to_string(g.index) + " is " + std::to_string(g.distance) + " instead of " +
                   std::to_string(dist_of_key<T>(keys[g.index], e));
        worst = std::max(worst, keys[g.index]);
    }
    for (std::size_t i = 0; i < allowed.size(); ++i)
        if (allowed[i] && !seen[i] && keys[i] < worst)
            return "sample " + std::to_string(i) + " is closer than a returned one but was left out";
    return "";
}

// closest/furthest reported by the buffer are those of its content
template <typename Buffer>
std::string judge_extremes(const Buffer& b, const std::vector<Entry>& got, const Embedding& e) {
    if (got.empty()) return b.size() == 0 && b.empty() ? "" : "buffer size disagrees with its content";
    double lo = got[0].distance, hi = got[0].distance;
    for (auto& g : got) lo = std::min(lo, g.distance), hi = std::max(hi, g.distance);
    if (b.size() != got.size()) return "size() disagrees with the content";
    if (static_cast<double>(b.closest_distance()) != lo) return "closest_distance() is not the smallest distance";
    if (static_cast<double>(b.furthest_distance()) != hi) return "furthest_distance() is not the largest distance";
    bool c = false, f = false;
    for (auto& g : got) {
        c |= g.index == b.closest_index() && g.distance == lo;
        f |= g.index == b.furthest_index() && g.distance == hi;
    }
    if (!c) return "closest_index() is not the closest returned sample";
    if (!f) return "furthest_index() is not the furthest returned sample";
    return "";
}

inline std::uint64_t hash_entries(const std::vector<Entry>& v) {
    std::uint64_t h = v.size();
    for (auto& e : v) h = mc::mix(h, e.index);
    return h;
}

}  // namespace th
