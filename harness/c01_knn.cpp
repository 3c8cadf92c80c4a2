// C01: k-nearest-neighbour search of every small dataset with every tree configuration, against brute force.
#include "trees.hpp"

using namespace th;
namespace fs = ffcl::search;
namespace buf = ffcl::search::buffer;

template <typename T>
struct Space {
    std::vector<Config>    configs;
    std::vector<Embedding> embeddings{{}};
    // queries for a dataset
    std::function<std::vector<std::vector<int>>(const std::vector<int>&)> queries;
    std::function<std::vector<std::size_t>(std::size_t)>                  ks;
    std::uint64_t                                                        draws = 2;

    void run(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        const std::size_t n  = x.size() / dim;
        const auto        qs = queries(x);
        const auto        kv = ks(order.size());
        std::vector<char> allowed(n, 0);
        for (auto i : order) allowed[i] = 1;
        std::vector<std::vector<long>> keys(qs.size(), std::vector<long>(n));
        for (std::size_t q = 0; q < qs.size(); ++q)
            for (std::size_t i = 0; i < n; ++i) keys[q][i] = key<T>(qs[q].data(), x.data() + i * dim, dim);

        for (const auto& e : embeddings)
            for (const auto& c : configs) {
                auto data = embed<T>(x, e);
                std::vector<Data<T>> qd;
                for (auto& q : qs) qd.push_back(embed<T>(q, e));
                Indices idx  = order;
                auto    what = [&] {
                    return "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text();
                };
                mc::guard("knn", [&] {
                    fs::Searcher searcher(make_tree<T>(idx, data, dim, c, draws));
                    mc::exec();
                    for (std::size_t k : kv) {
                        using Buffer = buf::Unsorted<typename Data<T>::iterator>;
                        std::vector<Buffer> batch;
                        for (std::size_t q = 0; q < qs.size(); ++q) {
                            auto       b   = searcher(Buffer(qd[q].begin(), qd[q].end(), k));
                            const auto got = entries(b);
                            mc::step();
                            std::string why = judge<T>(got, keys[q], allowed, k, e);
                            if (why.empty()) why = judge_extremes(b, got, e);
                            if (!why.empty())
                                return mc::fail("knn", why + "; query " + mc::show(qs[q]) + " k=" + std::to_string(k) + " " + what());
                            mc::outcome(hash_entries(got));
                            batch.emplace_back(qd[q].begin(), qd[q].end(), k);
                        }
                        auto results = searcher(std::move(batch));
                        mc::step();
                        if (results.size() != qs.size()) return mc::fail("knn-batch", "batch changes the number of queries; " + what());
                        for (std::size_t q = 0; q < qs.size(); ++q) {
                            const auto  got = entries(results[q]);
                            std::string why = judge<T>(got, keys[q], allowed, k, e);
                            if (why.empty()) why = judge_extremes(results[q], got, e);
                            if (!why.empty())
                                return mc::fail("knn-batch", why + "; batch query " + mc::show(qs[q]) + " k=" + std::to_string(k) + " " + what());
                        }
                    }
                }, what);
            }
    }
};

std::vector<std::vector<int>> grid(std::size_t dim, int lo, int hi, int stride = 1) {
    std::vector<std::vector<int>> r;
    const int                     side = (hi - lo) / stride + 1;
    gen::tuples(dim, side, [&](const std::vector<int>& t) {
        std::vector<int> q;
        for (int v : t) q.push_back(lo + v * stride);
        r.push_back(q);
    });
    return r;
}
std::vector<std::size_t> upto(std::size_t n) {
    std::vector<std::size_t> r;
    for (std::size_t k = 0; k <= n + 1; ++k) r.push_back(k);
    return r;
}
std::vector<Config> configs(std::vector<int> policies, std::vector<std::size_t> buckets, std::vector<std::size_t> depths) {
    std::vector<Config> r;
    for (int p : policies)
        for (auto b : buckets)
            for (auto d : depths) r.push_back({p, b, d});
    return r;
}
Indices iota(std::size_t n) {
    Indices v(n);
    std::iota(v.begin(), v.end(), 0);
    return v;
}

template <typename T>
void ordered(const char* name, std::size_t dim, std::size_t side, std::size_t n_max, std::vector<Config> cs, std::vector<Embedding> es = {{}}) {
    if (!mc::begin_space(std::string(name))) return;
    Space<T> s;
    s.configs    = std::move(cs);
    s.embeddings = std::move(es);
    const auto g = grid(dim, -1, static_cast<int>(side));
    s.queries    = [&](const std::vector<int>&) { return g; };
    s.ks         = upto;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim) + " x " + std::to_string(s.configs.size()) + " trees x " + std::to_string(g.size()) + " queries"; });
            s.run(x, dim, iota(n));
        });
}
template <typename T>
void multisets(const char* name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::vector<Config> cs, std::vector<Embedding> es = {{}}) {
    if (!mc::begin_space(std::string(name))) return;
    Space<T> s;
    s.configs    = std::move(cs);
    s.embeddings = std::move(es);
    const auto g = grid(dim, -1, static_cast<int>(side));
    s.queries    = [&](const std::vector<int>&) { return g; };
    s.ks         = upto;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            // the index order stands for the sample order: identity, reversed, interleaved
            Indices a = iota(n), b(a.rbegin(), a.rend()), c;
            for (std::size_t i = 0; i < n; ++i) c.push_back((i * 3 + 1) % n);
            std::set<std::size_t> distinct(c.begin(), c.end());
            s.run(x, dim, a);
            s.run(x, dim, b);
            if (distinct.size() == n) s.run(x, dim, c);
        });
}
// every non-empty subset of the samples in every order
template <typename T>
void subsets(const char* name, std::size_t dim, std::size_t side, std::size_t n, std::vector<Config> cs) {
    if (!mc::begin_space(std::string(name))) return;
    Space<T> s;
    s.configs    = std::move(cs);
    const auto g = grid(dim, -1, static_cast<int>(side));
    s.queries    = [&](const std::vector<int>&) { return g; };
    s.ks         = [](std::size_t m) { return std::vector<std::size_t>{1, 2, m, m + 1}; };
    gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
        for (unsigned mask = 1; mask < (1u << n); ++mask) {
            Indices sub;
            for (std::size_t i = 0; i < n; ++i)
                if (mask >> i & 1) sub.push_back(i);
            do {
                if (!mc::take()) continue;
                mc::sample([&] { return show_points(x, dim) + " indices " + mc::show(sub); });
                s.run(x, dim, sub);
            } while (std::next_permutation(sub.begin(), sub.end()));
        }
    });
}
template <typename T>
void large(const char* name, std::size_t dim, std::vector<std::size_t> sizes, std::vector<int> as, std::vector<int> es, std::vector<int> ms,
           std::vector<Config> cs, std::vector<Embedding> emb = {{}}) {
    if (!mc::begin_space(std::string(name))) return;
    Space<T> s;
    s.configs    = std::move(cs);
    s.embeddings = std::move(emb);
    s.draws      = 7;
    s.ks         = [](std::size_t m) { return m < gen::kHuge ? std::vector<std::size_t>{1, 2, 3, 7, m / 2 + 1, m, m + 3} : std::vector<std::size_t>{1, 7, m + 3}; };
    for (auto n : sizes) {
        auto each = [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            const int m = *std::max_element(x.begin(), x.end()) + 1;
            s.queries   = [&](const std::vector<int>& pts) {
                std::vector<std::vector<int>> q;
                for (std::size_t i = 0; i < n; i += 1 + n / 9) {
                    std::vector<int> p(pts.begin() + i * dim, pts.begin() + (i + 1) * dim);
                    q.push_back(p);
                    for (std::size_t d = 0; d < dim; ++d) {
                        if (dim > 64 && d > 1 && d + 2 < dim && d % 37 != 0) continue;
                        auto r = p;
                        r[d] += (i % 2 ? 1 : -1) * (1 + static_cast<int>(i) % 3);
                        q.push_back(r);
                    }
                }
                q.push_back(std::vector<int>(dim, -m));
                q.push_back(std::vector<int>(dim, 2 * m));
                return q;
            };
            mc::sample([&] { return show_points(x, dim); });
            s.run(x, dim, iota(n));
        };
        if (dim < 40)
            gen::lattice(n, dim, as, {1, 5}, es, ms, each);
        else
            for (int m : ms) gen::wide(n, dim, m, each);
    }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const std::vector<int>         P{Cycle, Spread, Variance, VarianceFull};
    const std::vector<std::size_t> D{kNoLimit, 0, 1, 2}, N{kNoLimit};
    ordered<float>("ordered-1d", 1, 4, S ? 3 : T ? 6 : 5, configs(P, {0, 1, 2, 3}, D));
    ordered<float>("ordered-2d", 2, 3, S ? 2 : 4, configs(P, {0, 1, 2}, {kNoLimit, 1}));
    if (!S) ordered<float>("ordered-3d", 3, 2, T ? 5 : 4, configs(P, {1, 2}, N));
    ordered<double>("ordered-2d-double", 2, 3, S ? 2 : 3, configs(P, {0, 1, 2}, D), {{0.5, 1}, {1e6, 2}, kFar});
    ordered<int>("ordered-2d-int", 2, 3, S ? 2 : 3, configs(P, {0, 1, 2}, D), {{1, 0}, {1, 2}, {3, 1}, kFar, kWide});
    ordered<float>("ordered-2d-scaled", 2, 3, S ? 2 : 3, configs(P, {0, 1, 2}, D), {{0.5, 1}, {1024, 3}, {1.0 / 1024, 1}, {1.0 / (1 << 25), 1}});
    multisets<float>("multisets-2d", 2, 3, S ? 4 : 5, S ? 4 : T ? 7 : 6, configs({Cycle, Spread, VarianceFull}, {0, 1, 2, 4}, N));
    if (!S) multisets<float>("multisets-1d", 1, 5, 6, T ? 9 : 8, configs({Cycle}, {0, 1, 2, 3}, {kNoLimit, 2}));
    if (!S) multisets<double>("multisets-3d", 3, 2, 5, T ? 7 : 6, configs({Cycle, Spread, VarianceFull}, {1, 2}, N));
    if (!S) multisets<int>("multisets-2d-int", 2, 3, 5, T ? 6 : 5, configs({Cycle, Spread, VarianceFull}, {1, 2}, N), {{1, 1}});
    subsets<float>("subsets-2d", 2, 3, S ? 2 : T ? 5 : 4, configs({Cycle, Spread, VarianceFull}, {0, 1, 2}, N));
    subsets<double>("subsets-1d", 1, 4, S ? 2 : 5, configs({Cycle, VarianceFull}, {1, 2}, N));
    const std::vector<std::size_t> B{1, 2, 3, 5, 8, 16, 40};
    if (S) {
        large<float>("large-2d", 2, {11}, {1, 2}, {0, 1}, {7}, configs(P, {1, 3}, N));
        return 0;
    }
    large<float>("large-1d", 1, {11, 24, 50}, {1, 2, 3}, {0, 1, 2}, {5, 11, 23, 97}, configs(P, B, {kNoLimit, 3}), {{}, kFarFloat});
    large<float>("large-2d", 2, T ? std::vector<std::size_t>{9, 11, 24, 37, 50, 81, 200} : std::vector<std::size_t>{11, 24, 50, 81}, {1, 2, 3, 7}, {0, 1, 2, 3}, {4, 7, 11, 23, 97}, configs(P, B, {kNoLimit, 3}));
    large<double>("large-3d", 3, {11, 24, 50}, {1, 2, 3}, {0, 1, 2}, {4, 7, 23}, configs(P, B, N), {{0.25, 3}, kFar});
    large<int>("large-2d-int", 2, {11, 24, 50}, {1, 2, 3}, {0, 1, 2}, {4, 7, 23}, configs(P, B, N), {{1, 5}, kFar, kWide});
    large<float>("sizes-2d", 2, gen::every(1, T ? 300 : 130), {3}, {1}, {97}, configs({Cycle, VarianceFull}, {1, 7, 40}, N));
    large<double>("sizes-1d", 1, gen::every(1, T ? 300 : 130), {3}, {1}, {13, 97}, configs({Cycle}, {1, 4}, N));
    if (!S) large<float>("big-2d", 2, gen::big(T ? 10000 : 2049), {3}, {1}, {41, 2003}, configs({VarianceFull}, {1, 40}, N));
    if (!S) large<double>("big-1d", 1, gen::big(T ? 10000 : 2049), {3}, {1}, {41, 9973}, configs({Cycle}, {4}, N));
    large<double>("huge", 1, {gen::kHuge}, {3}, {1}, {99991}, configs({Cycle, VarianceFull}, {5, 40}, N));
    large<double>("huge-2d", 2, {gen::kHuge}, {3}, {1}, {99991}, configs({VarianceFull}, {40}, N));
    for (std::size_t dim : {4, 6, 7, 8, 9, 12, 16, 17, 33})
        large<float>(("dims-" + std::to_string(dim)).c_str(), dim, {3, 10, 31}, {3}, {1}, {5, 97}, configs(P, {1, 4}, N));
    for (std::size_t dim : {40, 130, 300})
        large<double>(("wide-" + std::to_string(dim)).c_str(), dim, {3, 40}, {}, {}, {7, 41}, configs(P, {1, 4}, N));
    large<float>("large-5d", 5, {11, 24}, {1, 2}, {0, 1, 2}, {3, 7, 23}, configs(P, B, N));
    return 0;
}
MC_MAIN
