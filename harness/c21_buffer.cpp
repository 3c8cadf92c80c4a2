// C21: every history of candidates offered to every kind of search buffer, against the set of candidates seen so far.
#include "spaces.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

using namespace th;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;
using Visited = std::unordered_set<std::size_t>;
using UF      = ffcl::datastruct::UnionFind<std::size_t>;

struct Offer {
    std::size_t index;
    long        key;
};

// every capacity up to the bound, and no limit
constexpr std::size_t kUnlimited = static_cast<std::size_t>(-1);
inline bool bounded(std::size_t k) { return k != kUnlimited; }
inline Indices capacities(std::size_t k_max) {
    Indices ks{kUnlimited};
    for (std::size_t k = 0; k <= k_max; ++k) ks.push_back(k);
    return ks;
}
// compare the buffer with the accepted offers
template <typename T, typename B>
bool agrees(const B& b, const std::vector<Offer>& accepted, std::size_t k, bool limited, const Embedding& e, const std::function<std::string()>& what, const char* kind) {
    mc::step();
    std::size_t top = 0;
    for (auto& o : accepted) top = std::max(top, o.index + 1);
    std::vector<long> keys(top, 0);
    std::vector<char> allowed(top, 0);
    for (auto& o : accepted) keys[o.index] = o.key, allowed[o.index] = 1;
    const auto  got = entries(b);
    std::string why = judge<T>(got, keys, allowed, limited ? k : top, e);
    if (why.empty()) why = judge_extremes(b, got, e);
    if (why.empty() && limited && (b.max_capacity() != k || b.remaining_capacity() != k - got.size())) why = "the remaining capacity is wrong";
    if (why.empty() && !limited && !b.remaining_capacity()) why = "an unlimited buffer reports no remaining capacity";
    if (why.empty() && b.empty() != got.empty()) why = "empty() disagrees with the content";
    if (!why.empty()) {
        mc::fail(kind, why + " (" + kind + "): " + what());
        return false;
    }
    mc::outcome(mc::mix(hash_entries(got), k));
    return true;
}

// history of update() calls; op code = distance; after each step the buffer may be continued through a copy or a move
template <typename T, typename Make, typename Accept>
void history(const std::vector<int>& ds, const Indices& ids, std::size_t k, bool limited, int relay, Make make, Accept accept, const char* kind, const std::string& extra, const Embedding& e = {}) {
    auto what = [&] { return "capacity " + (limited ? std::to_string(k) : std::string("unlimited")) + extra + " offered distances " + mc::show(ds) + " of samples " + mc::show(ids) + (relay == 0 ? "" : relay == 1 ? " copying" : " moving") + " the buffer at each step"; };
    mc::exec();
    mc::guard(kind, [&] {
        using B = decltype(make());
        std::unique_ptr<B> b(new B(make()));
        std::vector<Offer> acc;
        if (!agrees<T>(*b, acc, k, limited, e, what, kind)) return;
        for (std::size_t i = 0; i < ds.size(); ++i) {
            if (relay == 1) {
                std::unique_ptr<B> c(new B(*b));
                // the original stays usable and independent
                b->update(1000, static_cast<T>(0));
                b = std::move(c);
            } else if (relay == 2) {
                std::unique_ptr<B> c(new B(std::move(*b)));
                b = std::move(c);
            }
            const std::size_t id = ids[i];
            b->update(id, static_cast<T>(std::is_floating_point_v<T> ? e.scale * std::sqrt(static_cast<double>(ds[i])) : e.scale * ds[i]));
            if (accept(id)) acc.push_back({id, ds[i]});
            if (!agrees<T>(*b, acc, k, limited, e, what, kind)) return;
        }
    }, what);
}

template <typename T>
void updates(const char* name, std::size_t depth, std::size_t alphabet, std::size_t k_max, const Embedding& e = {}) {
    if (!mc::begin_space(name)) return;
    Data<T>    q{0};
    using It = typename Data<T>::iterator;
    for (std::size_t len = 1; len <= depth; ++len)
        gen::tuples(len, alphabet, [&](const std::vector<int>& ds) {
            if (!mc::take()) return;
            mc::sample([&] { return "offered distances " + mc::show(ds) + ", capacities 0.." + std::to_string(k_max) + " and unlimited"; });
            for (std::size_t k : capacities(k_max))
                for (int relay = 0; relay < 3; ++relay) {
                    auto make = [&] { return bounded(k) ? buf::Unsorted<It>(q.begin(), q.end(), k) : buf::Unsorted<It>(q.begin(), q.end()); };
                    history<T>(ds, iota(len), k, bounded(k), relay, make, [](std::size_t) { return true; }, "unsorted", "", e);
                }
        });
}
// filters: every visited set and every partition
template <typename T>
void filters(const char* name, std::size_t depth, std::size_t alphabet, std::size_t k_max) {
    if (!mc::begin_space(name)) return;
    Data<T>    q{0};
    using It = typename Data<T>::iterator;
    for (std::size_t len = 1; len <= depth; ++len)
        gen::tuples(len, alphabet, [&](const std::vector<int>& ds) {
            if (!mc::take()) return;
            mc::sample([&] { return "offered distances " + mc::show(ds) + ", every visited set and partition"; });
            for (unsigned mask = 0; mask < (1u << len); ++mask) {
                Visited v;
                for (std::size_t i = 0; i < len; ++i)
                    if (mask >> i & 1) v.insert(i);
                auto ok = [&](std::size_t i) { return !(mask >> i & 1); };
                for (std::size_t k : capacities(k_max))
                    for (int relay = 0; relay < 3; ++relay)
                        for (int mode = 0; mode < 3; ++mode) {
                            using B   = buf::WithMemory<It>;
                            auto make = [&] {
                                if (mode == 0) return bounded(k) ? B(q.begin(), q.end(), v, k) : B(q.begin(), q.end(), v);
                                if (mode == 1) return bounded(k) ? B(q.begin(), q.end(), Visited(v), k) : B(q.begin(), q.end(), Visited(v));
                                return bounded(k) ? B(q.begin(), q.end(), v.begin(), v.end(), k) : B(q.begin(), q.end(), v.begin(), v.end());
                            };
                            static const char* names[] = {"visited-borrowed", "visited-moved", "visited-range"};
                            history<T>(ds, iota(len), k, bounded(k), relay, make, ok, names[mode], " visited bits " + std::to_string(mask));
                        }
            }
            gen::partitions(len, [&](const std::vector<int>& part) {
                UF uf(len);
                for (std::size_t i = 0; i < len; ++i)
                    for (std::size_t j = 0; j < i; ++j)
                        if (part[i] == part[j]) uf.merge(i, j);
                for (std::size_t rep = 0; rep < len; ++rep)
                    for (std::size_t k : capacities(k_max))
                        for (int relay = 0; relay < 3; ++relay) {
                            if (relay == 1) continue;  // the copy probe offers an index outside the partition
                            using B   = buf::WithUnionFind<It>;
                            auto make = [&] { return bounded(k) ? B(q.begin(), q.end(), uf, rep, k) : B(q.begin(), q.end(), uf, rep); };
                            history<T>(ds, iota(len), k, bounded(k), relay, make, [&](std::size_t i) { return part[i] != part[rep]; }, "components", " components " + mc::show(part) + " member " + std::to_string(rep));
                        }
            });
        });
}
// ranges: every split of every small dataset into consecutive partial searches
template <typename T>
void ranges(const char* name, std::size_t dim, std::size_t side, std::size_t n_max) {
    if (!mc::begin_space(name)) return;
    using It = typename Data<T>::iterator;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim); });
            auto data = embed<T>(x, {});
            for (auto& q : grid(dim, 0, static_cast<int>(side), 2)) {
                auto qd = embed<T>(q, {});
                std::vector<long> keys(n);
                for (std::size_t i = 0; i < n; ++i) keys[i] = key<T>(q.data(), x.data() + i * dim, dim);
                auto rs = radii<T>(keys);
                for (unsigned cuts = 0; cuts < (1u << (n - 1)); ++cuts)
                    for (std::size_t k : capacities(n))
                        for (int region = -1; region < static_cast<int>(rs.size()); ++region) {
                            mc::exec();
                            Indices idx  = iota(n);
                            auto    what = [&] { return "points " + show_points(x, dim) + " query " + mc::show(q) + " capacity " + std::to_string(k) + " range cuts " + std::to_string(cuts) + (region < 0 ? "" : " radius " + std::to_string(rs[region].value)); };
                            auto run = [&](auto b) {
                                std::vector<Offer> acc;
                                std::size_t        from = 0;
                                for (std::size_t to = 1; to <= n; ++to) {
                                    if (to < n && !(cuts >> (to - 1) & 1)) continue;
                                    b.partial_search(idx.begin() + from, idx.begin() + to, data.begin(), data.end(), dim);
                                    for (std::size_t i = from; i < to; ++i)
                                        if (region < 0 || 2 * keys[i] < rs[region].twice_key) acc.push_back({i, keys[i]});
                                    if (!agrees<T>(b, acc, k, bounded(k), {}, what, "ranges")) return;
                                    from = to;
                                }
                            };
                            mc::guard("ranges", [&] {
                                if (region < 0) {
                                    if (bounded(k)) run(buf::Unsorted<It>(qd.begin(), qd.end(), k));
                                    else run(buf::Unsorted<It>(qd.begin(), qd.end()));
                                } else {
                                    using V = bnd::BallView<It>;
                                    V v(qd.begin(), qd.end(), static_cast<T>(rs[region].value));
                                    if (bounded(k)) run(buf::Unsorted<It, V>(std::move(v), k));
                                    else run(buf::Unsorted<It, V>(std::move(v)));
                                }
                            }, what);
                        }
            }
        });
}
// long histories: sequences of n offers generated by arithmetic rules
template <typename T>
void longer(const char* name, std::vector<std::size_t> sizes) {
    if (!mc::begin_space(name)) return;
    Data<T>    q{0};
    using It = typename Data<T>::iterator;
    for (auto n : sizes)
        for (int m : {1, 2, 5, 17, 101})
            for (int a : {0, 1, -1, 3, 7})
                for (int b : {0, 1, 2}) {
                    if (!mc::take()) continue;
                    std::vector<int> ds(n);
                    for (std::size_t i = 0; i < n; ++i) ds[i] = ((static_cast<int>(i) * a + static_cast<int>(i * i) * b) % m + m) % m;
                    for (std::size_t k : {kUnlimited, std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(8), n / 2, n - 1, n, n + 1}) {
                        auto make = [&] { return bounded(k) ? buf::Unsorted<It>(q.begin(), q.end(), k) : buf::Unsorted<It>(q.begin(), q.end()); };
                        history<T>(ds, iota(n), k, bounded(k), 0, make, [](std::size_t) { return true; }, "unsorted", "");
                    }
                }
}

// searches of ranges of every size and of samples with many features
template <typename T>
void range_sizes(const std::string& name, std::size_t n_max) {
    if (!mc::begin_space(name)) return;
    using It = typename Data<T>::iterator;
    for (std::size_t dim : {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 300})
        for (auto n : dim < 3 ? gen::every(1, n_max, dim == 1 ? gen::kHuge : 2049) : std::vector<std::size_t>{5, 16, 33})
            gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                if (!mc::take()) return;
                auto data = embed<T>(x, {});
                std::vector<int> q(x.begin(), x.begin() + dim);
                q[dim - 1] += 2;
                auto qd = embed<T>(q, {});
                std::vector<long> keys(n);
                for (std::size_t i = 0; i < n; ++i) keys[i] = key<T>(q.data(), x.data() + i * dim, dim);
                Indices idx = iota(n);
                std::rotate(idx.begin(), idx.begin() + n / 3, idx.end());
                for (std::size_t block : {std::size_t(1), std::size_t(4), std::size_t(7), n})
                    for (std::size_t k : {kUnlimited, std::size_t(0), std::size_t(1), std::size_t(3), std::size_t(8), n / 2 + 1, n}) {
                        if (n > 2049 && (block < n || k == n / 2 + 1)) continue;  // quadratic
                        mc::exec();
                        auto what = [&] { return "points " + show_points(x, dim) + " query " + mc::show(q) + " capacity " + std::to_string(k) + " in blocks of " + std::to_string(block); };
                        mc::guard("ranges", [&] {
                            auto b = bounded(k) ? buf::Unsorted<It>(qd.begin(), qd.end(), k) : buf::Unsorted<It>(qd.begin(), qd.end());
                            std::vector<Offer> acc;
                            for (std::size_t from = 0; from < n; from += block) {
                                const auto to = std::min(n, from + block);
                                b.partial_search(idx.begin() + from, idx.begin() + to, data.begin(), data.end(), dim);
                                for (std::size_t i = from; i < to; ++i) acc.push_back({idx[i], keys[idx[i]]});
                                if (!agrees<T>(b, acc, k, bounded(k), {}, what, "ranges")) return;
                            }
                        }, what);
                    }
            });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    updates<float>("updates", S ? 4 : T ? 10 : 9, 4, 5);
    updates<double>("updates-scaled", S ? 3 : T ? 8 : 7, 4, 4, {1.0 / (1 << 25), 0});
    updates<int>("updates-int", S ? 3 : T ? 8 : 7, 4, 4);
    if (!S) updates<double>("updates-deep", T ? 13 : 12, 3, 4);
    filters<float>("filters", S ? 3 : T ? 7 : 6, 3, 3);
    filters<int>("filters-int", S ? 2 : T ? 6 : 5, 3, 2);
    ranges<float>("ranges-1d", 1, 4, S ? 3 : T ? 7 : 6);
    ranges<int>("ranges-1d-int", 1, 4, S ? 3 : T ? 6 : 5);
    if (!S) ranges<double>("ranges-2d", 2, 3, T ? 5 : 4);
    longer<float>("long", S ? std::vector<std::size_t>{9} : std::vector<std::size_t>{9, 20, 45, 100});
    longer<int>("long-int", S ? std::vector<std::size_t>{9} : std::vector<std::size_t>{9, 20, 45});
    if (!S) longer<double>("sizes", gen::every(1, T ? 80 : 40, T ? 513 : 257));
    if (!S) range_sizes<float>("range-sizes", T ? 130 : 70);
    if (!S) range_sizes<int>("range-sizes-int", T ? 130 : 70);
    return 0;
}
MC_MAIN
