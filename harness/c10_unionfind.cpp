// C10: every operation history of the union-find structure against a reference partition.
#include "mc.hpp"
#include "gen.hpp"
#include "ffcl/datastruct/UnionFind.hpp"

#include <numeric>

using ffcl::datastruct::UnionFind;

struct Model {  // boring reference: explicit component label per element
    std::vector<int> label;
    explicit Model(int n)
      : label(n) {
        std::iota(label.begin(), label.end(), 0);
    }
    void merge(int a, int b) {
        const int la = label[a], lb = label[b];
        for (auto& l : label)
            if (l == lb) l = la;
    }
};

template <typename Index>
bool observe(const UnionFind<Index>& uf, const Model& m, const std::string& what) {
    const int        n = static_cast<int>(m.label.size());
    std::vector<int> rep(n);
    for (int i = n - 1; i >= 0; --i) {
        const auto r = uf.find(static_cast<Index>(i));
        if (static_cast<long long>(r) < 0 || static_cast<long long>(r) >= n) {
            mc::fail("find-range", "find(" + std::to_string(i) + ") = " + std::to_string((long long)r) + " after " + what);
            return false;
        }
        rep[i] = static_cast<int>(r);
    }
    std::uint64_t h = n;
    for (int i = 0; i < n; ++i) {
        mc::step();
        h = mc::mix(h, rep[i]);
        if (static_cast<int>(uf.find(static_cast<Index>(i))) != rep[i]) {
            mc::fail("find-unstable", "repeated find(" + std::to_string(i) + ") disagrees after " + what);
            return false;
        }
        if (m.label[rep[i]] != m.label[i]) {
            mc::fail("find-foreign", "find(" + std::to_string(i) + ") is not a member of its component after " + what);
            return false;
        }
        for (int j = 0; j < i; ++j)
            if ((rep[i] == rep[j]) != (m.label[i] == m.label[j])) {
                mc::fail("partition", "elements " + std::to_string(i) + " and " + std::to_string(j) +
                                          " wrongly " + (rep[i] == rep[j] ? "joined" : "separated") + " after " + what);
                return false;
            }
    }
    mc::outcome(h);
    return true;
}

std::string describe(int n, const std::vector<std::pair<int, int>>& ops, const std::string& init = "") {
    std::string s = "n=" + std::to_string(n) + init;
    for (auto [a, b] : ops)
        s += b < 0 ? " find(" + std::to_string(a) + ")" : " merge(" + std::to_string(a) + "," + std::to_string(b) + ")";
    return s;
}

// execute one history; operations with b < 0 are finds. Results of every operation are checked.
template <typename Index>
void run(UnionFind<Index>& uf, Model& m, int n, const std::vector<std::pair<int, int>>& ops, const std::string& init = "") {
    mc::exec();
    auto what = [&] { return describe(n, ops, init); };
    for (std::size_t k = 0; k < ops.size(); ++k) {
        const auto [a, b] = ops[k];
        mc::step();
        if (b < 0) {
            const int r = static_cast<int>(uf.find(static_cast<Index>(a)));
            if (r < 0 || r >= n || m.label[r] != m.label[a])
                return mc::fail("find-foreign", "find(" + std::to_string(a) + ") = " + std::to_string(r) + " within " + what());
        } else {
            const int r = static_cast<int>(uf.merge(static_cast<Index>(a), static_cast<Index>(b)));
            m.merge(a, b);
            if (r < 0 || r >= n || m.label[r] != m.label[a])
                return mc::fail("merge-result", "merge(" + std::to_string(a) + "," + std::to_string(b) + ") = " + std::to_string(r) + " within " + what());
            // the merge result must be what find returns; probed after the last operation only, so that the probe does
            // not disturb the explored history
            if (k + 1 == ops.size()) {
                if (static_cast<int>(uf.find(static_cast<Index>(r))) != r)
                    return mc::fail("merge-result", "merge returned a non representative within " + what());
            }
        }
    }
    observe(uf, m, what());
}

template <typename Index>
void all_histories(const std::string& name, int n, int depth) {
    if (!mc::begin_space(name + "/n=" + std::to_string(n))) return;
    std::vector<std::pair<int, int>> alphabet;
    for (int a = 0; a < n; ++a) alphabet.push_back({a, -1});
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b) alphabet.push_back({a, b});
    for (int d = 0; d <= depth; ++d)
        gen::tuples(d, alphabet.size(), [&](const std::vector<int>& t) {
            if (!mc::take()) return;
            std::vector<std::pair<int, int>> ops;
            for (int x : t) ops.push_back(alphabet[x]);
            mc::sample([&] { return describe(n, ops); });
            mc::guard("unionfind", [&] {
                UnionFind<Index> uf(n);
                Model            m(n);
                run(uf, m, n, ops);
            }, [&] { return describe(n, ops); });
        });
}

// merges only, each joining two different components: every complete merge history
void all_merge_trees(int n) {
    if (!mc::begin_space("merge-trees/n=" + std::to_string(n))) return;
    std::vector<std::pair<int, int>> ops;
    std::function<void(Model)>       rec = [&](Model m) {
        if (static_cast<int>(ops.size()) == n - 1) {
            if (!mc::take()) return;
            mc::sample([&] { return describe(n, ops); });
            mc::guard("unionfind", [&] {
                UnionFind<std::size_t> uf(n);
                Model                  r(n);
                run(uf, r, n, ops);
            }, [&] { return describe(n, ops); });
            return;
        }
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                if (m.label[a] != m.label[b]) {
                    Model k = m;
                    k.merge(a, b);
                    ops.push_back({a, b});
                    rec(k);
                    ops.pop_back();
                }
    };
    rec(Model(n));
}

// every initial labelling that is a forest of parent pointers, followed by every short history
template <typename Index>
void all_labelings(int n, int depth) {
    if (!mc::begin_space("labelings/n=" + std::to_string(n))) return;
    std::vector<std::pair<int, int>> alphabet;
    for (int a = 0; a < n; ++a) alphabet.push_back({a, -1});
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b) alphabet.push_back({a, b});
    gen::tuples(n, n, [&](const std::vector<int>& parent) {
        for (int i = 0; i < n; ++i) {  // acyclic except for roots
            int x = i, k = 0;
            while (parent[x] != x && k++ <= n) x = parent[x];
            if (parent[x] != x) return;
        }
        for (int d = 0; d <= depth; ++d)
            gen::tuples(d, alphabet.size(), [&](const std::vector<int>& t) {
                if (!mc::take()) return;
                std::vector<std::pair<int, int>> ops;
                for (int x : t) ops.push_back(alphabet[x]);
                const auto init = " labels=" + mc::show(parent);
                mc::sample([&] { return describe(n, ops, init); });
                mc::guard("unionfind", [&] {
                    auto labels = std::make_unique<Index[]>(n);
                    for (int i = 0; i < n; ++i) labels[i] = static_cast<Index>(parent[i]);
                    UnionFind<Index> uf(n, std::move(labels));
                    Model            m(n);
                    for (int i = 0; i < n; ++i) m.merge(i, parent[i]);
                    run(uf, m, n, ops, init);
                }, [&] { return describe(n, ops, init); });
            });
    });
}

// longer histories on larger universes: all members of an arithmetic family of merge patterns, with finds in between
void long_histories(int n, int stride) {
    if (!mc::begin_space("long/n=" + std::to_string(n))) return;
    for (int a = 0; a < n; a += stride)
        for (int b = 0; b < n; b += stride)
            for (int c = 0; c < n; c += stride)
                for (int d = 0; d < n; d += stride)
                    for (int len : {n / 2, n - 1, 2 * n}) {
                        if (!mc::take()) continue;
                        std::vector<std::pair<int, int>> ops;
                        for (int i = 0; i < len; ++i) {
                            ops.push_back({(a * i + b) % n, (c * i + d + i / 3) % n});
                            if (i % 3 == 1) ops.push_back({(b * i + c) % n, -1});
                        }
                        mc::sample([&] { return describe(n, ops); });
                        mc::guard("unionfind", [&] {
                            UnionFind<std::size_t> uf(n);
                            Model                  m(n);
                            run(uf, m, n, ops);
                            UnionFind<std::size_t> moved(std::move(uf));
                            observe(moved, m, "move of " + describe(n, ops));
                            auto pairing = moved.merge(0, n - 1);
                            m.merge(0, n - 1);
                            (void)pairing;
                            observe(moved, m, "merge after move of " + describe(n, ops));
                        }, [&] { return describe(n, ops); });
                    }
}

// more elements than 16 bits can count: merges of i and i + gap in some order, checked against the residues and runs
void huge() {
    if (!mc::begin_space("huge")) return;
    const std::size_t n = gen::kHuge;
    for (std::size_t gap : {1, 2, 7, 1000, 65536})
        for (int order = 0; order < 3; ++order)
            for (std::size_t stop : {n, n / 2}) {
                if (!mc::take()) continue;
                auto what = [&] { return "n=" + std::to_string(n) + " merge(i, i + " + std::to_string(gap) + ") for i + " + std::to_string(gap) + " < " + std::to_string(stop) + " in order " + std::to_string(order); };
                mc::sample(what);
                mc::guard("unionfind", [&] {
                    UnionFind<std::size_t> uf(n);
                    mc::exec();
                    std::vector<std::size_t> at;
                    for (std::size_t i = 0; i + gap < stop; ++i) at.push_back(i);
                    if (order == 1) std::reverse(at.begin(), at.end());
                    if (order == 2) std::stable_sort(at.begin(), at.end(), [](std::size_t a, std::size_t b) { return a * 40503 % 65521 < b * 40503 % 65521; });
                    for (auto i : at) {
                        mc::step();
                        const auto r = uf.merge(i, i + gap);
                        if (r >= n || uf.find(r) != r) return mc::fail("merge-result", "merge returned " + std::to_string(r) + ", no representative: " + what());
                    }
                    // the component of i is its residue when it has been merged at all
                    auto own = [&](std::size_t i) { return i < stop ? i % gap : i; };
                    std::vector<std::size_t> rep(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        rep[i] = uf.find(i);
                        mc::step();
                        if (rep[i] >= n) return mc::fail("find-range", "find(" + std::to_string(i) + ") = " + std::to_string(rep[i]) + " after " + what());
                        if (own(rep[i]) != own(i)) return mc::fail("find-foreign", "find(" + std::to_string(i) + ") is not a member of its component after " + what());
                        if (rep[i] != rep[own(i)]) return mc::fail("partition", "elements " + std::to_string(i) + " and " + std::to_string(own(i)) + " wrongly separated after " + what());
                    }
                    mc::outcome(mc::mix(rep[0], gap));
                }, what);
            }
}

int mc::explore() {
    const bool T = mc::thorough();
    const bool S = mc::san();
    all_histories<std::size_t>("histories", 2, S ? 3 : 6);
    all_histories<std::size_t>("histories", 3, S ? 2 : T ? 7 : 6);
    all_histories<std::size_t>("histories", 4, S ? 2 : T ? 6 : 5);
    all_histories<std::size_t>("histories", 5, S ? 1 : T ? 5 : 4);
    all_histories<int>("histories-int", 3, S ? 2 : 4);
    all_histories<unsigned char>("histories-u8", 3, S ? 2 : 4);
    all_histories<std::int16_t>("histories-i16", 4, S ? 2 : 3);
    all_merge_trees(4);
    if (!S) all_merge_trees(5);
    if (T) all_merge_trees(6);
    all_labelings<std::size_t>(3, S ? 1 : 3);
    all_labelings<std::size_t>(4, S ? 1 : T ? 4 : 3);
    all_labelings<int>(4, S ? 0 : 1);
    if (!S) all_labelings<std::size_t>(5, 1);
    long_histories(8, S ? 4 : 1);
    if (!S) for (int n = 2; n <= (T ? 130 : 70); ++n) long_histories(n, n < 5 ? 1 : n / 4);
    if (!S) huge();
    if (!S) for (auto n : gen::big(T ? 2049 : 513)) long_histories(static_cast<int>(n), static_cast<int>(n) / 2 + 1);
    long_histories(17, S ? 8 : T ? 1 : 2);
    if (!S) long_histories(40, T ? 3 : 6);
    return 0;
}
MC_MAIN
