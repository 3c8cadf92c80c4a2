// C07: single-linkage hierarchies and flat cuts of every weighted labelled tree, against connectivity.
#include "rng_control.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "mc.hpp"
#include "gen.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

namespace ds = ffcl::datastruct;
using IntEdges = std::vector<std::tuple<std::size_t, std::size_t, int>>;

// the node a link refers to, whether the link owns it or not
template <typename Node>
const Node* target(const std::weak_ptr<Node>& link) { return link.lock().get(); }
template <typename Node>
const Node* target(const std::shared_ptr<Node>& link) { return link.get(); }
template <typename Node>
const Node* target(Node* link) { return link; }

inline std::string show_edges(const IntEdges& e) {
    std::string s = "{";
    for (auto& [a, b, w] : e) s += " " + std::to_string(a) + "-" + std::to_string(b) + ":" + std::to_string(w);
    return s + " }";
}
// component of every node using the edges with weight below (or up to) the limit
inline std::vector<int> components(const IntEdges& e, std::size_t n, double limit, bool inclusive) {
    std::vector<int> c(n);
    std::iota(c.begin(), c.end(), 0);
    for (bool changed = true; changed;) {
        changed = false;
        for (auto& [a, b, w] : e)
            if ((w < limit || (inclusive && w == limit)) && c[a] != c[b]) {
                const int m = std::min(c[a], c[b]);
                c[a] = c[b] = m;
                changed     = true;
            }
    }
    return c;
}

template <typename V>
struct Check {
    V      scale = 1;
    V      base  = 0;  // the weights the library sees are base + scale * w
    using Tree   = ds::SingleLinkageClusterTree<std::size_t, V>;
    using Edges  = typename Tree::MinimumSpanningTreeType;
    using Opt    = typename Tree::Options;

    template <typename Node, typename W>
    std::vector<std::size_t> walk(const Node& node, const IntEdges& e, std::size_t n, std::vector<V>& heights, std::vector<char>& seen, std::string& why, W& what) const {
        std::vector<std::size_t> leaves;
        if (!node->left_ != !node->right_) {
            why = "an inner node has one child";
            return leaves;
        }
        if (node->is_leaf()) {
            if (node->representative_ >= n || seen[node->representative_]) why = "the leaves are not the samples";
            else seen[node->representative_] = 1;
            if (node->level_ != 0 || node->size() != 1) why = "a leaf has a level or a size";
            return {node->representative_};
        }
        heights.push_back(node->level_);
        for (const auto& child : {node->left_, node->right_}) {
            if (target(child->parent_) != target(node)) why = "a child is not linked to its parent";
            if (child->level_ > node->level_) why = "heights decrease towards the root";
            auto l = walk(child, e, n, heights, seen, why, what);
            if (!why.empty()) return leaves;
            leaves.insert(leaves.end(), l.begin(), l.end());
        }
        mc::step();
        if (node->size() != leaves.size()) why = "a node's size is not the number of its samples";
        if (std::find(leaves.begin(), leaves.end(), node->representative_) == leaves.end()) why = "a node's representative is not one of its samples";
        const double level = static_cast<double>(node->level_ - base) / scale;
        const auto   upto  = components(e, n, level, true);
        for (auto l : leaves)
            if (upto[l] != upto[leaves[0]]) why = "a node joins samples that are not connected at its height";
        // nothing merged below the parent's height is missing
        if (!node->has_parent() || target(node->parent_)->level_ > node->level_)
            for (std::size_t i = 0; i < n; ++i)
                if (upto[i] == upto[leaves[0]] && std::find(leaves.begin(), leaves.end(), i) == leaves.end()) why = "a node misses samples connected at its height";
        return leaves;
    }

    void cut(const Tree& tree, const IntEdges& e, std::size_t n, double level, std::size_t min_size, const std::string& name, const std::vector<std::size_t>& labels, const std::function<std::string()>& what) const {
        const auto c = components(e, n, level, false);
        mc::step();
        auto bad = [&](const std::string& why) { mc::fail("cut", why + ": labels " + mc::show(labels) + " " + name + " min_cluster_size=" + std::to_string(min_size) + " " + what()); };
        if (labels.size() != n) return bad("there is not one label per sample");
        std::vector<std::size_t> count(n, 0);
        for (auto x : c) ++count[x];
        std::uint64_t h = 0;
        for (std::size_t i = 0; i < n; ++i) {
            const bool noise = count[c[i]] < min_size;
            if (noise != (labels[i] == 0)) return bad(noise ? "a sample of a small group is not noise" : "a sample of a large enough group is labelled as noise");
            h = h * 31 + (noise ? 99 : c[i]);
        }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (labels[i] && labels[j] && (labels[i] == labels[j]) != (c[i] == c[j])) return bad("labels disagree with the connectivity");
        mc::outcome(h);
    }

    void run(const IntEdges& e, std::size_t n, int max_weight, bool all_options) const {
        auto what = [&] { return "edges " + show_edges(e) + " scale " + std::to_string(static_cast<double>(scale)) + " base " + std::to_string(static_cast<double>(base)); };
        mc::guard("linkage", [&] {
            Edges edges;
            for (auto& [a, b, w] : e) edges.push_back({a, b, static_cast<V>(base + w * scale)});
            Tree tree(edges);
            mc::exec();
            std::vector<V>    heights;
            std::vector<char> seen(n, 0);
            std::string       why;
            const auto        leaves = walk(tree.root(), e, n, heights, seen, why, what);
            if (why.empty() && leaves.size() != n) why = "the hierarchy does not contain every sample";
            std::sort(heights.begin(), heights.end());
            std::vector<V> want;
            for (auto& ed : edges) want.push_back(std::get<2>(ed));
            std::sort(want.begin(), want.end());
            if (why.empty() && heights != want) why = "the merge heights are not the edge weights";
            if (why.empty() && tree.root()->has_parent()) why = "the root has a parent";
            if (!why.empty()) mc::fail("hierarchy", why + "; " + what());
            else {
                cut(tree, e, n, 1e9, 1, "default options", tree.predict(), what);
                for (int half = 0; half <= 2 * max_weight + 1; ++half) {
                    const double level = half / 2.0;
                    if (std::is_integral_v<V> && half % 2) continue;
                    for (std::size_t m = 1; m <= (all_options ? n + 1 : 3); ++m) {
                        tree.set_options(Opt().cut_level(static_cast<V>(base + level * scale)).min_cluster_size(m));
                        cut(tree, e, n, level, m, "cut level " + std::to_string(level), tree.extract_flat_clusters(), what);
                        if (m == 2) cut(tree, e, n, level, m, "cut level " + std::to_string(level), tree.predict(), what);
                    }
                }
                for (std::size_t m = 1; m <= n + 1; m += n) {
                    Edges moved = edges;
                    Tree  other(std::move(moved), Opt().min_cluster_size(m));
                    cut(other, e, n, 1e9, m, "no cut level", other.predict(), what);
                    Tree third(edges, Opt().cut_level(static_cast<V>(base + scale * 2)).min_cluster_size(m));
                    cut(third, e, n, 2, m, "cut level 2", third.predict(), what);
                }
            }
        }, what);
    }
};

// all weighted trees; `orders`: every order of the edge list (otherwise three), weights from 1..top
template <typename V>
void weighted(const std::string& name, std::size_t n_min, std::size_t n_max, int top, int low, bool orders, V scale, V base = 0) {
    if (!mc::begin_space(name)) return;
    Check<V> check{scale, base};
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::labelled_trees(n, [&](const std::vector<std::pair<std::size_t, std::size_t>>& t) {
            gen::tuples(n - 1, top - low + 1, [&](const std::vector<int>& w) {
                if (!mc::take()) return;
                IntEdges e;
                for (std::size_t i = 0; i + 1 < n; ++i) e.push_back({t[i].first, t[i].second, w[i] + low});
                mc::sample([&] { return show_edges(e); });
                if (orders) {
                    gen::permutations(n - 1, [&](const std::vector<std::size_t>& p) {
                        IntEdges o;
                        for (std::size_t i = 0; i < p.size(); ++i) {
                            auto x = e[p[i]];
                            if ((i + p[i]) % 2) std::swap(std::get<0>(x), std::get<1>(x));
                            o.push_back(x);
                        }
                        check.run(o, n, top, true);
                    });
                } else {
                    check.run(e, n, top, false);
                    std::reverse(e.begin(), e.end());
                    for (auto& x : e) std::swap(std::get<0>(x), std::get<1>(x));
                    check.run(e, n, top, false);
                }
            });
        });
}
template <typename V>
void large(const std::string& name, std::vector<std::size_t> sizes, V scale, V base = 0, std::vector<int> muls = {1, 2, 3, 5, 7}, std::vector<int> mods = {1, 2, 4, 9, 23}) {
    if (!mc::begin_space(name)) return;
    Check<V> check{scale, base};
    for (auto n : sizes)
        for (int shape = 0; shape < 6; ++shape)
            for (int mul : muls)
                for (int mod : mods) {
                    if (!mc::take()) continue;
                    IntEdges e;
                    for (std::size_t i = 1; i < n; ++i) {
                        const std::size_t p = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? i / 2 : shape == 3 ? i - 1 - (i - 1) % 3 : shape == 4 ? (i * 7 + 3) % i : (i > 3 ? i - 3 : 0);
                        e.push_back({i, p, 1 + static_cast<int>(i * mul + i * i / 3) % mod});
                    }
                    mc::sample([&] { return show_edges({e.begin(), e.begin() + 5}) + "... (" + std::to_string(n) + ")"; });
                    check.run(e, n, mod, false);
                    // interleaved order
                    IntEdges o;
                    for (std::size_t s = 0; s < 3; ++s)
                        for (std::size_t i = s; i < e.size(); i += 3) o.push_back(e[i]);
                    check.run(o, n, mod, false);
                }
}

// more samples than 16 bits count: the height at which the ends of every edge meet is the edge's weight, and the heights
// are the weights, so that at every height the nodes are the connected groups
template <typename V>
void check_huge(const std::string& name, const IntEdges& e, std::size_t n) {
    auto what = [&] { return name; };
    using Tree = ds::SingleLinkageClusterTree<std::size_t, V>;
    mc::guard("linkage", [&] {
        typename Tree::MinimumSpanningTreeType edges;
        for (auto& [a, b, w] : e) edges.push_back({a, b, static_cast<V>(w)});
        Tree tree(edges);
        mc::exec();
        mc::step(n);
        auto bad = [&](const std::string& why) { mc::fail("hierarchy", why + "; " + what()); };
        // leaves from left to right, the height of the node between neighbours
        using Node = std::remove_reference_t<decltype(*tree.root())>;
        std::vector<std::size_t>                     at(n, n);
        std::vector<V>                               between;
        std::vector<std::pair<const Node*, int>>     path{{&*tree.root(), 0}};
        std::vector<std::size_t>                     first{0};
        std::size_t                                  leaves = 0;
        while (!path.empty()) {
            auto& [node, state] = path.back();
            if (!node->left_ != !node->right_) return bad("an inner node has one child");
            if (!node->left_) {
                if (leaves == n || node->representative_ >= n || at[node->representative_] != n) return bad("the leaves are not the samples");
                if (node->level_ != 0 || node->size() != 1) return bad("a leaf has a level or a size");
                at[node->representative_] = leaves++;
                path.pop_back();
                first.pop_back();
                continue;
            }
            if (state == 2) {
                if (node->size() != leaves - first.back()) return bad("a node's size is not the number of its samples");
                if (node->representative_ >= n || at[node->representative_] == n || at[node->representative_] < first.back()) return bad("a node's representative is not one of its samples");
                path.pop_back();
                first.pop_back();
                continue;
            }
            if (state == 1) between.push_back(node->level_);
            const Node* child = state ? &*node->right_ : &*node->left_;
            if (target(child->parent_) != node) return bad("a child is not linked to its parent");
            if (child->level_ > node->level_) return bad("heights decrease towards the root");
            ++state;
            path.push_back({child, 0});
            first.push_back(leaves);
        }
        if (leaves != n) return bad("the hierarchy does not contain every sample");
        auto heights = between, want = std::vector<V>();
        for (auto& ed : edges) want.push_back(std::get<2>(ed));
        std::sort(heights.begin(), heights.end());
        std::sort(want.begin(), want.end());
        if (heights != want) return bad("the merge heights are not the edge weights");
        std::vector<std::vector<V>> top{between};
        for (std::size_t l = 1; (std::size_t(1) << l) <= between.size(); ++l) {
            const std::size_t half = std::size_t(1) << (l - 1);
            std::vector<V>    row(between.size() - 2 * half + 1);
            for (std::size_t i = 0; i < row.size(); ++i) row[i] = std::max(top[l - 1][i], top[l - 1][i + half]);
            top.push_back(row);
        }
        for (auto& [a, b, w] : e) {
            const auto  lo = std::min(at[a], at[b]), hi = std::max(at[a], at[b]);
            std::size_t l = 0;
            while ((std::size_t(2) << l) <= hi - lo) ++l;
            if (std::max(top[l][lo], top[l][hi - (std::size_t(1) << l)]) != static_cast<V>(w)) return bad("samples " + std::to_string(a) + " and " + std::to_string(b) + " do not meet at the weight of their edge");
        }
        // flat cuts
        for (std::size_t m : {1, 2, 5})
            for (int level : {1, 2, 4}) {
                std::vector<std::size_t> group(n), size(n, 1), label_of(n, 0);
                std::iota(group.begin(), group.end(), 0);
                auto find = [&](std::size_t i) {
                    while (group[i] != i) i = group[i] = group[group[i]];
                    return i;
                };
                for (auto& [a, b, w] : e)
                    if (w < level) {
                        auto x = find(a), y = find(b);
                        if (size[x] < size[y]) std::swap(x, y);
                        group[y] = x;
                        size[x] += size[y];
                    }
                tree.set_options(typename Tree::Options().cut_level(static_cast<V>(level)).min_cluster_size(m));
                const auto labels = m == 2 ? tree.predict() : tree.extract_flat_clusters();
                mc::step(n);
                auto wrong = [&](const std::string& why) { mc::fail("cut", why + " at level " + std::to_string(level) + " min_cluster_size=" + std::to_string(m) + ": " + what()); };
                if (labels.size() != n) return wrong("there is not one label per sample");
                std::map<std::size_t, std::size_t> of_label;
                for (std::size_t i = 0; i < n; ++i) {
                    const auto g = find(i);
                    if ((size[g] < m) != (labels[i] == 0)) return wrong("noise is not the samples of the small groups");
                    if (!labels[i]) continue;
                    if (!label_of[g]) {
                        label_of[g] = labels[i];
                        if (!of_label.emplace(labels[i], g).second) return wrong("two groups share a label");
                    }
                    if (label_of[g] != labels[i]) return wrong("one group has two labels");
                }
                mc::outcome(mc::mix(of_label.size(), m));
            }
    }, what);
}
void huge() {
    if (!mc::begin_space("huge")) return;
    const auto n = gen::kHuge;
    for (int shape = 0; shape < 6; ++shape)
        for (int mod : {3, 997, 1000003}) {
            if (!mc::take()) continue;
            IntEdges e;
            for (std::size_t i = 1; i < n; ++i) {
                const std::size_t p = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? i / 2 : shape == 3 ? i - 1 - (i - 1) % 3 : shape == 4 ? (i * 7 + 3) % i : (i > 3 ? i - 3 : 0);
                e.push_back({i, p, 1 + static_cast<int>(mod == 1000003 ? i / 2 : (i * 3 + i * i / 3) % mod)});
            }
            const std::string name = "66001 samples, shape " + std::to_string(shape) + ", weights " + (mod == 1000003 ? "increasing" : "modulo " + std::to_string(mod));
            mc::sample([&] { return name; });
            if (shape % 2) check_huge<double>(name, e, n);
            else check_huge<float>(name, e, n);
        }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    weighted<float>("all-orders", 1, S ? 3 : 4, 3, 1, true, 1.f);
    if (!S) weighted<double>("all-orders-scaled", 1, 4, 3, 1, true, 1e-9);
    // weights that differ only in the last digits of their type
    if (!S) weighted<double>("nearly-equal", 1, 4, 3, 1, true, 1.0 / (1ull << 40), 1.0);
    if (!S) weighted<float>("nearly-equal-float", 1, 4, 3, 1, true, 1.f, static_cast<float>(1 << 22));
    if (!S) weighted<double>("huge-weights", 1, 4, 3, 1, true, 1e300);
    weighted<float>("zero-weights", 1, S ? 3 : T ? 6 : 5, 2, 0, true, 0.5f);
    if (!S) weighted<float>("trees-5", 5, 5, 4, 1, T, 0.25f);
    if (!S) weighted<double>("trees-6", 6, 6, T ? 5 : 4, 1, false, 1.0);
    if (!S) weighted<int>("integer-weights", 1, 4, 3, 1, true, 2);
    large<float>("large", S ? std::vector<std::size_t>{9} : T ? std::vector<std::size_t>{9, 17, 33, 60, 150} : std::vector<std::size_t>{9, 17, 33}, 1.f);
    if (!S) large<double>("large-nearly-equal", {9, 33}, 1.0 / (1ull << 40), 1024.0);
    if (!S) large<float>("sizes", gen::every(2, T ? 130 : 70), 0.5f, 0, {3}, {4, 23});
    if (!S) large<float>("big", gen::big(T ? 1025 : 300), 0.5f, 0, {3}, {4, 997});
    if (!S) large<double>("sizes-double", gen::every(2, T ? 130 : 70), 1.0, 0, {2}, {9});
    if (!S) huge();
    return 0;
}
MC_MAIN
