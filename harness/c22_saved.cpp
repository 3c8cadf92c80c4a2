// C22: saved descriptions of tree indexes and hierarchies against the structure in memory; copies, moves and searchers.
#include "spaces.hpp"

#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

#include <cstdlib>
#include <cstring>

using namespace th;
namespace buf = ffcl::search::buffer;

static std::filesystem::path scratch() {
    static struct Dir {
        std::filesystem::path path;
        Dir() {
            char t[] = "/tmp/mc-c22-XXXXXX";
            if (!mkdtemp(t)) std::abort();
            path = t;
        }
        ~Dir() {
            std::error_code e;
            std::filesystem::remove_all(path, e);
        }
    } dir;
    return dir.path / "saved.json";
}
static std::string slurp() {
    std::ifstream     f(scratch(), std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

using Json = rapidjson::Value;
template <typename T>
bool same_number(const Json& j, T v) {
    if (!j.IsNumber()) return false;
    if constexpr (std::is_integral_v<T>) return j.IsInt64() && j.GetInt64() == static_cast<std::int64_t>(v);
    return static_cast<T>(j.GetDouble()) == v && std::fabs(j.GetDouble() - double(v)) <= 0;
}
// an empty explanation when the description of a node is exactly the node
template <typename T, typename Node>
std::string compare(const Json& j, const Node& node, const Data<T>& data, std::size_t dim) {
    if (!j.IsObject() || !j.HasMember("axis") || !j.HasMember("points")) return "a node is not described";
    if (!j["axis"].IsInt64() || j["axis"].GetInt64() != node->cut_axis_feature_index_) return "the cut axis of a node is wrong";
    const auto& points = j["points"];
    const std::size_t n = std::distance(node->indices_range_.first, node->indices_range_.second);
    if (!points.IsArray() || points.Size() != n) return "a node does not list its samples";
    for (std::size_t i = 0; i < n; ++i) {
        const auto& p = points[rapidjson::SizeType(i)];
        if (!p.IsArray() || p.Size() != dim) return "a sample does not list its features";
        for (std::size_t f = 0; f < dim; ++f)
            if (!same_number(p[rapidjson::SizeType(f)], data[node->indices_range_.first[i] * dim + f])) return "a feature of a sample is not saved exactly";
    }
    mc::step();
    if (j.HasMember("left") != bool(node->left_) || j.HasMember("right") != bool(node->right_)) return "the children of a node are wrong";
    std::string why;
    if (node->left_) why = compare<T>(j["left"], node->left_, data, dim);
    if (why.empty() && node->right_) why = compare<T>(j["right"], node->right_, data, dim);
    return why;
}

template <typename T>
std::string describe(const Tree<T>& tree, const Data<T>& data, std::size_t dim, std::size_t n_indexed, const Config& c, std::string& text) {
    tree.serialize(scratch());
    text = slurp();
    rapidjson::Document d;
    d.Parse<rapidjson::kParseFullPrecisionFlag>(text.c_str());
    if (d.HasParseError() || !d.IsObject()) return "the file is not a JSON document";
    for (const char* k : {"n_samples", "n_features", "options", "bounding_box", "root"})
        if (!d.HasMember(k)) return std::string("the description has no ") + k;
    if (!d["n_samples"].IsUint64() || d["n_samples"].GetUint64() != n_indexed) return "the number of samples is wrong";
    if (!d["n_features"].IsUint64() || d["n_features"].GetUint64() != dim) return "the number of features is wrong";
    const auto& o = d["options"];
    if (!o.IsObject() || !o.HasMember("bucket_size") || !o.HasMember("max_depth") || !o["bucket_size"].IsUint64() || o["bucket_size"].GetUint64() != c.bucket || !o["max_depth"].IsUint64() || o["max_depth"].GetUint64() != c.depth) return "the options are wrong";
    const auto& box = d["bounding_box"];
    if (!box.IsArray() || box.Size() != dim) return "the bounding box is wrong";
    std::vector<T> lo(dim), hi(dim);
    bool           first = true;
    std::function<void(const typename Tree<T>::NodePtr&)> walk = [&](const auto& node) {
        for (auto i = node->indices_range_.first; i != node->indices_range_.second; ++i, first = false)
            for (std::size_t f = 0; f < dim; ++f) {
                const T v = data[*i * dim + f];
                lo[f]     = first ? v : std::min(lo[f], v);
                hi[f]     = first ? v : std::max(hi[f], v);
            }
        if (node->left_) walk(node->left_);
        if (node->right_) walk(node->right_);
    };
    walk(tree.root());
    for (rapidjson::SizeType f = 0; f < dim; ++f)
        if (!box[f].IsArray() || box[f].Size() != 2 || !same_number(box[f][0], lo[f]) || !same_number(box[f][1], hi[f])) return "the bounding box is wrong";
    return compare<T>(d["root"], tree.root(), data, dim);
}

// everything a search from this index returns, as text
template <typename S, typename T>
std::string answers(const S& searcher, const std::vector<Data<T>>& queries, std::size_t n) {
    std::string r;
    for (auto q : queries)
        for (std::size_t k : {std::size_t(1), n / 2 + 1}) {
            auto b = searcher(buf::Unsorted<typename Data<T>::iterator>(q.begin(), q.end(), k));
            for (auto& e : entries(b)) r += std::to_string(e.index) + "=" + std::to_string(e.distance) + " ";
            r += "; ";
            mc::step();
        }
    return r;
}

template <typename T>
struct Space {
    std::vector<Config>    configs;
    std::vector<Embedding> embeddings{{}};

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        for (const auto& e : embeddings)
            for (const auto& c : configs) {
                auto    data = embed<T>(x, e);
                Indices idx  = order;
                auto    what = [&] { return "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text(); };
                mc::guard("saved", [&] {
                    mc::exec();
                    std::vector<Data<T>> queries{Data<T>(data.begin(), data.begin() + dim), Data<T>(data.end() - dim, data.end()), embed<T>(std::vector<int>(dim, 1), e)};
                    auto                 tree = std::make_unique<Tree<T>>(make_tree<T>(idx, data, dim, c));
                    std::string          text, again;
                    std::string          why = describe(*tree, data, dim, order.size(), c, text);
                    if (!why.empty()) return mc::fail("saved", why + ": " + what());
                    const Indices built = idx;
                    auto same = [&](const Tree<T>& t, const char* kind) {
                        const std::string w = describe(t, data, dim, order.size(), c, again);
                        if (!w.empty() || again != text) return mc::fail("copy", std::string(kind) + " tree is described differently (" + w + "): " + what());
                        if (t.n_features() != dim || t.n_samples() != data.size() / dim || t.begin() != data.begin() || t.end() != data.end()) mc::fail("copy", std::string(kind) + " tree has other samples: " + what());
                        for (std::size_t i = 0; i < data.size() / dim; ++i)
                            if (t[i] != data.begin() + i * dim || t.features_range_first(i) != data.begin() + i * dim || t.features_range_last(i) != data.begin() + (i + 1) * dim) mc::fail("copy", std::string(kind) + " tree has other samples: " + what());
                        mc::step();
                    };
                    std::string want;
                    {
                        ffcl::search::Searcher s(*tree);
                        want = answers<decltype(s), T>(s, queries, order.size());
                    }
                    same(*tree, "the searched");
                    auto copy = std::make_unique<Tree<T>>(*tree);
                    same(*copy, "a copied");
                    same(*tree, "the original of a copied");
                    auto moved = std::make_unique<Tree<T>>(std::move(*tree));
                    tree.reset();
                    same(*moved, "a moved");
                    same(*copy, "a copy of a moved");
                    auto check = [&](const auto& searcher, const char* kind) {
                        if (answers<std::decay_t<decltype(searcher)>, T>(searcher, queries, order.size()) != want) mc::fail("searcher", std::string(kind) + " searcher answers differently: " + what());
                        if (searcher.n_features() != dim || searcher.n_samples() != data.size() / dim) mc::fail("searcher", std::string(kind) + " searcher has other samples: " + what());
                    };
                    {
                        ffcl::search::Searcher from_copy(*copy);
                        check(from_copy, "the copying");
                        same(*copy, "a copied tree behind a searcher, the");
                        copy.reset();
                        check(from_copy, "the outliving");
                        auto second = from_copy;
                        check(second, "the copied");
                        ffcl::search::Searcher from_move(std::move(*moved));
                        moved.reset();
                        check(from_move, "the moving");
                        auto third = std::move(second);
                        check(third, "the moved");
                    }
                    if (idx != built) mc::fail("copy", "copying reorders the indices: " + what());
                    std::uint64_t h = 0;
                    for (char ch : text) h = h * 131 + static_cast<unsigned char>(ch);
                    mc::outcome(h);
                }, what);
            }
    }
};

// ------------------------------------------------------------------------------------------------ histories
// every sequence of copies, moves, destructions and searchers made from a tree, up to a depth; every living tree and
// searcher is compared with the original after the last operation
template <typename T>
struct Histories {
    std::vector<Config>    configs;
    std::vector<Embedding> embeddings{{}};
    int                    depth = 3;

    using Search = ffcl::search::Searcher<Tree<T>>;
    struct Op {
        int         kind;
        std::size_t which;
    };
    static const char* name(int k) {
        static const char* n[] = {"copy tree", "move tree", "destroy tree", "search a copy of tree", "search moved tree", "copy searcher", "move searcher", "destroy searcher"};
        return n[k];
    }

    void operator()(const std::vector<int>& x, std::size_t dim, const Indices& order) const {
        for (const auto& e : embeddings)
            for (const auto& c : configs) {
                std::vector<Op> history;
                extend(x, dim, order, e, c, history, 1, 0);
            }
    }
    void extend(const std::vector<int>& x, std::size_t dim, const Indices& order, const Embedding& e, const Config& c, std::vector<Op>& h, std::size_t trees, std::size_t searchers) const {
        if (!h.empty()) replay(x, dim, order, e, c, h);
        if (static_cast<int>(h.size()) == depth || trees + searchers == 0) return;
        for (int k = 0; k < 8; ++k)
            for (std::size_t i = 0; i < (k < 5 ? trees : searchers); ++i) {
                h.push_back({k, i});
                extend(x, dim, order, e, c, h, trees + (k == 0 ? 1 : k == 2 || k == 4 ? -1 : 0), searchers + (k == 3 || k == 4 || k == 5 ? 1 : k == 7 ? -1 : 0));
                h.pop_back();
            }
    }
    void replay(const std::vector<int>& x, std::size_t dim, const Indices& order, const Embedding& e, const Config& c, const std::vector<Op>& h) const {
        auto    data = embed<T>(x, e);
        Indices idx  = order;
        auto    what = [&] {
            std::string s = "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + c.text() + " history";
            for (auto& o : h) s += ", " + std::string(name(o.kind)) + " " + std::to_string(o.which);
            return s;
        };
        mc::guard("history", [&] {
            mc::exec();
            std::vector<Data<T>>                  queries{Data<T>(data.begin(), data.begin() + dim), embed<T>(std::vector<int>(dim, 1), e)};
            std::vector<std::unique_ptr<Tree<T>>> trees;
            std::vector<std::unique_ptr<Search>>  searchers;
            trees.push_back(std::make_unique<Tree<T>>(make_tree<T>(idx, data, dim, c)));
            std::string text, again;
            describe(*trees[0], data, dim, order.size(), c, text);
            const Indices built = idx;
            const auto    want  = answers<Search, T>(Search(*trees[0]), queries, order.size());
            for (auto& o : h) {
                mc::step();
                static std::unique_ptr<Tree<T>> none;
                auto&                           from = o.kind < 5 ? trees[o.which] : none;
                switch (o.kind) {
                    case 0: trees.push_back(std::make_unique<Tree<T>>(*from)); break;
                    case 1: {
                        auto n        = std::make_unique<Tree<T>>(std::move(*from));
                        trees[o.which] = std::move(n);
                        break;
                    }
                    case 2: trees.erase(trees.begin() + o.which); break;
                    case 3: searchers.push_back(std::make_unique<Search>(*from)); break;
                    case 4:
                        searchers.push_back(std::make_unique<Search>(std::move(*from)));
                        trees.erase(trees.begin() + o.which);
                        break;
                    case 5: searchers.push_back(std::make_unique<Search>(*searchers[o.which])); break;
                    case 6: {
                        auto n            = std::make_unique<Search>(std::move(*searchers[o.which]));
                        searchers[o.which] = std::move(n);
                        break;
                    }
                    default: searchers.erase(searchers.begin() + o.which);
                }
            }
            for (auto& t : trees) {
                const std::string w = describe(*t, data, dim, order.size(), c, again);
                if (!w.empty() || again != text) return mc::fail("copy", "a tree is described differently (" + w + "): " + what());
                if (t->n_features() != dim || t->n_samples() != data.size() / dim || t->begin() != data.begin() || t->end() != data.end()) mc::fail("copy", "a tree has other samples: " + what());
                if (answers<Search, T>(Search(*t), queries, order.size()) != want) mc::fail("searcher", "a tree answers differently: " + what());
            }
            for (auto& s : searchers) {
                if (answers<Search, T>(*s, queries, order.size()) != want) mc::fail("searcher", "a searcher answers differently: " + what());
                if (s->n_features() != dim || s->n_samples() != data.size() / dim || s->begin() != data.begin() || s->end() != data.end()) mc::fail("searcher", "a searcher has other samples: " + what());
            }
            if (idx != built) mc::fail("copy", "the indices are reordered: " + what());
            mc::outcome(mc::mix(trees.size(), searchers.size()));
        }, what);
    }
};

// ------------------------------------------------------------------------------------------------ hierarchies
template <typename V, typename Node>
std::string compare_node(const Json& j, const Node& node) {
    if (!j.IsObject()) return "a node is not described";
    for (const char* k : {"representative", "level", "cluster_size"})
        if (!j.HasMember(k)) return std::string("a node has no ") + k;
    if (!j["representative"].IsUint64() || j["representative"].GetUint64() != node->representative_) return "a representative is wrong";
    if (!same_number<V>(j["level"], node->level_)) return "a level is wrong";
    if (!j["cluster_size"].IsUint64() || j["cluster_size"].GetUint64() != node->size()) return "a size is wrong";
    mc::step();
    if (j.HasMember("left") != bool(node->left_) || j.HasMember("right") != bool(node->right_)) return "the children of a node are wrong";
    std::string why;
    if (node->left_) why = compare_node<V>(j["left"], node->left_);
    if (why.empty() && node->right_) why = compare_node<V>(j["right"], node->right_);
    return why;
}
template <typename V>
void hierarchies(const std::string& name, std::size_t n_max, int w_max, double scale) {
    if (!mc::begin_space(name)) return;
    using H = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, V>;
    for (std::size_t n = 2; n <= n_max; ++n)
        gen::labelled_trees(n, [&](const auto& edges) {
            gen::tuples(n - 1, w_max + 1, [&](const std::vector<int>& w) {
                if (!mc::take()) return;
                typename H::MinimumSpanningTreeType mst;
                std::string                         s;
                for (std::size_t i = 0; i < edges.size(); ++i) {
                    mst.push_back({edges[i].first, edges[i].second, static_cast<V>(w[i] * scale)});
                    s += " " + std::to_string(edges[i].first) + "-" + std::to_string(edges[i].second) + ":" + std::to_string(w[i] * scale);
                }
                auto what = [&] { return "hierarchy of" + s; };
                mc::sample(what);
                mc::guard("hierarchy", [&] {
                    mc::exec();
                    H tree(mst);
                    tree.serialize(scratch());
                    const auto          text = slurp();
                    rapidjson::Document d;
                    d.Parse<rapidjson::kParseFullPrecisionFlag>(text.c_str());
                    std::string why = d.HasParseError() || !d.IsObject() || !d.HasMember("root") ? "the file is not a JSON document with a root" : compare_node<V>(d["root"], tree.root());
                    if (!why.empty()) mc::fail("hierarchy", why + ": " + what());
                    std::uint64_t h = 0;
                    for (char ch : text) h = h * 131 + static_cast<unsigned char>(ch);
                    mc::outcome(h);
                }, what);
            });
        });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const auto few = configs({Cycle, Spread}, {1, 2}, {kNoLimit, 1});
    const auto all = configs({Cycle, Spread, Variance, VarianceFull}, {1, 2, 3}, {kNoLimit, 2, 0});
    space::ordered("line", 1, 3, 1, S ? 2 : T ? 5 : 4, Space<float>{few, {{0.1, 1}}});
    space::ordered("line-double", 1, 4, 1, S ? 2 : T ? 4 : 3, Space<double>{few, {{0.1, 2}, {1.0 / 3, -7}}});
    space::ordered("line-int", 1, 3, 1, S ? 2 : T ? 4 : 3, Space<int>{few, {{3, 1}}});
    space::multisets("plane", 2, 3, 1, S ? 2 : T ? 4 : 3, Space<double>{few, {{1e-3 / 7, 1}}}, false);
    space::multisets("plane-all", 2, 2, 2, S ? 2 : T ? 6 : 5, Space<float>{all, {{1.7, 1}}}, false);
    space::multisets("plane-int", 2, 2, 2, S ? 2 : T ? 5 : 4, Space<int>{all, {{100000, 1}}}, false);
    if (!S) space::subsets("subset", 1, 2, T ? 4 : 3, Space<float>{few, {{0.3, 0}}});
    if (!S) space::large("large", 2, {20, 60}, {1, 3}, {0, 1}, {17, 41}, Space<double>{configs({Cycle, VarianceFull}, {1, 5, 40}, {kNoLimit, 3}), {{0.7, 5}}});
    if (!S) space::sizes("sizes", 2, 1, T ? 60 : 30, Space<float>{configs({VarianceFull}, {2}, {kNoLimit}), {{0.3, 5}}});
    if (!S) space::big("big", 2, T ? 513 : 257, Space<double>{configs({VarianceFull}, {2}, {kNoLimit}), {{0.3, 5}}});
    if (!S) space::dims("dims", {3, 5, 8, 9, 17, 33}, {1, 5, 16}, Space<double>{configs({Cycle}, {1}, {kNoLimit}), {{0.7, 5}}});
    if (!S) space::wide("wide", {130, 300}, {2, 24}, Space<double>{configs({Cycle, Spread}, {1}, {kNoLimit}), {{0.7, 5}}});
    const auto hc = configs({Spread}, {1, 2}, {kNoLimit});
    space::multisets("histories", 1, 3, 1, S ? 2 : T ? 4 : 3, Histories<double>{hc, {{0.1, 1}}, S ? 2 : T ? 5 : 4}, false);
    if (!S) space::multisets("histories-plane", 2, 2, 3, 3, Histories<float>{hc, {{1, 0}}, T ? 5 : 4}, false);
    if (!S) space::subsets("histories-subset", 1, 2, 3, Histories<float>{hc, {{1, 0}}, 2});
    hierarchies<float>("hierarchy", S ? 3 : T ? 5 : 4, 3, 0.1);
    hierarchies<double>("hierarchy-double", S ? 3 : T ? 5 : 4, T ? 3 : 2, 1.0 / 7);
    hierarchies<int>("hierarchy-int", S ? 3 : T ? 5 : 4, 2, 3);
    return 0;
}
MC_MAIN
