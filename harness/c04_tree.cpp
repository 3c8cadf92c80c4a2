// C04: structure of every kd-tree over small datasets, for every policy, feature subset and random draw.
#include "trees.hpp"

using namespace th;
namespace pol = ffcl::datastruct::kdtree::policy;

struct Setup {
    Config                   c;
    std::vector<std::size_t> mask;  // empty: all features
    double                   rate = 1;
    bool                     use_default_depth = false;
    std::string              text() const {
        return std::string(policy_name(c.policy)) + ",bucket=" + std::to_string(c.bucket) +
               (use_default_depth ? ",default depth" : c.depth == kNoLimit ? "" : ",depth<=" + std::to_string(c.depth)) +
               (c.policy >= Variance ? ",rate=" + std::to_string(rate) : "") + (mask.empty() ? "" : ",mask=" + mc::show(mask));
    }
};

template <typename T>
typename Tree<T>::Options setup_options(const Setup& s) {
    using I = Indices::iterator;
    using S = typename Data<T>::iterator;
    typename Tree<T>::Options o;
    o.bucket_size(s.c.bucket);
    if (!s.use_default_depth) o.max_depth(s.c.depth);
    auto set = [&](auto policy) {
        if (!s.mask.empty()) policy.feature_mask(s.mask);
        o.axis_selection_policy(policy);
    };
    if (s.c.policy == Cycle) set(pol::CycleThroughAxesBuild<I, S>());
    else if (s.c.policy == Spread) set(pol::MaximumSpreadBuild<I, S>());
    else {
        pol::HighestVarianceBuild<I, S> p;
        p.sampling_rate(s.rate);
        set(p);
    }
    o.splitting_rule_policy(pol::QuickselectMedianRange<I, S>());
    return o;
}

template <typename T>
struct Judge {
    const std::vector<int>& x;  // integer coordinates
    std::size_t             dim;
    const Setup&            s;
    const Indices&          idx;
    Embedding               e;
    std::string             why;
    std::vector<int>        stored;
    std::uint64_t           h = 0;

    int at(std::size_t sample, std::size_t f) const { return x[sample * dim + f]; }

    std::vector<std::size_t> features() const {
        if (!s.mask.empty()) return s.mask;
        std::vector<std::size_t> r(dim);
        std::iota(r.begin(), r.end(), 0);
        return r;
    }
    // n * sum of squared deviations, exact
    long spread_of(const std::vector<std::size_t>& samples, std::size_t f) const {
        long sum = 0, sq = 0;
        for (auto i : samples) sum += at(i, f), sq += static_cast<long>(at(i, f)) * at(i, f);
        return static_cast<long>(samples.size()) * sq - sum * sum;
    }
    bool axis_ok(const std::vector<std::size_t>& samples, std::size_t axis, std::size_t depth, const typename Tree<T>::NodePtr& node) {
        const auto fs = features();
        if (std::find(fs.begin(), fs.end(), axis) == fs.end()) {
            why = "cut axis " + std::to_string(axis) + " is not one of the requested features";
            return false;
        }
        if (s.c.policy == Cycle) {
            if (axis != fs[depth % fs.size()]) {
                why = "cut axis " + std::to_string(axis) + " at depth " + std::to_string(depth) + " does not cycle through the features";
                return false;
            }
        } else if (s.c.policy == Spread) {
            auto ext = [&](std::size_t f) {
                return static_cast<double>(node->bound_.segment_at(f).upper_bound()) - static_cast<double>(node->bound_.segment_at(f).lower_bound());
            };
            for (auto f : fs)
                if (ext(f) > ext(axis)) {
                    why = "cut axis " + std::to_string(axis) + " is not the longest side of the node's box";
                    return false;
                }
        } else if (samples.size() > 1 && std::is_floating_point_v<T>) {
            // the axis must have the largest variance of some selection of samples of the size the sampling rate asks for
            const std::size_t n = samples.size();
            std::size_t       m = n == 2 ? 2 : std::max<std::size_t>(3, static_cast<std::size_t>(s.rate * n));
            bool              ok = false;
            if (n <= 16) {
                for (unsigned mask = 1; mask < (1u << n) && !ok; ++mask) {
                    if (static_cast<std::size_t>(__builtin_popcount(mask)) != m) continue;
                    std::vector<std::size_t> sub;
                    for (std::size_t i = 0; i < n; ++i)
                        if (mask >> i & 1) sub.push_back(samples[i]);
                    bool best = true;
                    for (auto f : fs) best &= spread_of(sub, f) <= spread_of(sub, axis) * 1.0001;
                    ok = best;
                }
            } else if (m == n) {
                ok = true;
                for (auto f : fs) ok &= spread_of(samples, f) <= spread_of(samples, axis) * 1.0001;
            } else {
                ok = true;
            }
            if (!ok) {
                why = "cut axis " + std::to_string(axis) + " has not the largest variance of its " + std::to_string(n) + " samples";
                return false;
            }
        }
        return true;
    }
    // returns the samples below the node
    std::vector<std::size_t> visit(const typename Tree<T>::NodePtr& node, const typename Tree<T>::NodePtr& parent, std::size_t depth) {
        std::vector<std::size_t> own(node->indices_range_.first, node->indices_range_.second);
        mc::step();
        h = mc::mix(h, node->cut_axis_feature_index_ + 7);
        for (auto i : own) {
            h = mc::mix(h, i);
            if (i >= stored.size()) {
                why = "a node stores index " + std::to_string(i) + " which is no sample";
                return {};
            }
            ++stored[i];
        }
        if (node->parent_.lock() != parent) why = "a node does not point to its parent";
        if (node->is_leaf() != (!node->left_ && !node->right_)) why = "is_leaf() is wrong";
        const std::size_t limit = s.use_default_depth ? kNoLimit : s.c.depth;
        if (depth > limit) why = "a path is longer than the depth limit";
        std::vector<std::size_t> all = own;
        if (!node->left_ || !node->right_) {
            if (node->left_ || node->right_) why = "an inner node has only one child";
            if (own.size() > s.c.bucket && depth < limit)
                why = "a leaf at depth " + std::to_string(depth) + " holds " + std::to_string(own.size()) + " samples";
        } else {
            const auto axis = static_cast<std::size_t>(node->cut_axis_feature_index_);
            if (own.size() != 1 || node->cut_axis_feature_index_ < 0 || axis >= dim) {
                why = "an inner node does not hold exactly one pivot and a cut axis";
                return {};
            }
            const auto l = visit(node->left_, node, depth + 1);
            if (!why.empty()) return {};
            const auto r = visit(node->right_, node, depth + 1);
            if (!why.empty()) return {};
            const int pivot = at(own[0], axis);
            for (auto i : l)
                if (at(i, axis) >= pivot) why = "sample " + std::to_string(i) + " left of pivot " + std::to_string(own[0]) + " is not below it on axis " + std::to_string(axis);
            for (auto i : r)
                if (at(i, axis) < pivot) why = "sample " + std::to_string(i) + " right of pivot " + std::to_string(own[0]) + " is below it on axis " + std::to_string(axis);
            if (!why.empty()) return {};
            all.insert(all.end(), l.begin(), l.end());
            all.insert(all.end(), r.begin(), r.end());
            if (!axis_ok(all, axis, depth, node)) return {};
        }
        for (auto i : all)
            for (std::size_t f = 0; f < dim; ++f) {
                const T v = static_cast<T>(e.scale * (at(i, f) - e.shift));
                if (v < node->bound_.segment_at(f).lower_bound() || v > node->bound_.segment_at(f).upper_bound()) {
                    why = "the box of a node does not contain sample " + std::to_string(i) + " on feature " + std::to_string(f);
                    return {};
                }
            }
        return all;
    }
};

template <typename T>
void run(const std::vector<int>& x, std::size_t dim, const Indices& order, const Setup& s, bool all_draws, Embedding e = {}) {
    auto what = [&] { return "points " + show_points(x, dim) + e.text() + " indices " + mc::show(order) + " tree " + s.text(); };
    auto body = [&] {
        mc::guard("tree", [&] {
            auto    data = embed<T>(x, e);
            Indices idx  = order;
            mc::exec();
            Tree<T> tree(idx.begin(), idx.end(), data.begin(), data.end(), dim, setup_options<T>(s));
            if (data != embed<T>(x, e)) return mc::fail("data-changed", "building changed the data; " + what());
            auto a = idx, b = order;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a != b) return mc::fail("indices", "building changed the index set; " + what());
            Judge<T> j{x, dim, s, idx, e, "", std::vector<int>(x.size() / dim, 0)};
            j.visit(tree.root(), nullptr, 0);
            if (j.why.empty())
                for (std::size_t i = 0; i < j.stored.size(); ++i) {
                    const int want = std::count(order.begin(), order.end(), i);
                    if (j.stored[i] != want) j.why = "sample " + std::to_string(i) + " is stored " + std::to_string(j.stored[i]) + " times";
                }
            if (!j.why.empty()) return mc::fail("tree", j.why + "; " + what());
            mc::outcome(j.h);
        }, what);
    };
    if (all_draws) mcrng::for_all_draws(body);
    else {
        mcrng::rng().reset_fixed(2);
        body();
        if (s.c.policy >= Variance) {
            mcrng::rng().reset_fixed(0);
            body();
            mcrng::rng().reset_fixed(1);
            body();
        }
    }
}

Indices iota(std::size_t n) {
    Indices v(n);
    std::iota(v.begin(), v.end(), 0);
    return v;
}
std::vector<std::vector<std::size_t>> masks(std::size_t dim) {
    std::vector<std::vector<std::size_t>> r{{}};
    for (unsigned m = 1; m < (1u << dim); ++m) {
        std::vector<std::size_t> v;
        for (std::size_t f = 0; f < dim; ++f)
            if (m >> f & 1) v.push_back(f);
        r.push_back(v);
        if (v.size() > 1) r.push_back({v.rbegin(), v.rend()});
    }
    return r;
}
std::vector<Setup> setups(std::size_t dim, std::vector<std::size_t> buckets, std::vector<std::size_t> depths, std::vector<double> rates, bool use_masks) {
    std::vector<Setup> r;
    for (auto b : buckets)
        for (auto d : depths)
            for (auto& m : use_masks ? masks(dim) : std::vector<std::vector<std::size_t>>{{}}) {
                r.push_back({{Cycle, b, d}, m});
                r.push_back({{Spread, b, d}, m});
                for (double q : rates) r.push_back({{VarianceFull, b, d}, m, q});
            }
    for (int p : {Cycle, Spread, VarianceFull})
        for (auto b : buckets) {
            Setup s{{p, b, kNoLimit}, {}};
            s.use_default_depth = true;
            r.push_back(s);
        }
    return r;
}

template <typename T>
void ordered(const char* name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::vector<Setup> ss, bool draws, std::vector<Embedding> es = {{}}) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            mc::sample([&] { return show_points(x, dim) + " x " + std::to_string(ss.size()) + " tree options"; });
            for (auto& e : es)
                for (auto& s : ss) run<T>(x, dim, iota(n), s, draws && s.c.policy >= Variance, e);
        });
}
template <typename T>
void multisets(const char* name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::vector<Setup> ss, bool draws) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            auto rev = iota(n);
            std::reverse(rev.begin(), rev.end());
            for (auto& s : ss) {
                run<T>(x, dim, iota(n), s, draws && s.c.policy >= Variance);
                run<T>(x, dim, rev, s, false);
            }
        });
}
template <typename T>
void subsets(const char* name, std::size_t dim, std::size_t side, std::size_t n, std::vector<Setup> ss) {
    if (!mc::begin_space(name)) return;
    gen::multisets(n, dim, side, [&](const std::vector<int>& x) {
        for (unsigned mask = 1; mask < (1u << n); ++mask) {
            Indices sub;
            for (std::size_t i = 0; i < n; ++i)
                if (mask >> i & 1) sub.push_back(i);
            do {
                if (!mc::take()) continue;
                mc::sample([&] { return show_points(x, dim) + " indices " + mc::show(sub); });
                for (auto& s : ss) run<T>(x, dim, sub, s, false);
            } while (std::next_permutation(sub.begin(), sub.end()));
        }
    });
}
template <typename T>
void large(const std::string& name, std::size_t dim, std::vector<std::size_t> sizes, std::vector<int> ms, std::vector<Setup> ss, Embedding e = {}) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        gen::lattice(n, dim, {0, 1, 2, 3, 7}, {1, 5}, {0, 1, 2}, ms, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            for (auto& s : ss) run<T>(x, dim, iota(n), s, false, e);
        });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    mcrng::rng().real_grid = 2;
    const std::vector<std::size_t> D{kNoLimit, 0, 1, 2, 3};
    const Embedding                tiny{1.0 / (1 << 25), 1};
    ordered<float>("ordered-1d", 1, 4, 1, S ? 3 : T ? 7 : 6, setups(1, {0, 1, 2, 3}, D, {0.1, 1}, false), false, {{}, tiny, kFarFloat});
    ordered<float>("ordered-2d", 2, 3, 1, S ? 2 : 4, setups(2, {0, 1, 2}, {kNoLimit, 1}, {1}, true), false);
    ordered<double>("ordered-2d-scaled", 2, 3, 1, S ? 2 : 3, setups(2, {0, 1, 2}, D, {0.5, 1}, false), false, {{0.5, 1}, {1e-20, 1}, {1e7, 2}, kFar});
    ordered<int>("ordered-2d-int", 2, 3, 1, S ? 2 : 4, setups(2, {0, 1, 2}, {kNoLimit, 2}, {1}, false), false, {{1, 0}, {1, 2}, kFar, kWide});
    ordered<float>("draws-2d", 2, S ? 2 : 3, 1, S ? 3 : T ? 4 : 3, setups(2, {1}, {kNoLimit}, {0.1, 1}, true), true);
    if (!S) multisets<float>("draws-multisets-2d", 2, 3, 4, T ? 5 : 4, setups(2, {2}, {kNoLimit}, {0.1, 0.5}, true), true);
    if (!S) multisets<float>("multisets-2d", 2, 3, 5, T ? 7 : 6, setups(2, {0, 1, 2, 4}, {kNoLimit, 2}, {0.5, 1}, true), false);
    if (!S) multisets<double>("multisets-3d", 3, 2, 4, T ? 7 : 6, setups(3, {1, 2}, {kNoLimit}, {0.5, 1}, true), false);
    subsets<float>("subsets-2d", 2, S ? 2 : 3, S ? 3 : T ? 5 : 4, setups(2, {1, 2}, {kNoLimit}, {1}, true));
    if (S) return 0;
    large<float>("large-2d", 2, {12, 16, 25, 50, 90}, {1, 2, 5, 11, 97}, setups(2, {0, 1, 2, 3, 5, 8, 16, 40}, {kNoLimit, 3}, {0.1, 0.3, 1}, true));
    large<double>("large-3d", 3, {12, 25, 50, 130}, {2, 5, 11, 97}, setups(3, {1, 2, 3, 7, 40}, {kNoLimit, 4}, {0.1, 1}, true), {0.25, 7});
    large<float>("sizes-2d", 2, gen::every(1, T ? 300 : 130), {97}, setups(2, {1, 3, 40}, {kNoLimit, 3}, {0.1, 1}, false));
    if (!S) large<float>("big-2d", 2, gen::big(T ? 10000 : 2049), {2003}, setups(2, {1, 40}, {kNoLimit}, {0.1, 1}, false));
    if (mc::begin_space("huge"))
        for (std::size_t dim : {1, 2})
            gen::lattice(gen::kHuge, dim, {3}, {1}, {1}, {99991}, [&](const std::vector<int>& x) {
                for (int policy : {Cycle, Spread})
                    for (std::size_t bucket : {1, 40}) {
                        if (!mc::take()) continue;
                        Setup s;
                        s.c = {policy, bucket, kNoLimit};
                        run<double>(x, dim, iota(gen::kHuge), s, false);
                    }
            });
    for (std::size_t dim : {4, 5, 7, 8, 9, 16, 17}) large<float>("dims-" + std::to_string(dim), dim, {3, 10, 31}, {5, 97}, setups(dim, {1, 3}, {kNoLimit}, {0.1, 1}, false));
    if (mc::begin_space("wide"))
        for (std::size_t dim : {40, 130, 300})
            for (std::size_t n : {3, 40})
                gen::wide(n, dim, 41, [&](const std::vector<int>& x) {
                    auto all = setups(dim, {1, 3}, {kNoLimit}, {0.1, 1}, false);
                    for (int policy : {int(Cycle), int(Spread), int(VarianceFull)})
                        for (auto& mask : std::vector<std::vector<std::size_t>>{{dim - 1}, {dim - 2, 1}, {dim - 1, dim - 2}, {3, dim - 2, dim - 1}}) all.push_back({{policy, 2, kNoLimit}, mask, 1});
                    for (auto& s : all)
                        if (mc::take()) run<float>(x, dim, iota(n), s, false);
                });
    large<int>("large-2d-int", 2, {12, 25, 50}, {2, 5, 11, 97}, setups(2, {1, 2, 3, 7}, {kNoLimit, 4}, {0.1, 1}, true), {1, 3});
    return 0;
}
MC_MAIN
