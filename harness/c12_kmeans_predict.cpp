// C12: prediction, transform and best-of-n selection of k-means.
#include "kmeans_oracle.hpp"

using namespace km;

inline double metric(const Points& x, std::size_t i, const Points& c, std::size_t j, std::size_t dim, bool integral) {
    if (!integral) return distance(x, i, c, j, dim);
    double s = 0;
    for (std::size_t d = 0; d < dim; ++d) s += std::fabs(x[i * dim + d] - c[j * dim + d]);
    return s;
}

// predict / forward of a model that holds the given centroids
template <typename T>
void prediction(const Points& x, const Points& c, std::size_t dim) {
    const std::size_t n = x.size() / dim, k = c.size() / dim;
    auto what = [&] { return "centroids " + show(c, dim) + " samples " + show(x, dim) + (std::is_integral_v<T> ? " (integers)" : ""); };
    mc::guard("predict", [&] {
        std::vector<T>          data(x.begin(), x.end()), cs(c.begin(), c.end());
        const ffcl::KMeans<T>   model(k, cs);
        const auto              labels = model.predict(data.begin(), data.end(), dim);
        const auto              dist   = model.forward(data.begin(), data.end(), dim);
        mc::exec();
        mc::step(2);
        if (labels.size() != n) return mc::fail("predict", "predict does not return one label per sample: " + what());
        if (dist.size() != n) return mc::fail("forward", "forward does not return one distance per sample: " + what());
        const double  mag = std::max(magnitude(x), magnitude(c)), tol = gen::precision<T>() * mag;
        std::uint64_t h = k;
        for (std::size_t i = 0; i < n; ++i) {
            double best = metric(x, i, c, 0, dim, std::is_integral_v<T>);
            for (std::size_t j = 1; j < k; ++j) best = std::min(best, metric(x, i, c, j, dim, std::is_integral_v<T>));
            if (labels[i] >= k) return mc::fail("predict", "label " + std::to_string(labels[i]) + " is not a centroid: " + what());
            if (metric(x, i, c, labels[i], dim, std::is_integral_v<T>) > best + tol)
                return mc::fail("predict", "sample " + std::to_string(i) + " is assigned to centroid " + std::to_string(labels[i]) + ", which is not a nearest one: " + what());
            if (!(std::fabs(static_cast<double>(dist[i]) - best) <= tol))
                return mc::fail("forward", "distance of sample " + std::to_string(i) + " is " + std::to_string(dist[i]) + " instead of " + std::to_string(best) + ": " + what());
            h = mc::mix(h, labels[i]);
        }
        mc::outcome(h);
    }, what);
}

template <typename T>
void predictions(const std::string& name, std::size_t dim, std::size_t side, std::size_t n, std::size_t k_max, double scale, double shift) {
    if (!mc::begin_space(name)) return;
    gen::datasets(n, dim, side, [&](const std::vector<int>& xi) {
        for (std::size_t k = 1; k <= k_max; ++k)
            gen::datasets(k, dim, side, [&](const std::vector<int>& ci) {
                if (!mc::take()) return;
                Points x, c;
                for (int v : xi) x.push_back(scale * (v - shift));
                for (int v : ci) c.push_back(scale * (v - shift));
                mc::sample([&] { return show(x, dim) + " centroids " + show(c, dim); });
                prediction<T>(x, c, dim);
            });
    });
}

// the model keeps the best of several starts
template <template <typename> class Algo, typename T>
void best_of(const char* name, const Points& x, const std::vector<Points>& starts, std::size_t dim, std::size_t max_iter = 100, std::size_t patience = 0, bool early = true) {
    const std::size_t k = starts[0].size() / dim;
    auto what = [&] {
        std::string s = std::string(name) + " max_iter=" + std::to_string(max_iter) + " patience=" + std::to_string(patience) + (early ? "" : " no early stopping") + " samples " + show(x, dim) + " starts";
        for (auto& c : starts) s += " " + show(c, dim);
        return s;
    };
    mc::guard(name, [&] {
        std::vector<T> data(x.begin(), x.end());
        using It = typename std::vector<T>::iterator;
        using K  = ffcl::KMeans<T>;
        std::size_t calls = 0;
        auto init = [&](It, It, std::size_t, std::size_t) {
            const auto& s = starts[calls % starts.size()];
            ++calls;
            return std::vector<T>(s.begin(), s.end());
        };
        const auto opts = [&] { return typename K::Options().max_iter(max_iter).patience(patience).early_stopping(early); };
        K          model(k, opts().n_init(starts.size()));
        if (max_iter % 2) model.set_options(typename K::Options()).set_options(opts().n_init(starts.size()));
        const auto got = model.template fit<Algo>(data.begin(), data.end(), dim, init);
        mc::exec();
        mc::step();
        if (calls != starts.size()) return mc::fail("n_init", "the initialiser is called " + std::to_string(calls) + " times: " + what());
        double lowest = 1e300;
        bool   member = false;
        for (auto& s : starts) {
            K single(k, std::vector<T>(s.begin(), s.end()), opts());
            const auto c = single.template fit<Algo>(data.begin(), data.end(), dim);
            mc::exec();
            lowest = std::min(lowest, total(x, c, dim));
            member |= c == got;
        }
        if (!member) return mc::fail("best", "the returned centroids " + show_c(got, dim) + " are not those of any start: " + what());
        if (total(x, got, dim) > lowest * (1 + gen::precision<T>()) + gen::precision<T>() * magnitude(x))
            return mc::fail("best", "the returned centroids " + show_c(got, dim) + " have total distance " + std::to_string(total(x, got, dim)) + ", another start reaches " + std::to_string(lowest) + ": " + what());
        // prediction uses the fitted centroids
        const auto labels = model.predict(data.begin(), data.end(), dim);
        const auto dist   = model.forward(data.begin(), data.end(), dim);
        mc::step(2);
        const double tol = gen::precision<T>() * magnitude(x);
        for (std::size_t i = 0; i * dim < x.size(); ++i) {
            const double best = nearest(x, i, got, dim);
            if (labels[i] >= k || distance(x, i, got, labels[i], dim) > best + tol || std::fabs(dist[i] - best) > tol)
                return mc::fail("predict", "prediction does not use the fitted centroids " + show_c(got, dim) + ": " + what());
        }
        // fitting a fitted model goes on from its centroids
        K          from(k, got, opts());
        const auto again = model.template fit<Algo>(data.begin(), data.end(), dim, init), expected = from.template fit<Algo>(data.begin(), data.end(), dim);
        mc::exec(2);
        mc::step();
        if (again != expected || calls != starts.size())
            return mc::fail("refit", "fitting again gives " + show_c(again, dim) + ", fitting from the fitted centroids " + show_c(expected, dim) + ": " + what());
    }, what);
}

template <typename T>
void starts(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::size_t k_min, std::size_t k_max, std::size_t m) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& xi) {
            const Points x(xi.begin(), xi.end());
            for (std::size_t k = k_min; k <= k_max; ++k) {
                // starts: every k-subset of the samples; candidates: every m-tuple of starts
                std::vector<Points> all;
                for (unsigned mask = 0; mask < (1u << n); ++mask) {
                    if (static_cast<std::size_t>(__builtin_popcount(mask)) != k) continue;
                    Points c;
                    for (std::size_t i = 0; i < n; ++i)
                        if (mask >> i & 1) c.insert(c.end(), x.begin() + i * dim, x.begin() + (i + 1) * dim);
                    if (std::find(all.begin(), all.end(), c) == all.end()) all.push_back(c);
                }
                gen::tuples(m, all.size(), [&](const std::vector<int>& t) {
                    if (!mc::take()) return;
                    std::vector<Points> s;
                    for (int i : t) s.push_back(all[i]);
                    best_of<ffcl::Lloyd, T>("lloyd", x, s, dim);
                    best_of<ffcl::Hamerly, T>("hamerly", x, s, dim);
                    for (std::size_t iterations = 0; iterations < 4; ++iterations) {
                        best_of<ffcl::Lloyd, T>("lloyd", x, s, dim, iterations, iterations % 2, iterations != 2);
                        best_of<ffcl::Hamerly, T>("hamerly", x, s, dim, iterations, iterations % 2, iterations != 2);
                    }
                });
            }
        });
}

// the default initialiser, for every sequence of random draws
template <typename T>
void drawn(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, std::size_t k, std::size_t n_init) {
    if (!mc::begin_space(name)) return;
    mcrng::rng().real_grid = 2;
    for (std::size_t n = n_min; n <= n_max; ++n)
        gen::multisets(n, dim, side, [&](const std::vector<int>& xi) {
            if (!mc::take()) return;
            const Points x(xi.begin(), xi.end());
            if (std::all_of(xi.begin(), xi.end(), [&](int v) { return v == xi[0]; })) return;
            auto what = [&] { return "samples " + show(x, dim) + " k=" + std::to_string(k) + " n_init=" + std::to_string(n_init); };
            // fixed points reachable from some choice of samples as start
            std::vector<T>           data(x.begin(), x.end());
            std::set<std::vector<T>> reachable;
            gen::tuples(k, n, [&](const std::vector<int>& t) {
                std::vector<T> c;
                for (int i : t) c.insert(c.end(), data.begin() + i * dim, data.begin() + (i + 1) * dim);
                ffcl::KMeans<T> single(k, c);
                reachable.insert(single.fit(data.begin(), data.end(), dim));
            });
            mc::guard("drawn", [&] {
                mcrng::for_all_draws([&] {
                    ffcl::KMeans<T> model(k, typename ffcl::KMeans<T>::Options().n_init(n_init));
                    const auto      c = model.fit(data.begin(), data.end(), dim);
                    mc::exec();
                    mc::step();
                    if (!reachable.count(c)) mc::fail("drawn", "fit returns " + show_c(c, dim) + ", not reachable from any samples: " + what());
                });
            }, what);
        });
}

template <typename T>
void sizes(const std::string& name, std::size_t n_max, double scale, double shift) {
    if (!mc::begin_space(name)) return;
    auto points = [&](const std::vector<int>& v) {
        Points p;
        for (int i : v) p.push_back(scale * (i - shift));
        return p;
    };
    for (std::size_t dim : {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 300})
        for (auto n : dim < 3 ? gen::every(1, n_max, 257) : std::vector<std::size_t>{5, 16, 33})
            gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& xi) {
                for (std::size_t k : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33})
                    gen::lattice(k, dim, {3, 7}, {1}, {0, 2}, {41}, [&](const std::vector<int>& ci) {
                        if (mc::take()) prediction<T>(points(xi), points(ci), dim);
                    });
                if constexpr (std::is_floating_point_v<T>)
                    for (std::size_t k : {2, 3, 5, 9, 17})
                        for (std::size_t m : {2, 3, 5, 9}) {
                            if (k > n || !mc::take()) continue;
                            const auto          x = points(xi);
                            std::vector<Points> s(m);
                            for (std::size_t t = 0; t < m; ++t)
                                for (std::size_t j = 0; j < k; ++j) {
                                    const auto i = (j * (t + 1) + t) % n;
                                    s[t].insert(s[t].end(), x.begin() + i * dim, x.begin() + (i + 1) * dim);
                                }
                            best_of<ffcl::Lloyd, T>("lloyd", x, s, dim);
                            best_of<ffcl::Hamerly, T>("hamerly", x, s, dim, m, m % 2);
                        }
            });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    if (!S) sizes<float>("sizes", T ? 130 : 70, 1, 20);
    if (!S) sizes<double>("sizes-double", T ? 130 : 70, 0.25, 0);
    if (!S) sizes<int>("sizes-int", T ? 130 : 70, 3, 20);
    predictions<float>("predict-line", 1, 5, 2, 3, 1, 2);
    predictions<int>("predict-line-int", 1, 5, 2, 3, 1, 2);
    predictions<std::uint8_t>("predict-line-u8", 1, 4, 2, 3, 60, 0);
    predictions<double>("predict-line-tiny", 1, 5, 2, 3, 1e-12, 2);
    if (!S) predictions<float>("predict-line-large", 1, 5, 3, 4, 1 << 12, 1);
    if (!S) predictions<double>("predict-line-far", 1, 5, 3, 4, 1, -(1 << 30));
    if (!S) predictions<int>("predict-line-wide-int", 1, 5, 2, 3, 100003, 2);
    if (!S) predictions<float>("predict-plane", 2, 3, 2, 3, 0.5, 1);
    if (!S) predictions<int>("predict-plane-int", 2, 3, 2, 3, 7, 1);
    if (!S) predictions<double>("predict-cube", 3, 2, 2, 3, 1, 0);
    starts<float>("best-line", 1, S ? 3 : 5, 3, S ? 3 : 4, 2, 2, 2);
    if (!S) starts<float>("best-line-3", 1, T ? 8 : 7, 4, T ? 7 : 6, 2, 4, 2);
    if (!S) starts<double>("best-line-triples", 1, 6, 4, T ? 6 : 5, 2, 3, 3);
    if (!S) starts<float>("best-plane", 2, T ? 4 : 3, 3, 5, 2, 3, 2);
    drawn<float>("drawn", 1, 4, 2, S ? 3 : 4, 2, 1);
    if (!S) drawn<float>("drawn-n-init", 1, 5, 2, T ? 6 : 5, 2, 2);
    if (!S) drawn<double>("drawn-plane", 2, 3, 3, 4, 2, 1);
    if (!S) drawn<double>("drawn-3", 1, 5, 3, T ? 5 : 4, 3, 1);
    // more clusters than 8 (and 16) bits count
    if (!S && mc::begin_space("many"))
        for (std::size_t dim : {1, 2})
            for (std::size_t k : {255, 256, 257, 300, 66001}) {
                if (!mc::take()) continue;
                gen::lattice(k > 300 ? 30 : 400, dim, {3}, {5}, {1}, {99991}, [&](const std::vector<int>& xi) {
                    gen::lattice(k, dim, {7}, {1}, {1}, {99991}, [&](const std::vector<int>& ci) {
                        // the last centroids are the nearest ones of the samples
                        Points x(xi.begin(), xi.end()), c;
                        for (int v : ci) c.push_back(v + 200000);
                        for (std::size_t i = 0; i < std::min<std::size_t>(20 * dim, c.size()); ++i) c[c.size() - 1 - i] = x[i] + 1;
                        prediction<double>(x, c, dim);
                    });
                });
            }
    // more samples than 16 bits count
    if (!S && mc::begin_space("huge"))
        for (std::size_t dim : {1, 2})
            for (std::size_t k : {2, 3, 5}) {
                if (!mc::take()) continue;
                gen::lattice(gen::kHuge, dim, {3}, {5}, {1}, {41}, [&](const std::vector<int>& xi) {
                    const Points x(xi.begin(), xi.end());
                    gen::lattice(k, dim, {7}, {1}, {2}, {41}, [&](const std::vector<int>& ci) {
                        prediction<double>(x, Points(ci.begin(), ci.end()), dim);
                        prediction<int>(x, Points(ci.begin(), ci.end()), dim);
                    });
                    std::vector<Points> s(3);
                    for (std::size_t t = 0; t < s.size(); ++t)
                        for (std::size_t j = 0; j < k; ++j) {
                            const auto i = (j * (t + 1) + t) % gen::kHuge;
                            s[t].insert(s[t].end(), x.begin() + i * dim, x.begin() + (i + 1) * dim);
                        }
                    best_of<ffcl::Lloyd, double>("lloyd", x, s, dim);
                    best_of<ffcl::Hamerly, double>("hamerly", x, s, dim, 4, true);
                });
            }
    return 0;
}
MC_MAIN
