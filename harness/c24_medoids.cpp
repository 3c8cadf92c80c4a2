// C24: the greedy medoid initialisation and the medoid lookups, on every small dataset and set of medoids.
#include "kmedoids_oracle.hpp"

#include "ffcl/kmedoids/PAMBuild.hpp"

using namespace kmd;

template <typename T>
struct Lookup {
    double scale = 1, shift = 0;

    void operator()(const std::vector<int>& x, std::size_t dim, const Ids& medoids) const {
        const Problem p(x, dim, scale, shift, std::is_integral_v<T>);
        const double  tol = gen::precision<T>() * p.largest();
        auto what = [&] { return "medoids " + mc::show(medoids) + " " + p.text(); };
        mc::guard("lookup", [&] {
            auto data = p.data<T>();
            using It  = typename std::vector<T>::iterator;
            const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(data.begin(), data.end(), dim);
            std::vector<std::vector<double>> sorted(p.n);
            for (std::size_t i = 0; i < p.n; ++i) {
                for (auto m : medoids) sorted[i].push_back(p.d[m * p.n + i]);
                std::sort(sorted[i].begin(), sorted[i].end());
            }
            for (bool stored : {false, true}) {
                std::vector<Ids> at;
                for (std::size_t nth = 1; nth <= std::min<std::size_t>(3, medoids.size()); ++nth) {
                    const auto i = stored ? pam::utils::samples_to_nth_nearest_medoid_indices(matrix, medoids, nth)
                                          : pam::utils::samples_to_nth_nearest_medoid_indices(data.begin(), data.end(), dim, medoids, nth);
                    const auto d = stored ? pam::utils::samples_to_nth_nearest_medoid_distances(matrix, medoids, nth)
                                          : pam::utils::samples_to_nth_nearest_medoid_distances(data.begin(), data.end(), dim, medoids, nth);
                    mc::exec(2);
                    if (i.size() != p.n || d.size() != p.n) return mc::fail("lookup", "not one value per sample: " + what());
                    for (std::size_t s = 0; s < p.n; ++s) {
                        mc::step(2);
                        auto say = [&](const char* m) { mc::fail("lookup", std::string(m) + " number " + std::to_string(nth) + " of sample " + std::to_string(s) + (stored ? " (matrix): " : ": ") + what()); };
                        if (std::fabs(d[s] - sorted[s][nth - 1]) > tol) return say("wrong distance to nearest medoid");
                        if (i[s] >= medoids.size() || std::fabs(p.d[medoids[i[s]] * p.n + s] - sorted[s][nth - 1]) > tol) return say("wrong nearest medoid");
                        for (auto& earlier : at)
                            if (earlier[s] == i[s]) return say("a medoid of lesser rank again as nearest medoid");
                    }
                    at.push_back(i);
                }
            }
            const auto c = pam::utils::medoids_to_centroids(data.begin(), data.end(), dim, medoids);
            mc::step();
            bool same = c.size() == medoids.size() * dim;
            for (std::size_t k = 0; same && k < c.size(); ++k) same = c[k] == data[medoids[k / dim] * dim + k % dim];
            if (!same) mc::fail("lookup", "wrong coordinates of the medoids: " + what());
        }, what);
    }
};

// What a lookup cannot answer is refused with std::invalid_argument: no medoids at all, rank zero, a rank beyond the
// number of medoids.
template <typename T>
struct Refused {
    double scale = 1, shift = 0;

    void operator()(const std::vector<int>& x, std::size_t dim, const Ids& medoids) const {
        const Problem p(x, dim, scale, shift, std::is_integral_v<T>);
        auto what = [&] { return "medoids " + mc::show(medoids) + " " + p.text(); };
        mc::guard("refused", [&] {
            auto data = p.data<T>();
            using It  = typename std::vector<T>::iterator;
            const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(data.begin(), data.end(), dim);
            auto refused = [&](const std::string& name, auto&& call) {
                mc::exec();
                mc::step();
                try {
                    call();
                } catch (const std::invalid_argument&) {
                    return;
                }
                mc::fail("refused", name + " is answered: " + what());
            };
            const auto first = data.begin(), last = data.end();
            for (std::size_t nth : {std::size_t(0), medoids.size() + 1, medoids.size() + 2, std::size_t(-1)}) {
                const auto n = " of rank " + std::to_string(nth);
                refused("the medoid" + n, [&] { pam::utils::samples_to_nth_nearest_medoid_indices(first, last, dim, medoids, nth); });
                refused("the distance" + n, [&] { pam::utils::samples_to_nth_nearest_medoid_distances(first, last, dim, medoids, nth); });
                refused("the medoid from a matrix" + n, [&] { pam::utils::samples_to_nth_nearest_medoid_indices(matrix, medoids, nth); });
                refused("the distance from a matrix" + n, [&] { pam::utils::samples_to_nth_nearest_medoid_distances(matrix, medoids, nth); });
            }
            if (medoids.size() != 1) return;
            const Ids none;
            refused("the nearest medoid of none", [&] { pam::utils::samples_to_nearest_medoid_indices(first, last, dim, none); });
            refused("the second medoid of none", [&] { pam::utils::samples_to_second_nearest_medoid_indices(first, last, dim, none); });
            refused("the third medoid of none", [&] { pam::utils::samples_to_third_nearest_medoid_indices(first, last, dim, none); });
            refused("the nearest distance of none", [&] { pam::utils::samples_to_nearest_medoid_distances(first, last, dim, none); });
            refused("the second distance of none", [&] { pam::utils::samples_to_second_nearest_medoid_distances(first, last, dim, none); });
            refused("the third distance of none", [&] { pam::utils::samples_to_third_nearest_medoid_distances(first, last, dim, none); });
            refused("the nearest medoid of none in a matrix", [&] { pam::utils::samples_to_nearest_medoid_indices(matrix, none); });
            refused("the second medoid of none in a matrix", [&] { pam::utils::samples_to_second_nearest_medoid_indices(matrix, none); });
            refused("the third medoid of none in a matrix", [&] { pam::utils::samples_to_third_nearest_medoid_indices(matrix, none); });
            refused("the nearest distance of none in a matrix", [&] { pam::utils::samples_to_nearest_medoid_distances(matrix, none); });
            refused("the second distance of none in a matrix", [&] { pam::utils::samples_to_second_nearest_medoid_distances(matrix, none); });
            refused("the third distance of none in a matrix", [&] { pam::utils::samples_to_third_nearest_medoid_distances(matrix, none); });
            for (std::size_t nth : {0, 1, 2})
                refused("a medoid of none by rank", [&] { pam::utils::samples_to_nth_nearest_medoid_indices(first, last, dim, none, nth); });
        }, what);
    }
};

template <typename T>
struct Greedy {
    double scale = 1, shift = 0;

    void operator()(const std::vector<int>& x, std::size_t dim, std::size_t k) const {
        const Problem p(x, dim, scale, shift, std::is_integral_v<T>);
        const double  tol = Deviation::tolerance(p);
        auto what = [&] { return std::to_string(k) + " medoids of " + p.text(); };
        mc::guard("greedy", [&] {
            auto data = p.data<T>();
            using It  = typename std::vector<T>::iterator;
            const ffcl::datastruct::PairwiseDistanceMatrix<It> matrix(data.begin(), data.end(), dim);
            for (bool stored : {false, true}) {
                const auto [td, medoids, nearest] = stored ? pam::build(matrix, k) : pam::build(data.begin(), data.end(), dim, k);
                mc::exec();
                mc::step();
                const auto v = valid(medoids, k, p.n);
                if (!v.empty()) return mc::fail("greedy", v + " " + mc::show(medoids) + ": " + what());
                for (std::size_t j = 0; j < k; ++j) {
                    Ids m(medoids.begin(), medoids.begin() + j + 1);
                    const double got = p.deviation(m);
                    for (std::size_t c = 0; c < p.n; ++c) {
                        m.back() = c;
                        if (std::count(m.begin(), m.end() - 1, c) == 0 && p.deviation(m) < got - tol)
                            return mc::fail("greedy", "after " + std::to_string(j) + " medoids, sample " + std::to_string(c) + " lowers the total distance more than " + std::to_string(medoids[j]) + " of " + mc::show(medoids) + (stored ? " (matrix): " : ": ") + what());
                    }
                }
                if (std::fabs(td - p.deviation(medoids)) > tol) return mc::fail("greedy", "the returned total distance is " + std::to_string(td) + " instead of " + std::to_string(p.deviation(medoids)) + ": " + what());
                if (nearest.size() != p.n) return mc::fail("greedy", "not one distance per sample: " + what());
                for (std::size_t i = 0; i < p.n; ++i)
                    if (std::fabs(nearest[i] - p.two(i, medoids).first) > tol) return mc::fail("greedy", "the distance of sample " + std::to_string(i) + " to its nearest medoid is " + std::to_string(nearest[i]) + ": " + what());
                const auto [first_td, first] = stored ? pam::utils::first_medoid_td_index_pair(matrix) : pam::utils::first_medoid_td_index_pair(data.begin(), data.end(), dim);
                mc::step();
                double least = 1e300;
                for (std::size_t c = 0; c < p.n; ++c) least = std::min(least, p.deviation({c}));
                if (first >= p.n || std::fabs(p.deviation({first}) - least) > tol || std::fabs(first_td - least) > tol)
                    return mc::fail("first", "the first medoid is " + std::to_string(first) + " with total distance " + std::to_string(first_td) + " instead of " + std::to_string(least) + ": " + what());
                mc::outcome(mc::mix(std::llround(1e4 * p.deviation(medoids)), k));
            }
        }, what);
    }
};

template <typename C>
void greedy(const std::string& name, bool ordered, std::size_t dim, std::size_t side, std::size_t n_min, std::size_t n_max, C check) {
    if (!mc::begin_space(name)) return;
    auto each = [&](const std::vector<int>& x) {
        for (std::size_t k = 1; k <= x.size() / dim; ++k) {
            if (!mc::take()) continue;
            mc::sample([&] { return mc::show(x) + " k=" + std::to_string(k); });
            check(x, dim, k);
        }
    };
    for (std::size_t n = n_min; n <= n_max; ++n) {
        if (ordered)
            gen::datasets(n, dim, side, each);
        else
            gen::multisets(n, dim, side, each);
    }
}
template <typename C>
void greedy_large(const std::string& name, const std::vector<std::size_t>& sizes, C check) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (std::size_t dim : {1, 2, 3})
            gen::lattice(n, dim, {1, 3, 7}, {1, 5}, {0, 1, 2}, {17, 41}, [&](const std::vector<int>& x) {
                for (std::size_t k : {2, 3, 5, 9}) {
                    if (mc::take()) check(x, dim, k);
                }
            });
}

template <typename C>
void greedy_sizes(const std::string& name, std::size_t n_max, C check) {
    if (!mc::begin_space(name)) return;
    for (std::size_t dim : {1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 300})
        for (auto n : dim < 3 ? gen::every(1, n_max, 257) : std::vector<std::size_t>{5, 16, 33})
            gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                for (std::size_t k : {1, 2, 4, 7, 8, 9, 16, 17})
                    if (k <= n && mc::take()) check(x, dim, k);
            });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    greedy("greedy-line", true, 1, 5, 1, S ? 3 : T ? 7 : 6, Greedy<float>{1, 2});
    greedy("greedy-line-int", true, 1, 5, 1, S ? 3 : T ? 7 : 6, Greedy<int>{3, 2});
    if (!S) greedy("greedy-wide", false, 1, 11, 3, T ? 8 : 7, Greedy<double>{0.5, 4});
    greedy("greedy-plane", false, 2, 3, 2, S ? 3 : T ? 8 : 7, Greedy<float>{1, 0});
    if (!S) greedy("greedy-plane-int", false, 2, 3, 2, T ? 7 : 6, Greedy<int>{1, 2});
    if (!S) greedy("greedy-cube", false, 3, 2, 2, 6, Greedy<float>{0.25, 1});
    if (!S) greedy("greedy-far", false, 1, 7, 2, 5, Greedy<double>{1, -(1 << 30)});
    if (!S) greedy("greedy-wide-int", false, 2, 3, 2, 4, Greedy<int>{100003, 1});
    if (!S) greedy("greedy-tiny", false, 1, 7, 2, 5, Greedy<double>{1e-12, 3});
    greedy_large("greedy-large", S ? std::vector<std::size_t>{12} : T ? std::vector<std::size_t>{12, 30, 60, 100} : std::vector<std::size_t>{12, 30}, Greedy<float>{1, 5});
    if (!S) greedy_large("greedy-large-int", {12, 25}, Greedy<int>{2, 5});
    space("lookup-line", true, 1, 4, 1, S ? 3 : 4, 1, 4, Lookup<float>{1, 1});
    if (!S) space("lookup-line-5", true, 1, 3, 5, 5, 3, 5, Lookup<double>{0.125, 1});
    space("lookup-int", true, 1, 4, 1, S ? 3 : 4, 1, 4, Lookup<int>{3, 2});
    if (!S) space("lookup-sets", false, 1, T ? 9 : 8, 4, 6, 1, 6, Lookup<float>{1, 0});
    if (!S) space("lookup-plane", false, 2, 3, 3, T ? 6 : 5, 1, 4, Lookup<float>{1, 1});
    if (!S) space("lookup-plane-int", false, 2, 3, 3, 4, 1, 4, Lookup<int>{1, 1});
    space("refused", true, 1, 3, 1, S ? 3 : 4, 1, 4, Refused<float>{1, 1});
    if (!S) space("refused-plane-int", false, 2, 3, 1, 4, 1, 4, Refused<int>{1, 1});
    structured("lookup-large", {12, 40}, Lookup<float>{1, 5});
    if (!S) greedy_sizes("greedy-sizes", T ? 100 : 50, Greedy<float>{1, 5});
    if (!S) greedy_sizes("greedy-sizes-int", T ? 70 : 40, Greedy<int>{2, 5});
    if (!S) many("lookup-many", Lookup<double>{1, 5});
    if (!S && mc::begin_space("greedy-many"))
        for (std::size_t k : {256, 257, 270})
            if (mc::take()) gen::lattice(290, 2, {3}, {5}, {1}, {997}, [&](const std::vector<int>& x) { Greedy<double>{1, 5}(x, 2, k); });
    if (!S) sizes("lookup-sizes", T ? 100 : 60, Lookup<float>{1, 5});
    if (!S) sizes("lookup-sizes-double", T ? 100 : 60, Lookup<double>{0.25, 0});
    return 0;
}
MC_MAIN
