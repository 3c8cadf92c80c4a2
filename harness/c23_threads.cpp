// C23: threads change no result. Every schedule of every parallel region, for every team size in the bound.
#include "rng_control.hpp"
#include "c23_types.hpp"
#include "gen.hpp"
#include "mc.hpp"
#include "omp_mc.hpp"

#define DECLARE(NS)                                              \
    namespace NS {                                               \
    template <typename T>                                        \
    std::vector<T> matrix(std::vector<T>, std::size_t);          \
    template <typename T>                                        \
    std::vector<T> transpose(std::vector<T>, std::size_t);       \
    template <typename T>                                        \
    std::vector<T> kmeans(const Fit<T>&);                        \
    template <typename T>                                        \
    std::vector<std::size_t> kmedoids(const Fit<T>&);            \
    }
DECLARE(c23_seq)
DECLARE(c23_par)

static std::size_t max_team() { return mc::thorough() ? 5 : mc::quick() ? 4 : 3; }
static const std::uint64_t kMaxSchedules = 200000;

// the threaded function must return `want` under every schedule
template <typename V, typename F, typename D>
void all_schedules(const char* sig, std::size_t team_lo, std::size_t team_hi, const V& want, F&& run, D&& desc) {
    for (std::size_t team = team_lo; team <= team_hi; ++team) {
        std::string wrong;
        const auto  r = ompmc::explore(team, kMaxSchedules, [&] {
            const V got = run();
            mc::exec();
            if (got == want) return true;
            wrong = "returns " + mc::show(got) + " instead of " + mc::show(want);
            return false;
        });
        mc::step(r.points + r.regions + r.accesses);
        if (!wrong.empty()) return mc::fail(sig, "with " + std::to_string(team) + " threads, after " + std::to_string(r.schedules) + " schedules: " + wrong + " for " + desc());
        if (!r.error.empty()) return mc::fail(sig, r.error + " for " + desc());
        mc::outcome(mc::mix(r.schedules, r.accesses));
    }
}

template <typename T>
void matrices(const std::string& name, std::size_t n, std::size_t d, std::size_t side, std::size_t team_hi) {
    if (!mc::begin_space(name)) return;
    gen::datasets(n, d, side, [&](const std::vector<int>& v) {
        if (!mc::take()) return;
        const std::vector<T> x(v.begin(), v.end());
        auto what = [&] { return "the distance matrix of " + mc::show(x) + ", " + std::to_string(d) + " features"; };
        mc::sample(what);
        mc::guard("matrix", [&] {
            const auto want = c23_seq::matrix<T>(x, d);
            all_schedules("matrix", 1, team_hi, want, [&] { return c23_par::matrix<T>(x, d); }, what);
        }, what);
    });
}
template <typename T>
void transposes(const std::string& name, const std::vector<std::size_t>& sizes, const std::vector<std::size_t>& features) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n : sizes)
        for (std::size_t d : features) {
            if (!mc::take()) continue;
            std::vector<T> x(n * d);
            for (std::size_t i = 0; i < x.size(); ++i) x[i] = static_cast<T>(i + 1);
            auto what = [&] { return "the transpose of " + std::to_string(n) + " samples of " + std::to_string(d) + " features"; };
            mc::sample(what);
            mc::guard("transpose", [&] {
                std::vector<T> want(n * d);
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < d; ++j) want[j * n + i] = x[i * d + j];
                want.push_back(static_cast<T>(d));
                want.push_back(static_cast<T>(n));
                const auto seq = c23_seq::transpose<T>(x, d);
                if (seq != want) return mc::fail("transpose", "the sequential build is wrong for " + what());
                all_schedules("transpose", 1, n * d > 4000 ? std::min<std::size_t>(3, max_team()) : max_team(), want, [&] { return c23_par::transpose<T>(x, d); }, what);
            }, what);
        }
}

template <typename T>
std::string show_fit(const char* what, const Fit<T>& f) {
    std::string s = std::string(what) + " samples " + mc::show(f.x) + " features " + std::to_string(f.d) + " k " + std::to_string(f.k) + " algorithm " + std::to_string(f.algo) +
                    " form " + std::to_string(f.form) + " n_init " + std::to_string(f.n_init) + " max_iter " + std::to_string(f.max_iter) + " patience " + std::to_string(f.patience) +
                    " starts";
    for (auto& c : f.starts) s += " " + mc::show(c);
    return s;
}
// k-means from every list of n_init starts over the lattice of centroids
template <typename T>
void kmeans_starts(const std::string& name, std::size_t n, std::size_t d, std::size_t side, std::size_t k, std::size_t n_init, std::size_t team_hi) {
    if (!mc::begin_space(name)) return;
    gen::multisets(n, d, side, [&](const std::vector<int>& v) {
        std::vector<std::vector<T>> all;
        gen::multisets(k, d, side, [&](const std::vector<int>& c) { all.emplace_back(c.begin(), c.end()); });
        gen::tuples(n_init, all.size(), [&](const std::vector<int>& t) {
            for (int algo = 0; algo < 2; ++algo) {
                if (!mc::take()) continue;
                Fit<T> f;
                f.algo = algo, f.x = std::vector<T>(v.begin(), v.end()), f.d = d, f.k = k, f.n_init = n_init, f.max_iter = 6;
                for (int i : t) f.starts.push_back(all[i]);
                auto what = [&] { return show_fit("k-means", f); };
                mc::sample(what);
                mc::guard("kmeans", [&] {
                    const auto want = c23_seq::kmeans<T>(f);
                    all_schedules("kmeans", 1, team_hi, want, [&] { return c23_par::kmeans<T>(f); }, what);
                }, what);
            }
        });
    });
}
// options of the fit: iterations, patience, early stopping
template <typename T>
void kmeans_options(const std::string& name) {
    if (!mc::begin_space(name)) return;
    const std::vector<T> x{0, 1, 2, 4, 5, 9, 9, 10};
    for (int algo = 0; algo < 2; ++algo)
        for (std::size_t n_init = 1; n_init <= 6; ++n_init)
            for (std::size_t max_iter = 0; max_iter <= 4; ++max_iter)
                for (std::size_t patience = 0; patience <= 2; ++patience)
                    for (bool early : {false, true})
                        for (std::size_t k = 1; k <= 3; ++k) {
                            if (!mc::take()) continue;
                            Fit<T> f;
                            f.algo = algo, f.x = x, f.k = k, f.n_init = n_init, f.max_iter = max_iter, f.patience = patience, f.early = early;
                            for (std::size_t i = 0; i < n_init; ++i) {
                                std::vector<T> c;
                                for (std::size_t j = 0; j < k; ++j) c.push_back(x[(i * 3 + j * 2) % x.size()]);
                                f.starts.push_back(c);
                            }
                            auto what = [&] { return show_fit("k-means", f); };
                            mc::sample(what);
                            mc::guard("kmeans", [&] {
                                const auto want = c23_seq::kmeans<T>(f);
                                all_schedules("kmeans", 1, std::min<std::size_t>(max_team(), 4), want, [&] { return c23_par::kmeans<T>(f); }, what);
                            }, what);
                        }
}
// random starts: every sequence of draws
template <typename T>
void random_fits(const std::string& name, bool medoids, std::size_t n, std::size_t d, std::size_t side, std::size_t k, std::size_t n_init, std::size_t team_hi) {
    if (!mc::begin_space(name)) return;
    gen::multisets(n, d, side, [&](const std::vector<int>& v) {
        for (int algo = 0; algo < 2; ++algo)
            for (int form = 0; form < (medoids ? 3 : 1); ++form) {
                if (!mc::take()) continue;
                Fit<T> f;
                f.algo = algo, f.form = form, f.x = std::vector<T>(v.begin(), v.end()), f.d = d, f.k = k, f.n_init = n_init, f.max_iter = 4;
                auto what = [&] { return show_fit(medoids ? "k-medoids" : "k-means", f); };
                mc::sample(what);
                mc::guard(medoids ? "kmedoids" : "kmeans", [&] {
                    mcrng::for_all_draws([&] {
                        if (medoids) {
                            const auto want = c23_seq::kmedoids<T>(f);
                            all_schedules("kmedoids", 2, team_hi, want, [&] {
                                mcrng::rng().rewind();
                                return c23_par::kmedoids<T>(f);
                            }, what);
                        } else {
                            const auto want = c23_seq::kmeans<T>(f);
                            all_schedules("kmeans", 2, team_hi, want, [&] {
                                mcrng::rng().rewind();
                                return c23_par::kmeans<T>(f);
                            }, what);
                        }
                    });
                }, what);
            }
    });
}

int mc::explore() {
    const bool th = thorough();
    for (std::size_t n = 1; n <= 3; ++n) matrices<double>("matrix-double-n" + std::to_string(n), n, 2, 2, max_team());
    matrices<int>("matrix-int-n4", 4, 1, 2, 3);
    matrices<float>("matrix-float-n4", 4, 1, 2, 3);
    matrices<double>("matrix-double-n5-d1", 5, 1, 2, 3);
    if (th) matrices<double>("matrix-double-n6-d1", 6, 1, 2, 3);
    if (th) matrices<int>("matrix-int-n5-d2", 5, 2, 2, 3);
    transposes<int>("transpose-small", {0, 1, 2, 3, 4, 5}, {1, 2, 3, 4});
    transposes<double>("transpose-blocks", {1, 2, 63, 64, 65, 128, 129}, {1, 2, 63, 64, 65, 128, 129});
    if (th) transposes<int>("transpose-blocks-long", {127, 128, 129, 191, 192, 193, 256, 257}, {1, 2, 3, 64, 65, 127, 130});
    kmeans_starts<double>("kmeans-d1-k2-init2", 3, 1, 3, 2, 2, 3);
    kmeans_starts<double>("kmeans-d1-k2-init3", 3, 1, 3, 2, 3, 3);
    kmeans_starts<float>("kmeans-float-d2-k2-init2", 3, 2, 2, 2, 2, 2);
    if (th) kmeans_starts<double>("kmeans-d1-k2-init4", 3, 1, 3, 2, 4, 4);
    if (th) kmeans_starts<double>("kmeans-d1-k3-init2", 5, 1, 3, 3, 2, 3);
    kmeans_options<double>("kmeans-options");
    kmeans_options<float>("kmeans-options-float");
    random_fits<double>("kmeans-random-init2", false, 3, 1, 3, 2, 2, 3);
    random_fits<double>("kmedoids-random-n3-init2", true, 3, 1, 3, 2, 2, 3);
    random_fits<float>("kmedoids-random-float-n3-init2", true, 3, 2, 2, 2, 2, 2);
    if (!th) random_fits<double>("kmedoids-random-n4-init2-team2", true, 4, 1, 2, 2, 2, 2);
    if (th) random_fits<double>("kmedoids-random-n4-init2", true, 4, 1, 3, 2, 2, 3);
    if (th) random_fits<double>("kmedoids-random-n4-init3", true, 4, 1, 2, 2, 3, 4);
    return 0;
}
MC_MAIN
