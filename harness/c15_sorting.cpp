// C15: sorting, partitioning and selection of every small sequence.
#include "mc.hpp"
#include "gen.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"

#include <cmath>

namespace alg = ffcl::common::algorithms;
using Indices = std::vector<std::size_t>;

// n samples of n_features values; feature f holds the enumerated value, the others hold a payload unique per sample
template <typename T>
struct Case {
    std::vector<int> v;
    Indices          order;  // the index range handed to the library (a subset in any order)
    std::size_t      nf, f;
    double           scale;
    std::vector<T>   data;

    Case(const std::vector<int>& values, const Indices& o, std::size_t nf_, std::size_t f_, double s)
      : v(values)
      , order(o)
      , nf(nf_)
      , f(f_)
      , scale(s)
      , data(values.size() * nf_) {
        for (std::size_t i = 0; i < v.size(); ++i)
            for (std::size_t k = 0; k < nf; ++k)
                data[i * nf + k] = static_cast<T>(k == f ? scale * v[i] : 100 - 7.0 * i + 13 * k);
    }
    std::string text() const {
        return "values " + mc::show(v) + (scale == 1 ? "" : " x " + [&] { char b[32]; std::snprintf(b, 32, "%g", scale); return std::string(b); }()) +
               " indices " + mc::show(order) + " n_features=" + std::to_string(nf) + " feature=" + std::to_string(f);
    }
};

template <typename T>
bool is_permutation(const Case<T>& c, const Indices& idx, const std::vector<T>& data, const std::string& op) {
    auto a = c.order, b = idx;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) {
        mc::fail("permutation", op + " changed the set of indices to " + mc::show(idx) + "; " + c.text());
        return false;
    }
    if (data != c.data) {
        mc::fail("data-changed", op + " changed the samples; " + c.text());
        return false;
    }
    return true;
}

template <typename T>
void run(const Case<T>& c) {
    const std::size_t n = c.order.size();
    auto val = [&](std::size_t i) { return c.v[i]; };
    std::vector<int> sorted;
    for (auto i : c.order) sorted.push_back(val(i));
    std::sort(sorted.begin(), sorted.end());

    auto call = [&](const std::string& op, auto&& f) {
        Indices        idx  = c.order;
        std::vector<T> data = c.data;
        mc::guard("sorting", [&] {
            mc::exec();
            f(idx, data);
            mc::step();
        }, [&] { return op + " " + c.text(); });
    };

    // sort, from every initial pivot (from some of them when there are very many)
    std::vector<std::size_t> positions;
    for (std::size_t i = 0; i < n; i += n < gen::kHuge ? 1 : n / 3) positions.push_back(i);
    for (std::size_t pivot : positions) {
        call("quicksort", [&](Indices& idx, std::vector<T>& data) {
            const auto  r  = alg::quicksort(idx.begin(), idx.end(), data.begin(), data.end(), c.nf, pivot, c.f);
            std::string op = "quicksort(pivot " + std::to_string(pivot) + ") -> " + mc::show(idx);
            if (!is_permutation(c, idx, data, op)) return;
            for (std::size_t i = 0; i < n; ++i)
                if (val(idx[i]) != sorted[i]) return mc::fail("quicksort", op + " is not sorted; " + c.text());
            if (r >= n || val(idx[r]) != val(c.order[pivot]))
                return mc::fail("quicksort", op + " returns a position that does not hold the pivot; " + c.text());
        });
        call("partition", [&](Indices& idx, std::vector<T>& data) {
            const auto  r  = alg::partition_around_pivot_index(idx.begin(), idx.end(), data.begin(), data.end(), c.nf, pivot, c.f);
            std::string op = "partition(pivot " + std::to_string(pivot) + ") = " + std::to_string(r) + " -> " + mc::show(idx);
            if (!is_permutation(c, idx, data, op)) return;
            if (r >= n || idx[r] != c.order[pivot]) {
                if (r >= n || val(idx[r]) != val(c.order[pivot]))
                    return mc::fail("partition", op + " returns a position that does not hold the pivot value; " + c.text());
            }
            std::uint64_t h = r;
            for (std::size_t i = 0; i < n; ++i) {
                h = mc::mix(h, idx[i]);
                if (i < r ? val(idx[i]) > val(idx[r]) : val(idx[i]) < val(idx[r]))
                    return mc::fail("partition", op + " leaves a sample on the wrong side; " + c.text());
            }
            mc::outcome(h);
        });
    }
    for (std::size_t k : positions)
        call("quickselect", [&](Indices& idx, std::vector<T>& data) {
            const auto  r  = alg::quickselect(idx.begin(), idx.end(), data.begin(), data.end(), c.nf, k, c.f);
            std::string op = "quickselect(" + std::to_string(k) + ") -> " + mc::show(idx);
            if (!is_permutation(c, idx, data, op)) return;
            const auto p = r.first - idx.begin();
            if (r.second - r.first != 1 || p < 0 || static_cast<std::size_t>(p) >= n)
                return mc::fail("quickselect", op + " does not return a single position; " + c.text());
            if (val(idx[p]) != sorted[k]) return mc::fail("quickselect", op + " selects a sample that is not the k-th smallest; " + c.text());
            for (std::size_t i = 0; i < n; ++i)
                if (static_cast<long>(i) < p ? val(idx[i]) > val(idx[p]) : val(idx[i]) < val(idx[p]))
                    return mc::fail("quickselect", op + " leaves a sample on the wrong side; " + c.text());
        });
    call("median_of_three", [&](Indices& idx, std::vector<T>& data) {
        const auto m = alg::median_index_of_three(idx.begin(), idx.end(), data.begin(), data.end(), c.nf, c.f);
        if (!is_permutation(c, idx, data, "median_of_three") || idx != c.order) return;
        if (m >= n) return mc::fail("median", "median position " + std::to_string(m) + " is outside the range; " + c.text());
        if (n < 3) {
            if (m != 0) mc::fail("median", "median position of a short range is not its first; " + c.text());
            return;
        }
        std::vector<int> three{val(idx[0]), val(idx[(n - 1) / 2]), val(idx[n - 1])};
        std::sort(three.begin(), three.end());
        if (val(idx[m]) != three[1]) mc::fail("median", "position " + std::to_string(m) + " is not the median of three; " + c.text());
    });
}

template <typename T>
void all_sequences(const std::string& name, std::size_t n_max, std::size_t alphabet, std::vector<double> scales, int shift = 0) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::tuples(n, alphabet, [&](const std::vector<int>& t) {
            if (!mc::take()) return;
            auto v = t;
            for (auto& x : v) x -= shift;
            Indices o(n);
            std::iota(o.begin(), o.end(), 0);
            for (double s : scales)
                for (std::size_t nf = 1; nf <= 3; ++nf)
                    for (std::size_t f = 0; f < nf; ++f) {
                        Case<T> c(v, o, nf, f, s);
                        mc::sample([&] { return c.text(); });
                        run(c);
                    }
        });
}
// index ranges that are subsets of the samples in every order
template <typename T>
void all_index_ranges(const std::string& name, std::size_t n, std::size_t alphabet) {
    if (!mc::begin_space(name)) return;
    gen::tuples(n, alphabet, [&](const std::vector<int>& v) {
        for (unsigned mask = 1; mask < (1u << n); ++mask) {
            Indices sub;
            for (std::size_t i = 0; i < n; ++i)
                if (mask >> i & 1) sub.push_back(i);
            do {
                if (!mc::take()) continue;
                Case<T> c(v, sub, 2, mask % 2, 1);
                mc::sample([&] { return c.text(); });
                run(c);
            } while (std::next_permutation(sub.begin(), sub.end()));
        }
    });
}
// longer structured sequences: (a*i + e*i*i + c*(i/p)) mod m, in increasing, decreasing, organ-pipe order
template <typename T>
void long_sequences(const std::string& name, std::vector<std::size_t> sizes, double scale) {
    if (!mc::begin_space(name)) return;
    for (auto n : sizes)
        for (int m : {1, 2, 3, 5, 13, 1000})
            for (int a : {0, 1, 2, 3, 7, 11})
                for (int e : {0, 1, 2, 3})
                    for (int shape = 0; shape < 4; ++shape) {
                        if (!mc::take()) continue;
                        std::vector<int> v(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            const long j = static_cast<long>(i);
                            v[i]         = static_cast<int>((a * j + e * j * j) % m);
                        }
                        if (shape == 1) std::sort(v.begin(), v.end());
                        if (shape == 2) std::sort(v.rbegin(), v.rend());
                        if (shape == 3) std::sort(v.begin(), v.begin() + n / 2), std::sort(v.rbegin(), v.rend() - n / 2);
                        Indices o(n);
                        std::iota(o.begin(), o.end(), 0);
                        Case<T> c(v, o, 1 + n % 2, 0, scale);
                        run(c);
                    }
}

// every length and every feature of samples with many features, in plain and in mixed index order
template <typename T>
void sizes(const std::string& name, std::size_t n_max, double scale) {
    if (!mc::begin_space(name)) return;
    for (auto n : gen::every(1, n_max, n_max < 60 ? 0 : 257))
        for (int m : {2, 5, 97})
            for (std::size_t nf : {1, 2, 4, 5, 8, 9, 17})
                for (int mixed = 0; mixed < 2; ++mixed) {
                    if (!mc::take()) continue;
                    std::vector<int> v(n);
                    for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<int>((3 * i + i * i) % m);
                    Indices o(n);
                    std::iota(o.begin(), o.end(), 0);
                    if (mixed) {
                        std::rotate(o.begin(), o.begin() + n / 3, o.end());
                        std::reverse(o.begin() + n / 4, o.begin() + 3 * n / 4);
                        o.resize((3 * n + 3) / 4);
                    }
                    run(Case<T>(v, o, nf, n % nf, scale));
                }
}

// more samples than 16 bits can count: distinct, few different and equal values, in mixed and sorted order
template <typename T>
void huge(const std::string& name, double scale) {
    if (!mc::begin_space(name)) return;
    for (int m : {1, 2, 3, 97, 99991})
        for (std::size_t nf : {1, 2})
            for (int shape = 0; shape < 3; ++shape) {
                if (!mc::take()) continue;
                std::vector<int> v(gen::kHuge);
                for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<int>((3 * i + i * i) % m);
                if (shape == 1) std::sort(v.begin(), v.end());
                if (shape == 2) std::sort(v.rbegin(), v.rend());
                Indices o(v.size());
                std::iota(o.begin(), o.end(), 0);
                run(Case<T>(v, o, nf, nf - 1, scale));
            }
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    const double tiny = 1.0 / (1 << 26);
    all_sequences<float>("sequences-float", S ? 4 : T ? 9 : 8, 4, {1, tiny, 1e-30, 1e20});
    all_sequences<double>("sequences-double", S ? 4 : 6, 4, {1, 1e-18, 1e-300}, 2);
    all_sequences<int>("sequences-int", S ? 4 : 6, 4, {1, 100000}, 2);
    all_sequences<float>("sequences-long-float", S ? 5 : T ? 12 : 11, S ? 2 : 3, {1});
    all_sequences<int>("sequences-permuted", S ? 4 : T ? 8 : 7, S ? 4 : 6, {1});
    all_index_ranges<float>("index-ranges-4", 4, S ? 2 : 4);
    if (!S) all_index_ranges<double>("index-ranges-5", 5, T ? 5 : 4);
    if (T) all_index_ranges<float>("index-ranges-6", 6, 3);
    long_sequences<float>("long", S ? std::vector<std::size_t>{20} : std::vector<std::size_t>{10, 16, 33, 64, 100}, 1);
    long_sequences<double>("long-tiny", S ? std::vector<std::size_t>{11} : std::vector<std::size_t>{12, 31}, 1e-20);
    if (!S) sizes<float>("sizes", T ? 100 : 66, 1);
    if (!S) huge<double>("huge", 0.5);
    if (!S) huge<int>("huge-int", 1);
    if (!S) sizes<double>("sizes-tiny", T ? 100 : 40, 1e-20);
    if (!S) sizes<int>("sizes-int", T ? 100 : 40, 1000);
    return 0;
}
MC_MAIN
