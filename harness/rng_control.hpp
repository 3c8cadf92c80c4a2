// Replaces the random engines and distributions the library uses by a choice-tree explorer. Include FIRST.
// All standard headers the library may include are pulled in before the names are substituted.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <deque>
#include <execution>
#include <filesystem>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace mcrng {

struct Explorer {
    struct Point {
        std::uint64_t choice, n;
    };
    std::vector<Point> trail;
    std::size_t        pos        = 0;
    bool               exploring  = false;  // false: every draw takes the fixed default answer
    std::uint64_t      real_grid  = 4;      // number of representatives of a uniform real draw
    std::uint64_t      fixed      = 0;      // selects the default answer policy (0: first, 1: last, 2: middle, >2: hash)
    std::uint64_t      counter    = 0;
    std::uint64_t      draws      = 0;
    std::uint64_t      raw        = 0;      // draws taken from an engine directly: probabilities are not exact then
    long double        weight     = 1;      // probability of the current branch

    void reset_fixed(std::uint64_t policy) {
        exploring = false;
        fixed     = policy;
        counter   = 0;
    }
    std::uint64_t choose(std::uint64_t n) {
        ++draws;
        if (n == 0) n = 1;
        if (!exploring) {
            ++counter;
            if (fixed == 0) return 0;
            if (fixed == 1) return n - 1;
            if (fixed == 2) return (n - 1) / 2;
            return (counter * 2654435761ull * fixed + fixed * 40503ull) / 7 % n;
        }
        weight /= n;
        if (pos < trail.size()) {
            if (trail[pos].n != n) {
                throw std::runtime_error("mcrng: divergence while replaying a prefix of draws");
            }
            return trail[pos++].choice;
        }
        trail.push_back({0, n});
        ++pos;
        return 0;
    }
    void start() {
        exploring = true;
        trail.clear();
        rewind();
    }
    void rewind() {
        pos    = 0;
        weight = 1;
    }
    // advance to the next branch; false when the tree is exhausted
    bool next() {
        trail.resize(pos);
        while (!trail.empty() && trail.back().choice + 1 == trail.back().n) trail.pop_back();
        if (trail.empty()) {
            exploring = false;
            return false;
        }
        ++trail.back().choice;
        rewind();
        return true;
    }
};
inline Explorer& rng() {
    static Explorer e;
    return e;
}

// run body once for every sequence of random draws
template <typename Body>
std::uint64_t for_all_draws(Body&& body) {
    std::uint64_t runs = 0;
    rng().start();
    do {
        body();
        ++runs;
    } while (rng().next());
    return runs;
}

inline std::uint64_t raw32() {
    // direct use of an engine (e.g. by std::shuffle): 12 evenly spaced representatives
    ++rng().raw;
    return (2 * rng().choose(12) + 1) * (0x100000000ull / 24);
}

}  // namespace mcrng

namespace std {
struct mc_random_device {
    using result_type = unsigned int;
    mc_random_device() {}
    explicit mc_random_device(const std::string&) {}
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return 0xffffffffu; }
    unsigned                  operator()() { return 42; }
    double                    entropy() const { return 32; }
};
struct mc_engine {
    using result_type                          = std::uint_fast32_t;
    static constexpr result_type default_seed = 5489u;
    mc_engine() {}
    template <typename T>
    explicit mc_engine(T&&) {}
    template <typename... T>
    void                         seed(T&&...) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type                  operator()() { return mcrng::raw32(); }
    void                         discard(unsigned long long) {}
};
template <typename T = int>
class mc_uniform_int_distribution {
  public:
    using result_type = T;
    using U           = std::make_unsigned_t<T>;
    mc_uniform_int_distribution()
      : mc_uniform_int_distribution(0) {}
    explicit mc_uniform_int_distribution(T a, T b = std::numeric_limits<T>::max())
      : a_(a)
      , b_(b) {}
    template <typename G>
    T operator()(G&) {
        if (b_ < a_) throw std::logic_error("uniform_int_distribution: empty range");
        const std::uint64_t span = static_cast<std::uint64_t>(static_cast<U>(b_) - static_cast<U>(a_));
        if (span >= 4096) {  // huge ranges: representatives spread over the range
            const std::uint64_t r = mcrng::rng().choose(8);
            return static_cast<T>(static_cast<U>(a_) + static_cast<U>(span / 7 * r));
        }
        return static_cast<T>(static_cast<U>(a_) + static_cast<U>(mcrng::rng().choose(span + 1)));
    }
    T    a() const { return a_; }
    T    b() const { return b_; }
    T    min() const { return a_; }
    T    max() const { return b_; }
    void reset() {}

  private:
    T a_, b_;
};
template <typename T = double>
class mc_uniform_real_distribution {
  public:
    using result_type = T;
    mc_uniform_real_distribution()
      : mc_uniform_real_distribution(0) {}
    explicit mc_uniform_real_distribution(T a, T b = T(1))
      : a_(a)
      , b_(b) {}
    template <typename G>
    T operator()(G&) {
        const auto g = mcrng::rng().real_grid;
        const auto c = mcrng::rng().choose(g);
        const T    r = static_cast<T>(a_ + (b_ - a_) * ((c + T(0.5)) / T(g)));
        return r;
    }
    T    a() const { return a_; }
    T    b() const { return b_; }
    T    min() const { return a_; }
    T    max() const { return b_; }
    void reset() {}

  private:
    T a_, b_;
};
}  // namespace std

#define random_device mc_random_device
#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define minstd_rand mc_engine
#define default_random_engine mc_engine
#define uniform_int_distribution mc_uniform_int_distribution
#define uniform_real_distribution mc_uniform_real_distribution
