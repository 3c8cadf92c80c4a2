// Controlled OpenMP runtime: explores every schedule of the parallel regions of the code under test.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace ompmc {
struct Result {
    std::uint64_t schedules = 0;  // complete schedules executed
    std::uint64_t points    = 0;  // scheduling decisions taken
    std::uint64_t accesses  = 0;  // instrumented memory accesses inside parallel regions
    std::uint64_t regions   = 0;  // parallel regions executed with more than one thread
    bool          complete  = true;
    std::string   error;  // data race, deadlock or divergence; empty when none was seen
};
// Runs body once per schedule, with teams of `team` threads. body must be deterministic up to the schedule. Stops when
// body returns false, at the first race, or after max_schedules (then complete is false).
Result explore(unsigned team, std::uint64_t max_schedules, const std::function<bool()>& body);
}  // namespace ompmc
