#pragma once
#include <cstddef>
#include <vector>
template <typename T>
struct Fit {
    int                         algo = 0, form = 0;
    std::vector<T>              x;
    std::size_t                 d = 1, k = 2, n_init = 1, max_iter = 10, patience = 0;
    bool                        early = true;
    std::vector<std::vector<T>> starts;  // empty: random draws
};
