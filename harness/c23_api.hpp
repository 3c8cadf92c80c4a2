// What the threads check compares: the same functions, compiled once with threads and once without.
// C23_NS names the namespace of this copy; the sequential copy also renames the library's own namespace.
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"

#include "c23_types.hpp"

namespace C23_NS {

template <typename T>
std::vector<T> matrix(std::vector<T> x, std::size_t d) {
    ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator> m(x.begin(), x.end(), d);
    std::vector<T>                                                             out;
    for (std::size_t i = 0; i < m.n_rows(); ++i)
        for (std::size_t j = 0; j < m.n_columns(); ++j) out.push_back(m(i, j));
    return out;
}
template <typename T>
std::vector<T> transpose(std::vector<T> x, std::size_t d) {
    auto [data, n, f] = ffcl::common::math::linear_algebra::transpose(x.begin(), x.end(), d);
    data.push_back(static_cast<T>(n));
    data.push_back(static_cast<T>(f));
    return data;
}
template <template <typename> class Algo, typename T>
std::vector<T> kmeans_with(const Fit<T>& f) {
    using It = typename std::vector<T>::iterator;
    using K  = ffcl::KMeans<T>;
    auto x   = f.x;
    K    model(f.k, typename K::Options().n_init(f.n_init).max_iter(f.max_iter).early_stopping(f.early).patience(f.patience));
    if (f.starts.empty()) return model.template fit<Algo>(x.begin(), x.end(), f.d);
    std::size_t calls = 0;
    auto        init  = [&](It, It, std::size_t, std::size_t) { return f.starts[calls++ % f.starts.size()]; };
    return model.template fit<Algo>(x.begin(), x.end(), f.d, init);
}
template <typename T>
std::vector<T> kmeans(const Fit<T>& f) {
    return f.algo == 0 ? kmeans_with<ffcl::Lloyd, T>(f) : kmeans_with<ffcl::Hamerly, T>(f);
}
template <template <typename> class Algo, typename T>
std::vector<std::size_t> kmedoids_with(const Fit<T>& f) {
    auto x   = f.x;
    auto set = [&](auto options) { return options.n_init(f.n_init).max_iter(f.max_iter).early_stopping(f.early).patience(f.patience); };
    if (f.form == 0) {
        using K = ffcl::KMedoids<T, true>;
        K model(f.k, set(typename K::Options()));
        return model.template fit<Algo>(x.begin(), x.end(), f.d);
    }
    if (f.form == 1) {
        using K = ffcl::KMedoids<T, false>;
        K model(f.k, set(typename K::Options()));
        return model.template fit<Algo>(x.begin(), x.end(), f.d);
    }
    using K = ffcl::KMedoids<T, true>;
    K                                                                          model(f.k, set(typename K::Options()));
    ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator> m(x.begin(), x.end(), f.d);
    return model.template fit<Algo>(m);
}
template <typename T>
std::vector<std::size_t> kmedoids(const Fit<T>& f) {
    return f.algo == 0 ? kmedoids_with<ffcl::FasterPAM, T>(f) : kmedoids_with<ffcl::FasterMSC, T>(f);
}
template std::vector<double> matrix<double>(std::vector<double>, std::size_t);
template std::vector<float>  matrix<float>(std::vector<float>, std::size_t);
template std::vector<int>    matrix<int>(std::vector<int>, std::size_t);
template std::vector<double> transpose<double>(std::vector<double>, std::size_t);
template std::vector<int>    transpose<int>(std::vector<int>, std::size_t);
template std::vector<double> kmeans<double>(const Fit<double>&);
template std::vector<float>  kmeans<float>(const Fit<float>&);
template std::vector<std::size_t> kmedoids<double>(const Fit<double>&);
template std::vector<std::size_t> kmedoids<float>(const Fit<float>&);
}  // namespace C23_NS
