// C14: FasterMSC keeps its objective exact, only improves and ends swap-optimal.
#include "kmedoids_oracle.hpp"

using namespace kmd;
template <typename T>
using Msc = Check<T, Silhouette, ffcl::FasterMSC>;

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    space("line", true, 1, 4, 2, S ? 3 : 4, 2, 3, Msc<float>{1, 1});
    if (!S) space("line-5", true, 1, 4, 5, 5, 2, 4, Msc<float>{1, 0, false});
    if (!S) space("line-wide", false, 1, 9, 3, T ? 7 : 6, 2, 4, Msc<float>{1, 4});
    if (!S) space("line-sets", false, 1, 6, 6, T ? 9 : 8, 2, 5, Msc<float>{1, 0, false}, false);
    if (!S) space("line-tiny", false, 1, 7, 3, 5, 2, 3, Msc<float>{1.0 / (1 << 26), 3, false});
    if (!S) space("plane", false, 2, 3, 3, T ? 7 : 6, 2, 4, Msc<float>{1, 1, false});
    if (!S) space("plane-double", false, 2, 4, 4, 4, 2, 3, Msc<double>{0.5, 1, false});
    if (!S) space("line-far", false, 1, 6, 3, 5, 2, 3, Msc<double>{1, -(1 << 30)});
    if (!S) many("many", Msc<double>{1, 5});
    if (!S) sizes("sizes", T ? 100 : 60, Msc<float>{1, 5});
    if (!S) sizes("sizes-double", T ? 70 : 40, Msc<double>{0.5, 0});
    structured("structured", S ? std::vector<std::size_t>{12} : T ? std::vector<std::size_t>{12, 30, 60, 100} : std::vector<std::size_t>{12, 30, 60}, Msc<float>{1, 5, !S});
    random_starts<float, Silhouette, ffcl::FasterMSC, false>("random", 5, 3, T ? 6 : 5, 2);
    if (!S) random_starts<float, Silhouette, ffcl::FasterMSC, true>("random-matrix", 5, 4, T ? 6 : 5, 3);
    return 0;
}
MC_MAIN
