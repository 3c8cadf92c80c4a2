// C13: FasterPAM keeps its objective exact, only improves and ends swap-optimal.
#include "kmedoids_oracle.hpp"

using namespace kmd;
template <typename T>
using Pam = Check<T, Deviation, ffcl::FasterPAM>;

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    space("line", true, 1, 4, 2, S ? 3 : 4, 2, 3, Pam<float>{1, 1});
    if (!S) space("line-5", true, 1, 4, 5, 5, 2, 4, Pam<float>{1, 0, false});
    space("line-int", true, 1, 4, 2, S ? 3 : 4, 2, 4, Pam<int>{1, 2});
    if (!S) space("line-wide", false, 1, 9, 3, T ? 7 : 6, 2, 4, Pam<float>{1, 4});
    if (!S) space("line-sets", false, 1, 6, 6, T ? 9 : 8, 2, 5, Pam<float>{1, 0, false}, false);
    if (!S) space("line-tiny", false, 1, 7, 3, 5, 2, 3, Pam<float>{1.0 / (1 << 26), 3, false});
    if (!S) space("plane", false, 2, 3, 3, T ? 7 : 6, 2, 4, Pam<float>{1, 1, false});
    if (!S) space("plane-int", false, 2, 3, 3, 4, 2, 3, Pam<int>{3, 1});
    if (!S) space("plane-double", false, 2, 4, 4, 4, 2, 3, Pam<double>{0.5, 1, false});
    if (!S) space("line-far", false, 1, 6, 3, 5, 2, 3, Pam<double>{1, -(1 << 30)});
    if (!S) space("plane-wide-int", false, 2, 3, 3, 4, 2, 3, Pam<int>{100003, 1});
    if (!S) many("many", Pam<double>{1, 5});
    if (!S) sizes("sizes", T ? 100 : 60, Pam<float>{1, 5});
    if (!S) sizes("sizes-int", T ? 70 : 40, Pam<int>{3, 20});
    if (!S) sizes("sizes-double", T ? 70 : 40, Pam<double>{0.5, 0});
    structured("structured", S ? std::vector<std::size_t>{12} : T ? std::vector<std::size_t>{12, 30, 60, 100} : std::vector<std::size_t>{12, 30, 60}, Pam<float>{1, 5, !S});
    if (!S) structured("structured-int", {12, 25}, Pam<int>{1, 5});
    random_starts<float, Deviation, ffcl::FasterPAM, false>("random", 5, 3, T ? 6 : 5, 2);
    if (!S) random_starts<float, Deviation, ffcl::FasterPAM, true>("random-matrix", 5, 4, T ? 6 : 5, 3);
    return 0;
}
MC_MAIN
