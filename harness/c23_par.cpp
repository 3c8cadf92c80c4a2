// The threaded copy of the library.
#include "rng_control.hpp"
#define C23_NS c23_par
#include "c23_api.hpp"
