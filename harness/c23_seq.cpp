// The sequential copy of the library, under another namespace.
#include "rng_control.hpp"
#define ffcl ffcl_seq
#define C23_NS c23_seq
#include "c23_api.hpp"
