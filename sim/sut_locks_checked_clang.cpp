// The same headers built by the other compiler with NDEBUG, under another namespace name: the order in which operands are
// evaluated (two clock readings, say) and what assert() leaves out are the build's choice, so they are varied too.
#define NDEBUG
#define yamc yamc_clang
#define VARIANT "[clang]"
#define VCAP CAP_CLANG
#include "sut_locks_checked.cpp"
