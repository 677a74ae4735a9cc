// The fair shared mutexes with their own tracing on (a debugging configuration): what it prints is dropped, what it reads of
// the queue is not, so a trace point outside the lock or past a removed node is a data race or a use of a dead object.
#include <cstdio>
#include <cstdint>
namespace std { inline int vp_printf(const char*, ...) { return 0; } }
#define printf vp_printf
#define YAMC_DEBUG_TRACING 2
#define yamc yamc_traced
#define VARIANT "[traced]"
#define VCAP CAP_VERBOSE
#include "sut_locks_fair.cpp"
