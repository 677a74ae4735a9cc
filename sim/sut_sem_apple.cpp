#include "sut_sem.h"
#include <stdlib.h>
#include "dispatch/dispatch.h"
#define free sim_free
#include "gcd_semaphore.hpp"
#undef free
static const SemType T[] = {
  SEMT("gcd::counting_semaphore<>", CAP_NATIVE | CAP_APPLE, true, yamc::gcd::counting_semaphore<>),
  SEMT("gcd::binary_semaphore", CAP_NATIVE | CAP_APPLE, true, yamc::gcd::binary_semaphore),
};
__attribute__((constructor)) static void reg() { add_sem_types(T, sizeof T / sizeof *T); }
