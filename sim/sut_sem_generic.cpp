#include "sut_sem.h"
#include "yamc_semaphore.hpp"
static const SemType T[] = {
  SEMT("counting_semaphore<>", 0, false, yamc::counting_semaphore<>),
  SEMT("counting_semaphore<5>", 0, false, yamc::counting_semaphore<5>),
  SEMT("binary_semaphore", 0, false, yamc::binary_semaphore),
};
__attribute__((constructor)) static void reg() { add_sem_types(T, sizeof T / sizeof *T); }
