#include "sut_sem.h"
#include "win_semaphore.hpp"
static const SemType T[] = {
  SEMT("win::counting_semaphore<>", CAP_NATIVE | CAP_WIN, false, yamc::win::counting_semaphore<>),
  SEMT("win::binary_semaphore", CAP_NATIVE | CAP_WIN, false, yamc::win::binary_semaphore),
};
__attribute__((constructor)) static void reg() { add_sem_types(T, sizeof T / sizeof *T); }
