#include "sut_sem.h"
#include "posix_semaphore.hpp"
static const SemType T[] = {
  SEMT("posix::counting_semaphore<>", CAP_NATIVE | CAP_SYSFOR, true, yamc::posix::counting_semaphore<>),
  SEMT("posix::binary_semaphore", CAP_NATIVE | CAP_SYSFOR, true, yamc::posix::binary_semaphore),
};
__attribute__((constructor)) static void reg() { add_sem_types(T, sizeof T / sizeof *T); }
