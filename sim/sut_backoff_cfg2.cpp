#include "sut_backoff.h"
#define YAMC_BACKOFF_SPIN_DEFAULT yamc::backoff::yield
#define yamc yamc_bk2
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
static const SpinType T[] = {
  SPT("spin::mutex (SPIN_DEFAULT=yield)", -1, yamc::spin::mutex), SPT("spin_weak::mutex (SPIN_DEFAULT=yield)", -1, yamc::spin_weak::mutex), SPT("spin_ttas::mutex (SPIN_DEFAULT=yield)", -1, yamc::spin_ttas::mutex),
};
__attribute__((constructor)) static void reg() { add_spin_types(T, sizeof T / sizeof *T); }
