// the same headers with both configuration macros set by the user
#include "sut_backoff.h"
#define YAMC_BACKOFF_EXPONENTIAL_INITCOUNT 150
#define yamc yamc_bk1
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#undef yamc
static const SpinType T[] = {
  SPT("spin::mutex (INITCOUNT=150)", 150, yamc_bk1::spin::mutex), SPT("spin_weak::mutex (INITCOUNT=150)", 150, yamc_bk1::spin_weak::mutex), SPT("spin_ttas::mutex (INITCOUNT=150)", 150, yamc_bk1::spin_ttas::mutex),
};
__attribute__((constructor)) static void reg() { add_spin_types(T, sizeof T / sizeof *T); }
