#include "sut_backoff.h"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
namespace bo = yamc::backoff;
static const SpinType T[] = {
  SPT("spin::mutex", 4000, yamc::spin::mutex), SPT("spin_weak::mutex", 4000, yamc::spin_weak::mutex), SPT("spin_ttas::mutex", 4000, yamc::spin_ttas::mutex),
#define THREE(P, I, ...) SPT("spin::basic_mutex<" P ">", I, yamc::spin::basic_mutex<__VA_ARGS__>), SPT("spin_weak::basic_mutex<" P ">", I, yamc::spin_weak::basic_mutex<__VA_ARGS__>), SPT("spin_ttas::basic_mutex<" P ">", I, yamc::spin_ttas::basic_mutex<__VA_ARGS__>)
  THREE("exponential<0>", 0, bo::exponential<0>), THREE("exponential<1>", 1, bo::exponential<1>), THREE("exponential<2>", 2, bo::exponential<2>),
  THREE("exponential<7>", 7, bo::exponential<7>), THREE("exponential<64>", 64, bo::exponential<64>), THREE("exponential<1000>", 1000, bo::exponential<1000>),
  THREE("yield", -1, bo::yield),
};
__attribute__((constructor)) static void reg() { add_spin_types(T, sizeof T / sizeof *T); }
