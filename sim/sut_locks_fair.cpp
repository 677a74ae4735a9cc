#include "sut_lock.h"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
using namespace yamc;
typedef rwlock::TaskFairness TF; typedef rwlock::PhaseFairness PF;
static const LockType T[] = {
  LT("fair::mutex", CAP_FAIR, POL_FIFO, fair::mutex),
  LT("fair::recursive_mutex", CAP_FAIR | CAP_REC, POL_FIFO, fair::recursive_mutex),
  LT("fair::timed_mutex", CAP_FAIR | CAP_TIMED, POL_FIFO, fair::timed_mutex),
  LT("fair::recursive_timed_mutex", CAP_FAIR | CAP_TIMED | CAP_REC, POL_FIFO, fair::recursive_timed_mutex),
  LT("fair::shared_mutex", CAP_FAIR | CAP_SHARED, POL_PHASE, fair::shared_mutex),
  LT("fair::basic_shared_mutex<TaskFairness>", CAP_FAIR | CAP_SHARED, POL_TASK, fair::basic_shared_mutex<TF>),
  LT("fair::basic_shared_mutex<PhaseFairness>", CAP_FAIR | CAP_SHARED, POL_PHASE, fair::basic_shared_mutex<PF>),
  LT("fair::shared_timed_mutex", CAP_FAIR | CAP_SHARED | CAP_TIMED, POL_PHASE, fair::shared_timed_mutex),
  LT("fair::basic_shared_timed_mutex<TaskFairness>", CAP_FAIR | CAP_SHARED | CAP_TIMED, POL_TASK, fair::basic_shared_timed_mutex<TF>),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
