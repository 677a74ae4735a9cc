#include "sut_lock.h"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "yamc_backoff_spin.hpp"
using namespace yamc;
typedef rwlock::ReaderPrefer RP; typedef rwlock::WriterPrefer WP;
static const LockType T[] = {
  LT("spin::mutex", CAP_SPIN, POL_NONE, spin::mutex),
  LT("spin::basic_mutex<yield>", CAP_SPIN, POL_NONE, spin::basic_mutex<backoff::yield>),
  LT("spin::basic_mutex<exp<7>>", CAP_SPIN, POL_NONE, spin::basic_mutex<backoff::exponential<7>>),
  LT("spin::basic_mutex<busy>", CAP_SPIN | CAP_BUSY, POL_NONE, spin::basic_mutex<backoff::busy>),
  LT("spin_weak::mutex", CAP_SPIN | CAP_TRYWEAK, POL_NONE, spin_weak::mutex),
  LT("spin_weak::basic_mutex<yield>", CAP_SPIN | CAP_TRYWEAK, POL_NONE, spin_weak::basic_mutex<backoff::yield>),
  LT("spin_ttas::mutex", CAP_SPIN | CAP_TRYWEAK, POL_NONE, spin_ttas::mutex),
  LT("spin_ttas::basic_mutex<yield>", CAP_SPIN | CAP_TRYWEAK, POL_NONE, spin_ttas::basic_mutex<backoff::yield>),
  LT("spin_ttas::basic_mutex<exp<7>>", CAP_SPIN | CAP_TRYWEAK, POL_NONE, spin_ttas::basic_mutex<backoff::exponential<7>>),
  LT("alternate::recursive_mutex", CAP_REC, POL_NONE, alternate::recursive_mutex),
  LT("alternate::timed_mutex", CAP_TIMED, POL_NONE, alternate::timed_mutex),
  LT("alternate::recursive_timed_mutex", CAP_TIMED | CAP_REC, POL_NONE, alternate::recursive_timed_mutex),
  LT("alternate::shared_mutex", CAP_SHARED, POL_RP, alternate::shared_mutex),
  LT("alternate::basic_shared_mutex<ReaderPrefer>", CAP_SHARED, POL_RP, alternate::basic_shared_mutex<RP>),
  LT("alternate::basic_shared_mutex<WriterPrefer>", CAP_SHARED, POL_WP, alternate::basic_shared_mutex<WP>),
  LT("alternate::shared_timed_mutex", CAP_SHARED | CAP_TIMED, POL_RP, alternate::shared_timed_mutex),
  LT("alternate::basic_shared_timed_mutex<WriterPrefer>", CAP_SHARED | CAP_TIMED, POL_WP, alternate::basic_shared_timed_mutex<WP>),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
