#include "sut_lock.h"
// the same headers in another configuration, under another namespace name
#define yamc yamc_abort
#define YAMC_CHECKED_CALL_ABORT 1
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
using namespace yamc;
typedef rwlock::ReaderPrefer RP; typedef rwlock::WriterPrefer WP;
#define CC (CAP_CHECKED | CAP_ABORT)
static const LockType T[] = {
  LT("checked::mutex[abort]", CC, POL_NONE, checked::mutex),
  LT("checked::timed_mutex[abort]", CC | CAP_TIMED, POL_NONE, checked::timed_mutex),
  LT("checked::recursive_mutex[abort]", CC | CAP_REC, POL_NONE, checked::recursive_mutex),
  LT("checked::recursive_timed_mutex[abort]", CC | CAP_REC | CAP_TIMED, POL_NONE, checked::recursive_timed_mutex),
  LT("checked::shared_mutex[abort]", CC | CAP_SHARED, POL_RP, checked::shared_mutex),
  LT("checked::basic_shared_mutex<WriterPrefer>[abort]", CC | CAP_SHARED, POL_WP, checked::basic_shared_mutex<WP>),
  LT("checked::shared_timed_mutex[abort]", CC | CAP_SHARED | CAP_TIMED, POL_RP, checked::shared_timed_mutex),
  LT("checked::basic_shared_timed_mutex<WriterPrefer>[abort]", CC | CAP_SHARED | CAP_TIMED, POL_WP, checked::basic_shared_timed_mutex<WP>),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
