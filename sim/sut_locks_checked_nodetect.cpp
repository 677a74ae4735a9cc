#include "sut_lock.h"
// the same headers in another configuration, under another namespace name
#define yamc yamc_nodetect
#define YAMC_CHECKED_DETECT_DEADLOCK 0
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
using namespace yamc;
typedef rwlock::ReaderPrefer RP; typedef rwlock::WriterPrefer WP;
#define CC (CAP_CHECKED | CAP_NODETECT)
static const LockType T[] = {
  LT("checked::mutex[nodetect]", CC, POL_NONE, checked::mutex),
  LT("checked::timed_mutex[nodetect]", CC | CAP_TIMED, POL_NONE, checked::timed_mutex),
  LT("checked::recursive_mutex[nodetect]", CC | CAP_REC, POL_NONE, checked::recursive_mutex),
  LT("checked::recursive_timed_mutex[nodetect]", CC | CAP_REC | CAP_TIMED, POL_NONE, checked::recursive_timed_mutex),
  LT("checked::shared_mutex[nodetect]", CC | CAP_SHARED, POL_RP, checked::shared_mutex),
  LT("checked::basic_shared_mutex<WriterPrefer>[nodetect]", CC | CAP_SHARED, POL_WP, checked::basic_shared_mutex<WP>),
  LT("checked::shared_timed_mutex[nodetect]", CC | CAP_SHARED | CAP_TIMED, POL_RP, checked::shared_timed_mutex),
  LT("checked::basic_shared_timed_mutex<WriterPrefer>[nodetect]", CC | CAP_SHARED | CAP_TIMED, POL_WP, checked::basic_shared_timed_mutex<WP>),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
