#pragma once
#include "rt.h"
// modes of the locks family (also used by others)
enum { M_ANY, M_RW, M_REC, M_TIMED, M_TRY, M_LIVE, M_RACE, M_DESTROY, M_CHK, M_FIFO, M_TASK, M_PHASE, M_RP, M_WP,
       M_DEADLOCK, M_DLSOUND, M_ALLOC, M_MISUSE, M_SEM, M_SEMTIME, M_LATCH, M_BARRIER, M_DROP, M_NATIVE, M_NATH, M_INDEP, M_STD };
struct PropFam { const char* family; int weight, mode; };
struct PropSpec { const char* id; PropFam fam[10]; uint64_t counted; };
const PropSpec* find_prop(const char* id);
// a listed, unrepaired finding: does not end the run
bool known_finding(const char* key);
