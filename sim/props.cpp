#include "props.h"
#include <string.h>
using namespace sim;
#define B(x) (1ull << V_##x)
// a crash, an assertion, use of a destroyed object or a data race (undefined behaviour) breaks whichever property is being exercised
#define BASE (B(CRASH) | B(UAD) | B(RACE))
static const PropSpec P[] = {
  {"C01", {{"locks", 10, M_ANY}}, BASE | B(EXCL)},
  {"C02", {{"locks", 10, M_RW}}, BASE | B(RWEXCL) | B(EXCL) | B(SHARE)},
  {"C03", {{"locks", 10, M_RACE}, {"sem", 3, M_RACE}, {"latch", 2, M_RACE}, {"barrier", 3, M_RACE}}, BASE | B(RACE)},
  {"C04", {{"locks", 10, M_LIVE}}, BASE | B(HANG) | B(STUCK) | B(EXC) | B(SHARE)},
  {"C05", {{"locks", 10, M_REC}}, BASE | B(RECUR) | B(EXCL) | B(HANG) | B(STUCK) | B(EXC) | B(FALSEREPORT) | B(RESIDUE)},
  {"C06", {{"locks", 10, M_TRY}}, BASE | B(BLOCKNB) | B(TRYFALSE) | B(RESIDUE) | B(EXC) | B(HANG) | B(STUCK) | B(EXCL) | B(RWEXCL)},
  {"C07", {{"locks", 10, M_TIMED}}, BASE | B(EARLY) | B(LATE) | B(RESIDUE) | B(EXC) | B(HANG) | B(STUCK) | B(BLOCKNB) | B(EXCL) | B(RWEXCL) | B(FIFO) | B(POLICY) | B(SHARE)},
  {"C08", {{"locks", 10, M_FIFO}}, BASE | B(FIFO) | B(HANG) | B(STUCK)},
  {"C09", {{"locks", 10, M_TASK}}, BASE | B(POLICY) | B(HANG) | B(STUCK) | B(SHARE)},
  {"C10", {{"locks", 10, M_PHASE}}, BASE | B(POLICY) | B(HANG) | B(STUCK) | B(SHARE)},
  {"C11", {{"locks", 10, M_RP}}, BASE | B(POLICY) | B(HANG) | B(STUCK) | B(SHARE)},
  {"C12", {{"locks", 10, M_WP}, {"deadlock", 4, M_WP}}, BASE | B(POLICY) | B(HANG) | B(STUCK) | B(SHARE)},
  {"C13", {{"misuse", 10, M_MISUSE}, {"locks", 3, M_CHK}}, BASE | B(MISUSE) | B(FALSEREPORT) | B(RESIDUE) | B(EXCL) | B(RWEXCL) | B(HANG) | B(STUCK) | B(SHARE) | B(BLOCKNB)},
  {"C14", {{"deadlock", 10, M_DEADLOCK}}, BASE | B(MISSEDDL) | B(HANG) | B(STUCK)},
  {"C15", {{"deadlock", 10, M_DLSOUND}, {"locks", 2, M_CHK}, {"misuse", 2, M_MISUSE}}, BASE | B(FALSEDL) | B(FALSEREPORT)},
  {"C16", {{"deadlock", 10, M_ALLOC}}, BASE | B(RESIDUE) | B(HANG) | B(STUCK) | B(EXC) | B(EXCL) | B(RWEXCL) | B(FALSEREPORT) | B(FALSEDL)},
  {"C17", {{"sem", 10, M_SEM}}, BASE | B(TOKENS) | B(HANG) | B(STUCK) | B(BLOCKNB) | B(TRYFALSE) | B(EXC) | B(RESIDUE)},
  {"C18", {{"sem", 10, M_SEMTIME}}, BASE | B(EARLY) | B(LATE) | B(TOKENS) | B(EXC) | B(BLOCKNB) | B(HANG) | B(STUCK) | B(TRYFALSE) | B(RESIDUE)},
  {"C19", {{"latch", 10, M_LATCH}}, BASE | B(LATCH) | B(HANG) | B(STUCK) | B(EXC) | B(BLOCKNB)},
  {"C20", {{"barrier", 10, M_BARRIER}}, BASE | B(BARRIER) | B(HANG) | B(STUCK) | B(EXC) | B(BLOCKNB)},
  {"C21", {{"barrier", 10, M_DROP}}, BASE | B(BARRIER) | B(HANG) | B(STUCK) | B(EXC) | B(BLOCKNB)},
  {"C22", {{"shlock", 10, M_ANY}}, BASE | B(OWN) | B(LATE) | B(EXC) | B(HANG) | B(STUCK) | B(RESIDUE) | B(BLOCKNB) | B(RWEXCL)},
  {"C23", {{"scoped", 10, M_ANY}}, BASE | B(OWN) | B(EXC) | B(HANG) | B(STUCK) | B(RESIDUE) | B(BLOCKNB)},
  {"C24", {{"locks", 6, M_DESTROY}, {"sem", 3, M_DESTROY}, {"latch", 3, M_DESTROY}, {"barrier", 3, M_DESTROY}}, BASE | B(HANG) | B(STUCK)},
  {"C25", {{"backoff", 10, M_ANY}}, BASE | B(EXCL) | B(YIELD) | B(HANG) | B(STUCK)},
  {"C26", {{"locks", 7, M_NATIVE}, {"sem", 5, M_NATIVE}}, BASE | B(NATIVE) | B(EXCL) | B(RWEXCL) | B(TOKENS) | B(EARLY) | B(LATE) | B(HANG) | B(STUCK) | B(RESIDUE) | B(BLOCKNB) | B(EXC) | B(RECUR) | B(TRYFALSE)},
  {"C28", {{"locks", 10, M_NATH}}, BASE | B(EXC) | B(NATIVE) | B(EXCL) | B(RWEXCL) | B(HANG) | B(STUCK) | B(RESIDUE) | B(BLOCKNB) | B(RECUR) | B(TRYFALSE) | B(SHARE)},
  {"C29", {{"multi", 10, M_INDEP}}, BASE | B(EXCL) | B(RWEXCL) | B(TOKENS) | B(HANG) | B(STUCK) | B(BLOCKNB) | B(TRYFALSE) | B(RESIDUE) | B(RECUR) | B(FALSEREPORT) | B(EXC) | B(SHARE) | B(LATCH) | B(BARRIER)},
  {"C30", {{"stdbox", 10, M_STD}}, BASE | B(EXCL) | B(RWEXCL) | B(TOKENS) | B(HANG) | B(STUCK) | B(RESIDUE) | B(FALSEREPORT) | B(EXC) | B(RACE)},
  {"C31", {{"multi", 10, M_INDEP}, {"locks", 6, M_ANY}, {"misuse", 6, M_MISUSE}, {"deadlock", 6, M_ALLOC}, {"sem", 6, M_SEM}, {"latch", 2, M_LATCH}, {"barrier", 2, M_BARRIER}, {"stdbox", 3, M_STD}, {"locks", 4, M_NATIVE}, {"sem", 4, M_NATIVE}}, BASE | B(LEAK)},
};
const PropSpec* find_prop(const char* id) { for (auto& p : P) if (!strcmp(p.id, id)) return &p; return nullptr; }
