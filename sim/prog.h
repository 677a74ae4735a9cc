// Generated workload programs, checks and the family interface.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

struct Step {
  int op = 0;
  int64_t a[8] = {0};
};
struct Program {
  std::string family, type;
  int64_t p[16] = {0};
  std::vector<std::vector<Step>> th;
};

// What a check wants from a family.
struct Want {
  const char* prop;       // property id
  int mode;               // family specific emphasis
};

struct Family {
  const char* name;
  // generate program and configuration for one run
  void (*gen)(sim::Rng& r, const Want& w, Program& p, sim::RunCfg& c);
  // body of the run, executed on fiber 0
  void (*body)(const Program& p);
  void (*quiesce)(const Program& p);
  // human readable step
  void (*describe)(const Program& p, int th, const Step& s, char* buf, size_t n);
  // drop to a valid program after shrinking; false: not runnable
  bool (*normalise)(Program& p);
  const char* const* probe_names; // null terminated, may be null
};
void register_family(const Family* f);
const Family* find_family(const std::string& n);
// step argument standing for the absolute deadline k ns after the clock's epoch, -8 <= k <= 8
constexpr int64_t ABS0 = INT64_MIN + 8;
inline bool is_abs(int64_t d) { return d <= ABS0 + 8; }
// configuration presets
void gen_cfg(sim::Rng& r, sim::RunCfg& c, bool allow_weak);
