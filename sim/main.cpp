// Driver: seeded search over many simulated runs, minimisation, replay, evidence.
#include "prog.h"
#include "props.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <memory>
using namespace sim;

// ------------------------------------------------------------------ registry
static const ::Family* g_fams[32]; static int g_nfam;
void register_family(const ::Family* f) { g_fams[g_nfam++] = f; }
const ::Family* find_family(const std::string& n) { for (int i = 0; i < g_nfam; i++) if (n == g_fams[i]->name) return g_fams[i]; return nullptr; }
static int fam_index(const ::Family* f) { for (int i = 0; i < g_nfam; i++) if (g_fams[i] == f) return i; return 0; }

static int64_t real_ns() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

// ------------------------------------------------------------------ known findings
struct Known { char key[64]; };
static Known* g_known; static int g_nknown; static uint64_t* g_known_hits;
bool known_finding(const char* key) {
  for (int i = 0; i < g_nknown; i++) if (!strcmp(g_known[i].key, key)) { __atomic_add_fetch(&g_known_hits[i], 1, __ATOMIC_RELAXED); return true; }
  return false;
}

// ------------------------------------------------------------------ configuration swarm
void gen_cfg(Rng& r, RunCfg& c, bool weak) {
  c.seed = (int64_t)(r.next() >> 2);
  int x = r.below(100);
  c.strat = x < 10 ? 0 : x < 50 ? 1 : x < 82 ? 2 : x < 94 ? 3 : 4;
  static const int psw[] = {15, 50, 120, 300, 600};
  c.psw = psw[r.below(5)]; c.pctd = r.range(1, 6);
  static const int hz[] = {60, 150, 400, 1500};
  c.horizon = hz[r.below(4)];
  static const int tk[] = {1, 10, 100, 1000};
  c.tick = tk[r.below(4)];
  c.chaos = r.oneof(4) ? 800 : 5000; c.finish = 400000;
  c.sysoff = (r.oneof(8) ? 1000000000000000ll : 1700000000000000000ll) + r.below(1000000000);  // sometimes shortly after the epoch, never before it
  c.rwpref = r.below(2);
  static const int wt[] = {15625000, 15625000, 1000000, 500000};
  c.wintick = wt[r.below(4)];
  auto en = [&](FaultKind k, int p, std::initializer_list<int> rates, std::initializer_list<int> caps) {
    if (!r.permille(p)) return;
    c.rate[k] = *(rates.begin() + r.below((uint32_t)rates.size())); c.cap[k] = *(caps.begin() + r.below((uint32_t)caps.size()));
  };
  en(F_SPURIOUS, 300, {20, 100, 400}, {1, 4, 40});
  en(F_SIGPICK, 300, {100, 500}, {1, 5, 50});
  en(F_WEAKCAS, 250, {20, 200, 500}, {1, 5, 50});
  en(F_STALL, 200, {5, 30}, {1, 3, 10});
  en(F_LEAP, 200, {3, 20, 80}, {1, 3, 10});
  en(F_SYSJUMP, 120, {3, 20}, {1, 3});
  if (weak) en(F_STALE, 200, {30, 150, 500}, {3, 30});
  if (r.permille(100)) c.race = 1;
  if (r.permille(150)) { static const int pl[] = {5, 40, 200}; c.plain = pl[r.below(3)]; }
}

// ------------------------------------------------------------------ one case
struct Case { Program prog; RunCfg cfg; };
static void gen_case(const PropSpec* ps, uint64_t seed, uint64_t idx, Case& cs) {
  uint64_t h = 0; for (const char* p = ps->id; *p; p++) h = h * 131 + *p;
  Rng r(mix64(mix64(seed, h), idx));
  int tot = 0; for (auto& f : ps->fam) if (f.family && find_family(f.family)) tot += f.weight;
  if (!tot) { fprintf(stderr, "no family linked for %s\n", ps->id); _exit(2); }
  int x = r.below(tot); const PropFam* pf = nullptr;
  for (auto& f : ps->fam) if (f.family && find_family(f.family)) { if (x < f.weight) { pf = &f; break; } x -= f.weight; }
  cs.prog = Program(); cs.cfg = RunCfg(); cs.prog.family = pf->family;
  Want w{ps->id, pf->mode};
  find_family(pf->family)->gen(r, w, cs.prog, cs.cfg);
}
struct BodyArg { const Program* p; const ::Family* f; };
static void body_tramp(void* a) {
  BodyArg* b = (BodyArg*)a; b->f->body(*b->p);
  if (failed() || b->p->family == "scoped" || b->p->family == "shlock") return;   // their own adapters stay
  // every object is gone: nothing of what the code under test acquired may be left. A table shared by all checked mutexes may keep a few blocks.
  Usage u = usage(); uint64_t keep = 0;
  for (size_t i = 0; (i = b->p->type.find("checked", i)) != std::string::npos; i += 7) keep += 3;
  if (u.os) fail(V_LEAK, "after every object was destroyed, %d operating system objects are left, for instance a %s", u.os, u.oskind);
  else if (u.blocks > keep) fail(V_LEAK, "after every object was destroyed, %llu blocks of memory (%llu bytes) are left", (unsigned long long)u.blocks, (unsigned long long)u.bytes);
}
static void q_tramp(void* a) { BodyArg* b = (BodyArg*)a; if (b->f->quiesce) b->f->quiesce(*b->p); }
static void run_case(const Case& cs, uint64_t counted, const std::vector<Decision>* rep, bool tr, Result& out) {
  BodyArg ba{&cs.prog, find_family(cs.prog.family)};
  run_sim(cs.cfg, counted, rep, tr, body_tramp, &ba, q_tramp, out);
}

// ------------------------------------------------------------------ replay files
struct CfgField { const char* n; int64_t RunCfg::*m; };
static const CfgField cfgf[] = {{"seed", &RunCfg::seed}, {"strat", &RunCfg::strat}, {"psw", &RunCfg::psw}, {"pctd", &RunCfg::pctd}, {"horizon", &RunCfg::horizon},
  {"tick", &RunCfg::tick}, {"chaos", &RunCfg::chaos}, {"finish", &RunCfg::finish}, {"sysoff", &RunCfg::sysoff}, {"race", &RunCfg::race}, {"plain", &RunCfg::plain}, {"rwpref", &RunCfg::rwpref}, {"reuse", &RunCfg::reuse}, {"coop", &RunCfg::coop}, {"wintick", &RunCfg::wintick}, {"maxrd", &RunCfg::maxrd}, {"wide", &RunCfg::wide}};
static std::string describe_prog(const Program& p, const char* ind) {
  std::string s; char b[512]; const ::Family* f = find_family(p.family);
  for (size_t i = 0; i < p.th.size(); i++) for (auto& st : p.th[i]) {
    b[0] = 0; if (f && f->describe) f->describe(p, (int)i, st, b, sizeof b);
    char l[600]; snprintf(l, sizeof l, "%sthread %zu: %s\n", ind, i, b); s += l;
  }
  return s;
}
static void write_replay(const std::string& path, const char* prop, const Case& cs, const std::vector<Decision>& d, const Result& r, uint64_t seed, uint64_t idx) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); _exit(2); }
  fprintf(f, "# yamc deterministic simulation replay. Re-run: python3 /verif/check.py --replay %s\n", path.c_str());
  fprintf(f, "property %s\nclass %s\nmessage %s\nhash %016llx\norigin VERIF_SEED=%llu run=%llu\n", prop, cls_names[r.cls], r.msg, (unsigned long long)r.hash, (unsigned long long)seed, (unsigned long long)idx);
  fprintf(f, "cfg"); for (auto& c : cfgf) fprintf(f, " %s=%lld", c.n, (long long)(cs.cfg.*c.m)); fprintf(f, "\n");
  for (int k = 0; k < NFAULT; k++) if (cs.cfg.rate[k]) fprintf(f, "fault %s %lld %lld   # rate permille, cap; fired %u\n", fault_names[k], (long long)cs.cfg.rate[k], (long long)cs.cfg.cap[k], r.fired[k]);
  fprintf(f, "family %s\ntype %s\nparams", cs.prog.family.c_str(), cs.prog.type.empty() ? "-" : cs.prog.type.c_str());
  for (int64_t v : cs.prog.p) fprintf(f, " %lld", (long long)v);
  fprintf(f, "\n");
  const ::Family* fam = find_family(cs.prog.family);
  for (size_t i = 0; i < cs.prog.th.size(); i++) {
    fprintf(f, "thread %zu\n", i);
    for (auto& s : cs.prog.th[i]) {
      char b[512]; b[0] = 0; if (fam->describe) fam->describe(cs.prog, (int)i, s, b, sizeof b);
      fprintf(f, "  step %d", s.op); for (int64_t v : s.a) fprintf(f, " %lld", (long long)v); fprintf(f, "   # %s\n", b);
    }
  }
  fprintf(f, "# every other choice is option 0 (keep the running thread, no fault)\ndecisions %zu\n", d.size());
  for (size_t i = 0; i < d.size(); i++) fprintf(f, "%u:%u%c", d[i].idx, d[i].val, i % 16 == 15 ? '\n' : ' ');
  fprintf(f, "\nend\n");
  fclose(f);
}
static bool read_replay(const char* path, std::string& prop, std::string& cls, uint64_t& hash, Case& cs, std::vector<Decision>& d) {
  FILE* f = fopen(path, "r"); if (!f) return false;
  static char line[1 << 16]; cs = Case(); cs.prog = Program(); bool indec = false;
  while (fgets(line, sizeof line, f)) {
    if (indec) {
      char* p = line; unsigned a, b; int n;
      while (sscanf(p, " %u:%u%n", &a, &b, &n) == 2) { d.push_back({a, b}); p += n; }
      continue;
    }
    if (line[0] == '#') continue;
    char w[64] = ""; int n = 0; sscanf(line, "%63s%n", w, &n); char* rest = line + n;
    if (!strcmp(w, "property")) { char x[64]; sscanf(rest, "%63s", x); prop = x; }
    else if (!strcmp(w, "class")) { char x[64]; sscanf(rest, "%63s", x); cls = x; }
    else if (!strcmp(w, "hash")) { unsigned long long h; sscanf(rest, "%llx", &h); hash = h; }
    else if (!strcmp(w, "cfg")) { for (char* t = strtok(rest, " \n"); t; t = strtok(nullptr, " \n")) for (auto& c : cfgf) { size_t l = strlen(c.n); if (!strncmp(t, c.n, l) && t[l] == '=') cs.cfg.*c.m = atoll(t + l + 1); } }
    else if (!strcmp(w, "fault")) { char x[64]; long long a, b; if (sscanf(rest, "%63s %lld %lld", x, &a, &b) == 3) for (int k = 0; k < NFAULT; k++) if (!strcmp(x, fault_names[k])) { cs.cfg.rate[k] = a; cs.cfg.cap[k] = b; } }
    else if (!strcmp(w, "family")) { char x[64]; sscanf(rest, "%63s", x); cs.prog.family = x; }
    else if (!strcmp(w, "type")) { std::string x = rest; while (!x.empty() && strchr(" \r\n", x.back())) x.pop_back(); x.erase(0, x.find_first_not_of(' ') == std::string::npos ? x.size() : x.find_first_not_of(' ')); cs.prog.type = x == "-" ? "" : x; }
    else if (!strcmp(w, "params")) { char* p = rest; for (int i = 0; i < 16; i++) cs.prog.p[i] = strtoll(p, &p, 10); }
    else if (!strcmp(w, "thread")) cs.prog.th.emplace_back();
    else if (!strcmp(w, "step")) { Step s; char* p = rest; s.op = (int)strtoll(p, &p, 10); for (int i = 0; i < 8; i++) s.a[i] = strtoll(p, &p, 10); cs.prog.th.back().push_back(s); }
    else if (!strcmp(w, "decisions")) indec = true;
  }
  fclose(f);
  return find_family(cs.prog.family) != nullptr;
}

// ------------------------------------------------------------------ shared search state
static const size_t HT = 1u << 24;
struct Shared {
  uint64_t runs, nontrivial, distinct, steps, switches, faultruns; uint64_t simtime_us;
  uint64_t fired[NFAULT], firedruns[NFAULT], other[NCLS], probes[16][32], famruns[16], points[NPOINT];
  uint64_t viol_idx; int viol_cls; int stop; char othermsg[NCLS][256];
  uint64_t maxsteps; uint64_t decisions; uint64_t typeruns[160];
  uint64_t minruns; int64_t hard_end; uint64_t known_hits[16]; uint64_t curidx[64];
  uint64_t table[1];
};
static Shared* S;
static bool ht_insert(uint64_t h) {
  if (!h) h = 1;
  size_t i = h & (HT - 1);
  for (int k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
    uint64_t v = __atomic_load_n(&S->table[i], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (!v) { uint64_t e = 0; if (__atomic_compare_exchange_n(&S->table[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (e == h) return false; }
  }
  return false;
}
#define ADD(f, v) __atomic_add_fetch(&(f), (v), __ATOMIC_RELAXED)

static void worker(const PropSpec* ps, uint64_t seed, int w, int W, int64_t end_ns, uint64_t maxruns, const char* hashfile) {
  rt_worker_init();
  FILE* hf = hashfile ? fopen((std::string(hashfile) + "." + std::to_string(w)).c_str(), "w") : nullptr;
  Result r;
  for (uint64_t idx = w; idx < maxruns; idx += W) {
    if (int64_t tn = real_ns(); tn > end_ns && (S->runs >= S->minruns || tn > S->hard_end)) break;
    if (__atomic_load_n(&S->stop, __ATOMIC_RELAXED) && idx > __atomic_load_n(&S->viol_idx, __ATOMIC_RELAXED)) break;
    Case cs; gen_case(ps, seed, idx, cs);
    S->curidx[w] = idx + 1;
    run_case(cs, ps->counted, nullptr, false, r);
    S->curidx[w] = 0;
    if (hf) fprintf(hf, "%llu %016llx %d\n", (unsigned long long)idx, (unsigned long long)r.hash, r.cls);
    ADD(S->runs, 1); ADD(S->steps, r.steps); ADD(S->switches, r.switches); ADD(S->simtime_us, (uint64_t)(r.simtime / 1000)); ADD(S->decisions, r.ndecisions);
    bool nt = r.contended && r.switches > 2;
    if (nt) { ADD(S->nontrivial, 1); if (ht_insert(r.hash)) ADD(S->distinct, 1); }
    bool anyf = false;
    for (int k = 0; k < NFAULT; k++) if (r.fired[k]) { ADD(S->fired[k], r.fired[k]); ADD(S->firedruns[k], 1); anyf = true; }
    if (anyf) ADD(S->faultruns, 1);
    int fi = fam_index(find_family(cs.prog.family));
    ADD(S->famruns[fi], 1);
    for (int k = 0; k < 32; k++) if (r.probes[k]) ADD(S->probes[fi][k], r.probes[k]);
    for (int k = 0; k < NCLS; k++) if (r.other[k]) { if (!ADD(S->other[k], 1)) {} if (S->other[k] == 1) snprintf(S->othermsg[k], 256, "run %llu: %.200s", (unsigned long long)idx, r.othermsg); }
    if (r.cls) {
      uint64_t cur = __atomic_load_n(&S->viol_idx, __ATOMIC_RELAXED);
      while (idx < cur && !__atomic_compare_exchange_n(&S->viol_idx, &cur, idx, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
      __atomic_store_n(&S->stop, 1, __ATOMIC_RELAXED);
      break;
    }
  }
  if (hf) fclose(hf);
  _exit(0);
}

// ------------------------------------------------------------------ candidate execution in a child
struct Child { Result r; std::vector<Decision> d; bool ok; int64_t seed; };
static bool xread(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool xwrite(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
// run with given decisions (rep) first, then with `reseeds` different seeds; succeed when class matches
static Child try_case(Case cs, uint64_t counted, int cls, const std::vector<Decision>* rep, int reseeds, int64_t budget_ms) {
  Child c; c.ok = false; memset((void*)&c.r, 0, sizeof c.r);
  int fd[2]; if (pipe(fd)) _exit(2);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); rt_worker_init();
    int64_t t0 = real_ns(); Result r; bool ok = false; int64_t base = cs.cfg.seed;
    if (rep) { run_case(cs, counted, rep, false, r); ok = cls < 0 || r.cls == cls; }
    for (int i = 0; !ok && i < reseeds && (real_ns() - t0) / 1000000 < budget_ms; i++) {
      cs.cfg.seed = i == 0 ? base : (int64_t)(mix64(base, i) >> 2);
      run_case(cs, counted, nullptr, false, r); ok = cls < 0 || r.cls == cls;
    }
    std::vector<Decision> d; last_decisions(d);
    uint64_t n = d.size(); int64_t sd = cs.cfg.seed; char o = ok;
    xwrite(fd[1], &o, 1); xwrite(fd[1], &r, sizeof r); xwrite(fd[1], &sd, 8); xwrite(fd[1], &n, 8); xwrite(fd[1], d.data(), n * sizeof(Decision));
    _exit(0);
  }
  close(fd[1]);
  char o = 0; uint64_t n = 0;
  if (xread(fd[0], &o, 1) && xread(fd[0], &c.r, sizeof c.r) && xread(fd[0], &c.seed, 8) && xread(fd[0], &n, 8) && n < (1u << 24)) {
    c.d.resize(n); c.ok = xread(fd[0], c.d.data(), n * sizeof(Decision)) && o;
  }
  close(fd[0]); int st; waitpid(pid, &st, 0);
  return c;
}
static void minimise(const PropSpec* ps, Case& cs, std::vector<Decision>& dec, Result& res, int64_t budget_ms, uint64_t& tried) {
  int64_t t0 = real_ns(); auto left = [&] { return budget_ms - (real_ns() - t0) / 1000000; };
  int cls = res.cls; tried = 0;
  const ::Family* fam = find_family(cs.prog.family);
  auto attempt = [&](Case cand) {
    if (!fam->normalise(cand.prog)) return false;
    tried++;
    Child c = try_case(cand, ps->counted, cls, &dec, 300, 400);
    if (!c.ok) return false;
    cand.cfg.seed = c.seed; cs = cand; dec = c.d; res = c.r; return true;
  };
  bool progress = true;
  while (progress && left() > 0) {
    progress = false;
    for (size_t i = cs.prog.th.size(); i-- > 0 && left() > 0;) { if (cs.prog.th.size() <= 1) break; Case k = cs; k.prog.th.erase(k.prog.th.begin() + i); if (attempt(k)) progress = true; }
    for (size_t i = 0; i < cs.prog.th.size() && left() > 0; i++)
      for (size_t j = cs.prog.th[i].size(); j-- > 0 && left() > 0;) { Case k = cs; if (j >= k.prog.th[i].size()) continue; k.prog.th[i].erase(k.prog.th[i].begin() + j); if (attempt(k)) progress = true; }
    for (int f = 0; f < NFAULT && left() > 0; f++) if (cs.cfg.rate[f]) { Case k = cs; k.cfg.rate[f] = 0; k.cfg.cap[f] = 0; if (attempt(k)) progress = true; }
    if (cs.cfg.plain && left() > 0) { Case k = cs; k.cfg.plain = 0; attempt(k); }
    for (size_t i = 0; i < cs.prog.th.size() && left() > 0; i++) for (size_t j = 0; j < cs.prog.th[i].size(); j++) for (int a = 0; a < 8 && left() > 0; a++) {
      int64_t v = cs.prog.th[i][j].a[a]; if (!v) continue;
      Case k = cs; k.prog.th[i][j].a[a] = 0; { Case t = k; if (fam->normalise(t.prog) && t.prog.th[i][j].a[a] == v) continue; }
      if (attempt(k)) { progress = true; continue; }
      if (v > 1) { k = cs; k.prog.th[i][j].a[a] = v / 2; if (attempt(k)) progress = true; }
    }
  }
  // schedule: drop non-default decisions
  auto att_d = [&](const std::vector<Decision>& d) { tried++; Child c = try_case(cs, ps->counted, cls, &d, 0, 400); if (c.ok && c.d.size() <= d.size()) { dec = c.d; res = c.r; return true; } return false; };
  for (size_t chunk = std::max<size_t>(dec.size() / 2, 1); chunk >= 1 && left() > 0; chunk /= 2) {
    for (size_t i = 0; i < dec.size() && left() > 0;) {
      std::vector<Decision> d(dec); d.erase(d.begin() + i, d.begin() + std::min(d.size(), i + chunk));
      size_t before = dec.size();
      if (!(att_d(d) && dec.size() < before)) i += chunk;
    }
    if (chunk == 1) break;
  }
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  rt_init();
  auto num = [&](const char* k, int64_t d) { return a.count(k) ? atoll(a[k].c_str()) : d; };
  g_known = (Known*)calloc(16, sizeof(Known));
  S = (Shared*)mmap(nullptr, sizeof(Shared) + HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  S->viol_idx = UINT64_MAX; g_known_hits = S->known_hits;
  if (a.count("--known")) { std::string k = a["--known"]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); if (q > p && g_nknown < 16) snprintf(g_known[g_nknown++].key, 64, "%s", k.substr(p, q - p).c_str()); p = q + 1; } }
  if (a.count("--replay")) {
    std::string prop, cls; uint64_t hash = 0; Case cs; std::vector<Decision> d;
    if (!read_replay(a["--replay"].c_str(), prop, cls, hash, cs, d)) { fprintf(stderr, "cannot read replay\n"); return 2; }
    const PropSpec* ps = find_prop(prop.c_str()); if (!ps) return 2;
    rt_worker_init(); Result r; bool tr = num("--trace", 1);
    run_case(cs, ps->counted, &d, tr, r);
    printf("replay: class=%s hash=%016llx expected class=%s hash=%016llx\n%s\n", cls_names[r.cls], (unsigned long long)r.hash, cls.c_str(), (unsigned long long)hash, r.msg);
    fflush(stdout);
    _exit(r.cls && cls == cls_names[r.cls] && r.hash == hash ? 1 : r.cls ? 3 : 0);
  }
  const PropSpec* ps = find_prop(a["--prop"].c_str());
  if (!ps) { fprintf(stderr, "unknown property\n"); return 2; }
  uint64_t seed = num("--seed", 1); int W = (int)num("--workers", 8); if (W > 64) W = 64; double secs = atof(a.count("--secs") ? a["--secs"].c_str() : "20");
  uint64_t maxruns = num("--maxruns", 1ll << 60);
  if (a.count("--one")) { // debug: one run with trace
    Case cs; gen_case(ps, seed, num("--one", 0), cs); rt_worker_init(); Result r;
    fprintf(stderr, "%s %s strat=%lld\n%s", cs.prog.family.c_str(), cs.prog.type.c_str(), (long long)cs.cfg.strat, describe_prog(cs.prog, "  ").c_str());
    run_case(cs, num("--allcls", 0) ? ~0ull : ps->counted, nullptr, num("--trace", 1), r);
    printf("class=%s %s hash=%016llx steps=%llu other=%s\n", cls_names[r.cls], r.msg, (unsigned long long)r.hash, (unsigned long long)r.steps, r.othermsg); fflush(stdout); _exit(0);
  }
  int64_t t0 = real_ns(), end = t0 + (int64_t)(secs * 1e9);
  S->minruns = (uint64_t)num("--minruns", 0); S->hard_end = t0 + (int64_t)(4 * secs * 1e9);
  std::vector<pid_t> pids;
  const char* hf = a.count("--hashes") ? a["--hashes"].c_str() : nullptr;
  fflush(stdout);
  for (int w = 0; w < W; w++) { pid_t p = fork(); if (!p) worker(ps, seed, w, W, end, maxruns, hf); pids.push_back(p); }
  bool werr = false; int werr_w = -1, werr_st = 0;
  for (int w = 0; w < W; w++) { int st; waitpid(pids[w], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { werr = true; werr_w = w; werr_st = st; } }
  double search_s = (real_ns() - t0) / 1e9;
  int violations = 0; std::string replay, vmsg; uint64_t tried = 0;
  if (S->viol_idx != UINT64_MAX) {
    Case cs; gen_case(ps, seed, S->viol_idx, cs);
    int64_t m0 = real_ns();
    Child c1 = try_case(cs, ps->counted, -1, nullptr, 1, 100000); int64_t m1 = real_ns();
    Child c2 = try_case(cs, ps->counted, -1, nullptr, 1, 100000);
    if (!c1.r.cls || c1.r.hash != c2.r.hash || c1.r.cls != c2.r.cls) { fprintf(stderr, "ERROR: run %llu is not reproducible (%s %016llx / %s %016llx)\n", (unsigned long long)S->viol_idx, cls_names[c1.r.cls], (unsigned long long)c1.r.hash, cls_names[c2.r.cls], (unsigned long long)c2.r.hash); return 2; }
    cs.cfg.seed = c1.seed; std::vector<Decision> dec = c1.d; Result res = c1.r;
    // by decisions
    Child c3 = try_case(cs, ps->counted, res.cls, &dec, 0, 100000);
    if (!c3.ok) { fprintf(stderr, "ERROR: run %llu does not replay from its decision list (%s vs %s)\n", (unsigned long long)S->viol_idx, cls_names[res.cls], cls_names[c3.r.cls]); return 2; }
    res = c3.r; dec = c3.d;
    if (m1 - m0 < 1500000000ll) minimise(ps, cs, dec, res, num("--minms", 25000), tried);
    mkdir(a["--replaydir"].c_str(), 0777);
    replay = a["--replaydir"] + "/" + ps->id + "-seed" + std::to_string(seed) + ".replay";
    // final gate: identical twice in fresh children
    Child f1 = try_case(cs, ps->counted, res.cls, &dec, 0, 100000), f2 = try_case(cs, ps->counted, res.cls, &dec, 0, 100000);
    if (!f1.ok || !f2.ok || f1.r.hash != f2.r.hash) { fprintf(stderr, "ERROR: minimised run does not reproduce\n"); return 2; }
    write_replay(replay, ps->id, cs, dec, f1.r, seed, S->viol_idx);
    violations = 1; vmsg = f1.r.msg;
    printf("violation: %s\n  %s %s; minimised to %zu threads, %zu schedule/fault decisions (%llu candidates tried)\n%s", vmsg.c_str(), cs.prog.family.c_str(), cs.prog.type.c_str(), cs.prog.th.size(), dec.size(), (unsigned long long)tried, describe_prog(cs.prog, "    ").c_str());
  } else if (werr) {
    fprintf(stderr, "ERROR: worker %d died (status %x) in run %llu\n", werr_w, werr_st, (unsigned long long)S->curidx[werr_w] - 1);
    return 2;
  }
  double wall = (real_ns() - t0) / 1e9;
  // evidence
  if (a.count("--evidence")) {
    FILE* f = fopen(a["--evidence"].c_str(), "w"); if (!f) { perror("evidence"); return 2; }
    std::string samples;
    rt_worker_init();
    int ns = 0;
    for (uint64_t i = 0; i < 400 && ns < 3 && i < S->runs; i++) {
      Case cs; gen_case(ps, seed, i, cs); size_t steps = 0; for (auto& t : cs.prog.th) steps += t.size();
      if (steps < 2 || steps > 14) continue;
      if (S->viol_idx == i) continue;
      Result r; run_case(cs, ps->counted, nullptr, false, r);
      if (!r.contended) continue;
      std::string fl; for (int k = 0; k < NFAULT; k++) if (r.fired[k]) fl += std::string(fl.empty() ? "" : ", ") + fault_names[k] + " x" + std::to_string(r.fired[k]);
      char b[256]; snprintf(b, sizeof b, "run %llu: points=%llu switches=%llu simulated=%lldus hash=%016llx faults=[", (unsigned long long)i, (unsigned long long)r.steps, (unsigned long long)r.switches, (long long)r.simtime / 1000, (unsigned long long)r.hash);
      samples += std::string(ns ? "," : "") + "\n   \"" + jesc(cs.prog.family + " " + cs.prog.type + " " + b + fl + "]\n" + describe_prog(cs.prog, "")) + "\""; ns++;
    }
    fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\", \"wall_s\": %.2f, \"violations\": %d,\n \"coverage\": {\n", ps->id, a.count("--tier") ? a["--tier"].c_str() : "quick", (unsigned long long)seed, wall, violations);
    fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n", (unsigned long long)S->runs, (unsigned long long)S->distinct);
    fprintf(f, "  \"rule\": \"one case = one simulated run of its own seed (generated program + seeded schedule + faults); non-trivial = some thread had to wait or operations overlapped, and there were more than 2 context switches; distinct = different hash over the whole sequence of (thread, operation kind, address, fault) events of the run\",\n");
    fprintf(f, "  \"nontrivial_runs\": %llu, \"runs_with_faults\": %llu, \"runs_per_hour\": %.0f, \"search_s\": %.2f,\n", (unsigned long long)S->nontrivial, (unsigned long long)S->faultruns, S->runs / search_s * 3600, search_s);
    fprintf(f, "  \"simulated_time_s\": %.3f, \"scheduling_points\": %llu, \"context_switches\": %llu, \"nondefault_decisions\": %llu,\n", S->simtime_us / 1e6, (unsigned long long)S->steps, (unsigned long long)S->switches, (unsigned long long)S->decisions);
    fprintf(f, "  \"faults_injected\": {"); bool first = true; for (int k = 0; k < NFAULT; k++) if (S->fired[k]) { fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", fault_names[k], (unsigned long long)S->fired[k], (unsigned long long)S->firedruns[k]); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"families\": {"); first = true; for (int k = 0; k < g_nfam; k++) if (S->famruns[k]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", g_fams[k]->name, (unsigned long long)S->famruns[k]); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"probes\": {"); first = true; for (int k = 0; k < g_nfam; k++) if (S->famruns[k] && g_fams[k]->probe_names) for (int j = 0; g_fams[k]->probe_names[j]; j++) { fprintf(f, "%s\"%s: %s\": %llu", first ? "" : ", ", g_fams[k]->name, g_fams[k]->probe_names[j], (unsigned long long)S->probes[k][j]); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"other_anomalies_not_counted_here\": {"); first = true; for (int k = 0; k < NCLS; k++) if (S->other[k]) { fprintf(f, "%s\"%s\": {\"runs\": %llu, \"first\": \"%s\"}", first ? "" : ", ", cls_names[k], (unsigned long long)S->other[k], jesc(S->othermsg[k]).c_str()); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"known_finding_hits\": {"); for (int k = 0; k < g_nknown; k++) fprintf(f, "%s\"%s\": %llu", k ? ", " : "", g_known[k].key, (unsigned long long)S->known_hits[k]); fprintf(f, "},\n");
    fprintf(f, "  \"real_components\": \"all yamc headers of /repo/include used by the workload, libstdc++ headers (mutex, condition_variable, call_once, std::lock, unique_lock) and libstdc++.so\",\n");
    fprintf(f, "  \"stub_components\": \"pthread mutex/cond/rwlock/spin/once, sem_*, clocks, sleep, yield, operator new, C++ atomics' memory system (store histories), Win32/GCD/os_unfair_lock API where used\",\n");
    fprintf(f, "  \"workers\": %d,\n  \"violation\": \"%s\", \"replay\": \"%s\",\n  \"samples\": [%s]\n }}\n", W, jesc(vmsg).c_str(), jesc(replay).c_str(), samples.c_str());
    fclose(f);
  }
  printf("%s: %llu runs (%llu distinct non-trivial) in %.1f s, %.0f runs/h, %.1f s simulated\n", ps->id, (unsigned long long)S->runs, (unsigned long long)S->distinct, search_s, S->runs / search_s * 3600, S->simtime_us / 1e6);
  for (int k = 0; k < NCLS; k++) if (S->other[k]) printf("note: other anomaly %s in %llu runs, first %s\n", cls_names[k], (unsigned long long)S->other[k], S->othermsg[k]);
  for (int k = 0; k < g_nknown; k++) printf("known-hits %s %llu\n", g_known[k].key, (unsigned long long)S->known_hits[k]);
  if (violations) { printf("VIOLATION property=%s replay=%s\n", ps->id, replay.c_str()); fflush(stdout); _exit(1); }
  fflush(stdout); _exit(0);
}
