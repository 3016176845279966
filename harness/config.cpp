// Configuration generators and common start/stop code.
#include "h.h"
void env_set(Case &c, const char *k, const std::string &v) { for (auto &e : c.env) if (e.first == k) { e.second = v; return; } c.env.push_back({k, v}); }
void cfg_sim(Case &c, int nmin, int nmax, int nwide) {
  Rng &r = c.rng; SimCfg &s = c.sim;
  c.n = (int)r.range(nmin, nmax); if (nwide > nmax && nmin < nmax && r.chance(4)) c.n = (int)r.range(nmax + 1, nwide);
  s.strat = (int)r.below(STRAT_N); s.sticky = (int)r.pick({50, 80, 95}); s.send_mode = (int)r.below(3);
  s.defer = r.pick({DEFER_NONE, DEFER_RANDOM, DEFER_RANDOM, DEFER_MAX, DEFER_MAX});
  s.unordered = r.chance(60); s.split = r.chance(50); s.alias = (int)r.below(3); s.gap = (int)r.pick({0, 64, 64, 256}); s.align = (int)r.pick({8, 16, 64, 64});
  s.sync_bcast = (int)r.below(3); s.seg_reduce = r.chance(70); s.win_separate = 0;
  if (c.variant.find("-mt") != std::string::npos) s.preempt = (int)r.pick({0, 5, 20, 60});   // the library can be preempted at any access to window memory
}
static std::string boolval(Rng &r, bool v) { return v ? r.pick({"1", "T", "t", "Y", "y", "true", "YES"}) : r.pick({"0", "F", "N", "no", "false"}); }
void cfg_env(Case &c, int level) {
  Rng &r = c.rng; if (level == 0) return;
  bool ompi = !c.is_mpich();
  if (level == 3) level = r.chance(40) ? 2 : 1;
  int pct = level == 1 ? (r.chance(40) ? 0 : 15) : 45;
  auto b = [&](const char *k) { if (r.chance(pct)) env_set(c, k, boolval(r, r.chance(50))); };
  b("ARMCI_IOV_CHECKS"); b("ARMCI_USE_WIN_ALLOCATE"); b("ARMCI_MSG_BARRIER_SYNCS"); b("ARMCI_EXPLICIT_NB_PROGRESS"); b("ARMCI_RMA_ATOMICITY"); b("ARMCI_NO_FLUSH_LOCAL"); b("ARMCI_RMA_NOCHECK");
  b("ARMCI_USE_REQUEST_ATOMICS"); b("ARMCI_FLUSH_REQUEST_ATOMICS"); b("ARMCI_CACHE_RANK_TRANSLATION"); b("ARMCI_USE_ALLOC_SHM"); b("ARMCI_DISABLE_SHM_ACC"); b("ARMCI_DEBUG_ALLOC");
  if (r.chance(pct)) env_set(c, "ARMCI_STRIDED_METHOD", r.pick({"IOV", "DIRECT", "DIRECT"}));
  if (r.chance(pct)) env_set(c, "ARMCI_IOV_METHOD", ompi ? "BATCHED" : r.pick({"AUTO", "CONSRV", "BATCHED", "DIRECT"}));
  if (r.chance(pct)) env_set(c, "ARMCI_IOV_BATCHED_LIMIT", r.pick({"0", "1", "2", "3", "7", "1000"}));
  if (r.chance(pct)) env_set(c, "ARMCI_IOV_DTYPE_CHUNK", r.pick({"0", "1", "2", "5", "256"}));
  if (r.chance(pct)) env_set(c, "ARMCI_SHR_BUF_METHOD", r.pick({"COPY", "NOGUARD"}));
  if (r.chance(pct)) env_set(c, "ARMCI_NONCOLLECTIVE_GROUPS", boolval(r, r.chance(50)));
  if (r.chance(pct / 3)) env_set(c, "ARMCI_ACCUMULATE_GRANULARITY", r.pick({"0", "1", "64", "100000"}));
  if (r.chance(pct / 3)) env_set(c, "ARMCI_SHM_LIMIT", r.pick({"0", "1000000000", "4G", "512M"}));
  if (r.chance(pct / 3)) env_set(c, "ARMCI_VERBOSE", r.pick({"0", "1", "2", "3"}));
  if (r.chance(pct / 3)) env_set(c, "SIM_LIBVER", r.pick({"Open MPI v4.1.6, package: Debian OpenMPI, ident: 4.1.6, repo rev: v4.1.6, Sep 30, 2023", "Open MPI v5.0.10rc1, package: x", "MPICH Version:      4.2.0\nMPICH Release date: Fri Feb  9 12:29:21 CST 2024\n", "MPICH Version:      3.4a2\n", "MVAPICH2 Version      :   2.3.7\n", "Intel(R) MPI Library 2021.10 for Linux* OS\n", "Intel(R) MPI Library 2019.0 for Linux* OS\n", "Other MPI 1.0\n"}));
}
void armci_start(Case &c) {
  int prov; cnt(CN_INIT);
  if (c.thread_level > MPI_THREAD_SINGLE) MPI_Init_thread(nullptr, nullptr, c.thread_level, &prov); else MPI_Init(nullptr, nullptr);
  int rc = c.thread_level > MPI_THREAD_SINGLE ? ARMCI_Init_thread(c.thread_level) : ARMCI_Init();
  CHECK(rc == 0, "init-rc", "ARMCI initialisation returned %d", rc);
  CHECK(ARMCI_Initialized(), "initialized-query", "ARMCI_Initialized() is false after initialisation");
}
void armci_stop(Case &c, bool census) {
  if (c.variant.compare(0, 5, "ompi5") == 0) CHECK(sim_rreq_hwm() < 255, "request-limit", "%ld request-based operations of one process were unfinished at one time (the Open MPI 5 build promises to stay below the 255 that abort its transport)", sim_rreq_hwm());
  int rc = ARMCI_Finalize();
  CHECK(rc == 0, "finalize-rc", "ARMCI_Finalize returned %d", rc);
  if (census) {
    SimCensus s; sim_census(&s);
#define CZ(f) CHECK(s.f == 0, "leak-" #f, "%ld object(s) of kind '" #f "' still held after ARMCI_Finalize", s.f)
    CZ(comm); CZ(group); CZ(type); CZ(req); CZ(op); CZ(info); CZ(win); CZ(mem); CZ(heap);
  }
  MPI_Finalize();
}
struct BarArg { int slot, target; };
static int bar_done(void *a) { BarArg *b = (BarArg *)a; return OOB->gen[b->slot] >= b->target; }
void rank_barrier(Case &c) {
  int slot = c.barslot; BarArg a{slot, OOB->gen[slot] + 1};
  if (++OOB->count[slot] == c.n) { OOB->count[slot] = 0; OOB->gen[slot]++; sim_bump(); sim_yield(); } else sim_block_until(bar_done, &a, "harness barrier");
}
