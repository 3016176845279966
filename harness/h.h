// Shared declarations of the workload drivers.
#pragma once
#include "sim.h"
#include "mpi.h"
extern "C" {
#include <armci.h>
#include <armcix.h>
#include <message.h>
}
#include "names.h"
#include <string.h>
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <set>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>

// ---- statistics shared by all workers
enum { CN_EVAL, CN_PUT, CN_GET, CN_ACC, CN_RMW, CN_LOCK, CN_MSG, CN_COLL, CN_ALLOC, CN_FREE, CN_GROUP, CN_NB, CN_WAIT, CN_FENCE, CN_DIRECT, CN_READBACK, CN_BYTES, CN_REJECT, CN_ACCEPT, CN_INIT, CN_SWITCH, CN_MPI, CN_RMA, CN_DEFER, CN_REORD, CN_STEP, CN_EVENT, CN_N };
extern const char *CN_NAME[CN_N];
struct Stats {
  uint64_t cn[CN_N];
  uint64_t cases, next_case, fails, inconclusive, nsched;
  uint8_t feat[1 << 17];            // bitmap of hashed features
  uint8_t sched[1 << 17];           // bitmap of hashed schedules
  uint8_t cov[1 << 16];
  int stop;
};
extern Stats *ST;
inline void cnt(int c, uint64_t n = 1) { __atomic_fetch_add(&ST->cn[c], n, __ATOMIC_RELAXED); }
void feat(uint64_t h);               // record a distinct situation actually observed
inline uint64_t fh(std::initializer_list<uint64_t> l) { uint64_t h = 7; for (uint64_t x : l) h = sim_mix(h, x); return h; }

struct Case {
  std::string scn, variant; uint64_t seed = 0, index = 0; int thorough = 0;
  Rng rng; SimCfg sim; std::vector<std::pair<std::string, std::string>> env; int n = 2;
  std::shared_ptr<void> plan; void *shm = nullptr; size_t shm_size = 0;
  int thread_level = MPI_THREAD_SINGLE;
  bool expect_abort = false;         // the case is designed to end in a diagnosed error abort
  bool allow_deadlock = false;
  double wall = 40; int barslot = 63;
  std::vector<int> rmap;             // process id -> MPI world rank, when the library runs on another communicator (empty: identity)
  std::string desc;
  std::string getenv(const char *k) const { for (auto &e : env) if (e.first == k) return e.second; return ""; }
  bool build(const char *suffix) const { size_t n = strlen(suffix); return variant.size() >= n && variant.compare(variant.size() - n, n, suffix) == 0; }   // a build with other configure options
  bool is_mpich() const { return variant.compare(0, 5, "mpich") == 0; }
  bool on(const char *k) const { std::string v = getenv(k); if (v.empty() && !strcmp(k, "ARMCI_NONCOLLECTIVE_GROUPS")) { for (auto &e : env) if (e.first == k) return false; return variant == "ompi4-fast"; } return !v.empty() && (v[0] == '1' || v[0] == 'T' || v[0] == 't' || v[0] == 'Y' || v[0] == 'y'); }
};
struct Scenario { const char *name; void (*plan)(Case &); void (*run)(int rank, Case &); void (*post)(Case &, SimOutcome &); };
void scn_register(const Scenario &);
struct ScnReg { ScnReg(const char *n, void (*p)(Case &), void (*r)(int, Case &), void (*q)(Case &, SimOutcome &) = nullptr) { scn_register({n, p, r, q}); } };
// failures found after a run, in the supervisor
void post_fail(const char *kind, const char *key, const char *fmt, ...);

// ---- oracle checks inside a rank
#define CHECK(cond, key, ...) do { if (!(cond)) sim_fatal("ORACLE", key, __VA_ARGS__); else cnt(CN_EVAL); } while (0)

// ---- common configuration generators (config.cpp)
void cfg_sim(Case &c, int nmin, int nmax, int nwide = 0);   // nwide: now and then more processes, up to this
//          // schedule and MPI behaviour
void cfg_env(Case &c, int level);                    // 0: defaults only, 1: mostly defaults, 2: full random
void env_set(Case &c, const char *k, const std::string &v);
void armci_start(Case &c);                           // MPI_Init(_thread) + ARMCI_Init*
void armci_stop(Case &c, bool census = true);        // ARMCI_Finalize + MPI_Finalize (+ resource census check)
void rank_barrier(Case &c);                          // out-of-band barrier: does not involve the library or MPI
int oob_arrive(Case &c, int slot);
struct Oob { int count[64]; int gen[64]; long val[SIM_MAXR][64]; };
extern Oob *OOB;

template <class T> T *plan_of(Case &c) { return (T *)c.plan.get(); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
