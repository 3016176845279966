// simmpi control interface (used by the runner and by the workload drivers)
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#define SIM_MAXR 32
#define SIM_MAXT 64

struct Rng {                     // splitmix64
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }   // inclusive
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

enum { STRAT_RANDOM, STRAT_STICKY, STRAT_PRIO, STRAT_RR, STRAT_STARVE, STRAT_N };
enum { DEFER_NONE, DEFER_RANDOM, DEFER_MAX };

struct SimCfg {
  int nranks = 2;
  uint64_t seed = 1;
  int strat = STRAT_RANDOM;
  int sticky = 80;
  int send_mode = 2;        // 0 rendezvous, 1 eager, 2 random
  int defer = DEFER_RANDOM; // when deferred RMA is applied at the target
  int unordered = 0;        // put/get to one target may be applied out of order
  int split = 0;            // apply puts/gets/accs in pieces
  int scribble = 1;         // get destinations hold garbage until completion
  int alias = 1;            // 0 distinct addresses, 1 same address in every rank, 2 partially overlapping
  int gap = 64;             // guard bytes between MPI-allocated blocks (0: adjacent)
  int align = 64;
  int thread_level = 3;
  int win_separate = 0;
  int sync_bcast = 2;       // bcast root waits for everyone: 0 no 1 yes 2 random
  int preempt = 0;          // per mille: preemption at instrumented edges
  int seg_reduce = 1;       // reductions may be applied segment-wise
  uint64_t max_steps = 3000000;
  uint64_t slab = 8ull << 20;
  int cpu_limit = 60;       // seconds of processor time per rank
};

struct SimReport { char kind[24]; char key[160]; char msg[640]; int rank; uint64_t step; };

struct SimCensus { long comm, group, type, req, op, info, win, mem, heap, heap_bytes, errh; };

// ---- used by the drivers, inside a rank
extern "C" {
int  sim_rank(); int sim_nranks();
uint64_t sim_steps();                         // logical clock: total order of all events
void sim_yield();                             // explicit scheduling point
void sim_bump();                              // wake blocked tasks to re-check their conditions
void sim_block_until(int (*cond)(void *), void *arg, const char *what);
void sim_census(SimCensus *);
int  sim_thread_create(void *(*)(void *), void *);   // returns thread index
void sim_thread_join(int);
#define SIM_ALIAS_SEG (24ul << 20)
void *sim_alias_map(size_t n, size_t seg);
void *sim_shared(size_t bytes);               // call before fork only (runner) -> zeroed shared memory
void *sim_slab_of(int rank, const void *local_addr_in_rank);  // oracle-only view of another rank's memory
long sim_slab_offset(const void *p);          // -1 if p is not slab memory of this rank
int sim_info_lookup(const char *key, char *out, int n);   // value of an info key on any live window of this rank, -1 if none
int sim_nwins();
long sim_calls(const char *mpi_function);      // calls made so far by this process
long sim_rreq_hwm();                          // most request-based RMA operations of this process unfinished at one time
long sim_rma_hwm(int reset);                  // most RMA operations issued to one target without a flush in between
}
void sim_report(const char *kind, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void sim_fatal(const char *kind, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

// ---- used by the runner
struct SimOutcome {
  bool died = false;            // a rank ended abnormally
  int  dead_rank = -1; int status = 0;
  bool aborted = false; int abort_code = 0; int abort_rank = -1;
  bool deadlock = false, steplimit = false, timeout = false;
  std::string deadlock_info;
  std::string output;           // captured stdout+stderr
  uint64_t steps = 0, sched_hash = 0, switches = 0;
  uint64_t n_mpi = 0, n_rma = 0, n_deferred = 0, n_reordered = 0, n_p2p = 0, n_coll = 0;
  int nreports = 0;
  SimReport *reports = nullptr;
};
void sim_setup(const SimCfg &);                     // create arena + slabs (before sim_shared/fork)
void sim_run(void (*rank_main)(int, void *), void *arg, double wall_limit, SimOutcome &out);
void sim_teardown();
void sim_cov_init(uint8_t *shared_map, size_t n);
size_t sim_cov_total();
uint64_t sim_mix(uint64_t a, uint64_t b);
