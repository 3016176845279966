// internal: arena, scheduler
#pragma once
#include "sim.h"
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>

enum { T_FREE, T_RUN, T_BLOCKED, T_EXITED };
struct Task { int state; int rank; volatile uint32_t go; uint64_t ver; int prio; const char *what; char whatbuf[64]; uint64_t idle; };

struct Blob { uint64_t len; uint8_t data[]; };

struct CollSlot {
  uint64_t seq; int kind; int expected; int arrived, left; int root; long sig; int state; int firstrank;
  int readers[SIM_MAXR]; uint8_t has[SIM_MAXR]; Blob *contrib[SIM_MAXR]; long arg[SIM_MAXR][6]; Blob *result; long out[SIM_MAXR][4]; CollSlot *next;
};
struct Ctx { int id; int n, nB; int ranks[SIM_MAXR]; int ranksB[SIM_MAXR]; uint64_t seq[2 * SIM_MAXR]; CollSlot *slots; int inter; int refs; };
struct Msg { int ctx, src, tag; Blob *b; int sync; int matched; int consumed; int visible; Msg *next; };
struct WinTarget { uint64_t off; long size; int disp; int excl; int shared; };
struct WinSh { int id, n; int ranks[SIM_MAXR]; WinTarget t[SIM_MAXR]; int freed; int sep; int unordered_acc; int same_op; int last_op[SIM_MAXR]; };
struct Rdv { int peer, a, b, tag; int n[2]; int ranks[2][SIM_MAXR]; int present[2]; int taken[2]; Ctx *ctx; Rdv *next; };

struct RankInfo { int task_main; int finalized; SimCensus census; long info_sets; int exit_ok; };

struct Arena {
  SimCfg cfg;
  Rng rng, rrng;
  int ntasks; Task tasks[SIM_MAXT];
  volatile int current;
  uint64_t version, steps, sched_hash, switches;
  uint64_t n_mpi, n_rma, n_deferred, n_reordered, n_p2p, n_coll;
  int dead, dead_rank; int aborted, abort_code, abort_rank; int deadlock, steplimit; char deadlock_info[2048];
  int prio_next; int starve; int rr; uint64_t run_len;
  int nreports; SimReport reports[16];
  RankInfo ranks[SIM_MAXR];
  int next_ctx, next_win;
  Msg *inbox[SIM_MAXR];
  Rdv *rdv;
  Ctx *world;
  uint64_t heap_off, heap_end; void *freelist[40];
};
extern Arena *S;
extern int g_rank;                 // this process' rank, -1 in the runner
extern __thread int g_task;        // this thread's task index
extern __thread int g_insim;

void *ar_alloc(size_t n); void ar_free(void *p, size_t n);
Blob *blob_new(const void *d, size_t n); void blob_free(Blob *);
void s_yield(); void s_bump();
template <class F> void s_block(const char *what, F cond) {
  Task &t = S->tasks[g_task];
  for (;;) { if (cond()) { t.state = T_RUN; return; } t.ver = S->version; t.state = T_BLOCKED; t.what = what; s_yield(); }
}
uint8_t *slab_remote(int rank, uint64_t off);
uint8_t *slab_public(int rank, uint64_t off);      // public window copies (separate memory model)
uint8_t *slab_synced(int rank, uint64_t off);      // both copies as of the last synchronisation
uint8_t *slab_local_base();
#ifdef SIM_TSAN
extern "C" void AnnotateIgnoreReadsBegin(const char *, int); extern "C" void AnnotateIgnoreReadsEnd(const char *, int); extern "C" void AnnotateIgnoreWritesBegin(const char *, int); extern "C" void AnnotateIgnoreWritesEnd(const char *, int);
struct InSim { int save; InSim() { save = g_insim; g_insim = 1; AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); } ~InSim() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); g_insim = save; } };
#else
struct InSim { int save; InSim() { save = g_insim; g_insim = 1; } ~InSim() { g_insim = save; } };
#endif
