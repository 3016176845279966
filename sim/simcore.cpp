// Arena, deterministic token scheduler, process management, hooks.
#include "simcore.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <pthread.h>
#include <poll.h>
#include <map>
#include <algorithm>
#include <unordered_map>
#define SIMH_NO_MACROS
#include "simhooks.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#if __has_feature(thread_sanitizer)
#ifndef SIM_TSAN
#define SIM_TSAN 1
#endif
#endif
#endif

Arena *S = nullptr;
int g_rank = -1;
__thread int g_task = -1;
__thread int g_insim = 0;
static const uint64_t LOCAL_BASE = 0x7e9000000000ull, REMOTE_BASE = 0x7eb000000000ull, PUBLIC_BASE = 0x7ed000000000ull;
static const size_t ARENA_SZ = 512ull << 20;
static uint64_t local_shift(int rank) {
  switch (S->cfg.alias) { case 0: return (uint64_t)rank * S->cfg.slab; case 1: return 0; default: return (uint64_t)rank * 4096; }
}
uint8_t *slab_local_base() { return (uint8_t *)(LOCAL_BASE + local_shift(g_rank)); }
uint8_t *slab_remote(int rank, uint64_t off) { return (uint8_t *)(REMOTE_BASE + (uint64_t)rank * S->cfg.slab + off); }
uint8_t *slab_public(int rank, uint64_t off) { return (uint8_t *)(PUBLIC_BASE + (uint64_t)rank * S->cfg.slab + off); }
uint8_t *slab_synced(int rank, uint64_t off) { return (uint8_t *)(PUBLIC_BASE + (uint64_t)(rank + S->cfg.nranks) * S->cfg.slab + off); }

uint64_t sim_mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15u + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 31); }

// ---------------------------------------------------------------- arena heap
static int cls(size_t n) { int c = 4; while ((1ull << c) < n) c++; return c; }
void *ar_alloc(size_t n) {
  if (n < 16) n = 16;
  int c = cls(n);
  if (S->freelist[c]) { void *p = S->freelist[c]; S->freelist[c] = *(void **)p; memset(p, 0, n); return p; }
  uint64_t sz = 1ull << c;
  if (S->heap_off + sz > S->heap_end) sim_fatal("HARNESS", "arena-exhausted", "arena exhausted (%zu)", n);
  void *p = (uint8_t *)S + S->heap_off; S->heap_off += sz; return p;
}
void ar_free(void *p, size_t n) { if (!p) return; if (n < 16) n = 16; int c = cls(n); *(void **)p = S->freelist[c]; S->freelist[c] = p; }
Blob *blob_new(const void *d, size_t n) { Blob *b = (Blob *)ar_alloc(sizeof(Blob) + n); b->len = n; if (n && d) memcpy(b->data, d, n); return b; }
void blob_free(Blob *b) { if (b) ar_free(b, sizeof(Blob) + b->len); }

// ---------------------------------------------------------------- reports
static void add_report(const char *kind, const char *key, const char *fmt, va_list ap) {
  if (!S || S->nreports >= 16) return;
  SimReport &r = S->reports[S->nreports++];
  snprintf(r.kind, sizeof r.kind, "%s", kind); snprintf(r.key, sizeof r.key, "%s", key);
  vsnprintf(r.msg, sizeof r.msg, fmt, ap); r.rank = g_rank; r.step = S->steps;
}
void sim_report(const char *kind, const char *key, const char *fmt, ...) { va_list ap; va_start(ap, fmt); add_report(kind, key, fmt, ap); va_end(ap); }
void sim_fatal(const char *kind, const char *key, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); add_report(kind, key, fmt, ap); va_end(ap);
  if (S) { S->dead = 1; S->dead_rank = g_rank; }
  fflush(NULL);
  _exit(70);
}

// ---------------------------------------------------------------- scheduler
static long futex(volatile uint32_t *a, int op, uint32_t v, const struct timespec *ts = nullptr) { return syscall(SYS_futex, a, op, v, ts, nullptr, 0); }
static void wait_go(int me) {
  Task &t = S->tasks[me];
  while (!__atomic_load_n(&t.go, __ATOMIC_ACQUIRE)) futex(&t.go, FUTEX_WAIT, 0);
  t.go = 0;
}
static void hand(int to) { S->current = to; __atomic_store_n(&S->tasks[to].go, 1, __ATOMIC_RELEASE); futex(&S->tasks[to].go, FUTEX_WAKE, 1); }
void s_bump() { S->version++; }

static int pick_next(int me) {
  int cand[SIM_MAXT], n = 0; bool me_ok = false;
  for (int i = 0; i < S->ntasks; i++) {
    Task &t = S->tasks[i];
    if (t.state == T_RUN || (t.state == T_BLOCKED && t.ver != S->version)) { cand[n++] = i; if (i == me) me_ok = true; }
  }
  if (!n) return -1;
  Rng &r = S->rng;
  switch (S->cfg.strat) {
    case STRAT_STICKY: if (me_ok && r.chance(S->cfg.sticky)) return me; return cand[r.below(n)];
    case STRAT_RR: { for (int k = 1; k <= S->ntasks; k++) { int c = (S->rr + k) % S->ntasks; for (int j = 0; j < n; j++) if (cand[j] == c) { S->rr = c; return c; } } return cand[0]; }
    case STRAT_PRIO: {
      if (r.below(60) == 0) S->tasks[cand[r.below(n)]].prio = --S->prio_next;
      if (S->run_len > 40 && me >= 0) { S->tasks[me].prio = --S->prio_next; S->run_len = 0; }
      int b = cand[0]; for (int j = 1; j < n; j++) if (S->tasks[cand[j]].prio > S->tasks[b].prio) b = cand[j];
      return b; }
    case STRAT_STARVE: {
      if (r.below(400) == 0) S->starve = (int)r.below(S->ntasks);
      int c = cand[r.below(n)];
      if (S->tasks[c].rank == S->tasks[S->starve].rank && r.below(50)) { for (int k = 0; k < 4; k++) { c = cand[r.below(n)]; if (S->tasks[c].rank != S->tasks[S->starve].rank) break; } }
      return c; }
    default: return cand[r.below(n)];
  }
}
static void no_runnable() {
  // everyone alive is blocked and nothing can change: exact deadlock
  S->deadlock = 1; size_t o = 0;
  for (int i = 0; i < S->ntasks && o < sizeof(S->deadlock_info) - 80; i++) {
    Task &t = S->tasks[i];
    if (t.state == T_BLOCKED) o += snprintf(S->deadlock_info + o, sizeof(S->deadlock_info) - o, "rank %d blocked in %s; ", t.rank, t.what ? t.what : "?");
    else if (t.state == T_EXITED) o += snprintf(S->deadlock_info + o, sizeof(S->deadlock_info) - o, "rank %d finished; ", t.rank);
  }
  S->dead = 1; fflush(NULL); _exit(71);
}
void s_yield() {
  if (g_task < 0) return;
  S->steps++;
  if (S->steps > S->cfg.max_steps) { S->steplimit = 1; S->dead = 1; snprintf(S->deadlock_info, sizeof S->deadlock_info, "no quiescence after %llu scheduling steps", (unsigned long long)S->cfg.max_steps); fflush(NULL); _exit(72); }
  int me = g_task, nx = pick_next(me);
  if (nx < 0) no_runnable();
  if (nx == me) { S->run_len++; S->tasks[me].state = T_RUN; return; }
  S->run_len = 0; S->switches++; S->sched_hash = sim_mix(S->sched_hash, (uint64_t)nx * 1000003 + S->steps);
  hand(nx); wait_go(me);
  S->tasks[me].state = T_RUN;
}
static void task_exit() {
  if (g_task < 0) return;
  InSim _;
  S->tasks[g_task].state = T_EXITED; s_bump();
  int me = g_task; g_task = -1;
  int nx = pick_next(me);
  if (nx >= 0) { hand(nx); return; }
  for (int i = 0; i < S->ntasks; i++) if (S->tasks[i].state == T_BLOCKED) no_runnable();
}
static int task_new(int rank) {
  if (S->ntasks >= SIM_MAXT) sim_fatal("HARNESS", "tasks", "too many tasks");
  int i = S->ntasks++; Task &t = S->tasks[i]; memset(&t, 0, sizeof t); t.rank = rank; t.state = T_RUN; t.prio = (int)S->rrng.below(1000); return i;
}

// ---------------------------------------------------------------- driver services
extern "C" {
int sim_rank() { return g_rank; }
int sim_nranks() { return S->cfg.nranks; }
uint64_t sim_steps() { return ++S->steps; }
void sim_yield() { InSim _; s_yield(); }
void sim_bump() { s_bump(); }
void sim_block_until(int (*cond)(void *), void *arg, const char *what) { InSim _; s_block(what, [&] { return cond(arg); }); }
void *sim_slab_of(int rank, const void *la) { uint64_t off = (uint64_t)la - (LOCAL_BASE + local_shift(rank)); return off < S->cfg.slab ? slab_remote(rank, off) : nullptr; }
long sim_slab_offset(const void *p) { uint64_t off = (uint64_t)p - (uint64_t)slab_local_base(); return off < S->cfg.slab ? (long)off : -1; }
void *sim_shared(size_t n) { void *p = mmap(nullptr, n ? n : 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : p; }
}

// ---------------------------------------------------------------- hooks used by the instrumented library
static std::unordered_map<void *, size_t> *g_heap;
static long g_heap_bytes;
static void heap_add(void *p, size_t n) { if (!p || !S) return; InSim _; if (!g_heap) g_heap = new std::unordered_map<void *, size_t>; (*g_heap)[p] = n; g_heap_bytes += n; }
static void heap_del(void *p) { if (!p || !g_heap) return; InSim _; auto it = g_heap->find(p); if (it != g_heap->end()) { g_heap_bytes -= it->second; g_heap->erase(it); } }
void sim_heap_census(long *n, long *b) { *n = g_heap ? (long)g_heap->size() : 0; *b = g_heap_bytes; }
extern "C" {
static void garbage(void *p, size_t n) { uint8_t *c = (uint8_t *)p; if (n > 4096) n = 4096; for (size_t i = 0; i < n; i++) c[i] = (uint8_t)(0xA5 ^ (i * 37)); }
#ifdef SIM_TSAN
#define HEAPT(x)
#else
#define HEAPT(x) x
#endif
// Blocks of gigabytes are one small memory object mapped over and over: cheap, and exact for data with the period of the object.
void *sim_alias_map(size_t n, size_t seg) {
  n = (n + seg - 1) / seg * seg; uint8_t *v = (uint8_t *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int fd = memfd_create("alias", 0);
  if (v == MAP_FAILED || fd < 0 || ftruncate(fd, seg)) sim_fatal("HARNESS", "mmap", "no memory for an aliased buffer");
  for (size_t i = 0; i < n; i += seg) if (mmap(v + i, seg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) sim_fatal("HARNESS", "mmap", "no memory for an aliased buffer");
  close(fd); return v;
}
static std::unordered_map<void *, size_t> *g_alias;
static bool big_block(size_t n) { return n >= (1ul << 30) && n < (1ul << 36); }
static void *alias_malloc(size_t n) { InSim _; void *p = sim_alias_map(n, SIM_ALIAS_SEG); if (!g_alias) g_alias = new std::unordered_map<void *, size_t>; (*g_alias)[p] = n; return p; }
static bool alias_free(void *p) { if (!g_alias) return false; InSim _; auto it = g_alias->find(p); if (it == g_alias->end()) return false; munmap(p, (it->second + SIM_ALIAS_SEG - 1) / SIM_ALIAS_SEG * SIM_ALIAS_SEG); g_alias->erase(it); return true; }
void *simh_malloc(size_t n) { void *p = S && big_block(n) ? alias_malloc(n) : malloc(n); if (p && n) garbage(p, n); HEAPT(heap_add(p, n)); return p; }
void *simh_calloc(size_t a, size_t b) { void *p = calloc(a, b); HEAPT(heap_add(p, a * b)); return p; }
void *simh_realloc(void *q, size_t n) { HEAPT(heap_del(q)); void *p = realloc(q, n); HEAPT(heap_add(p, n)); return p; }
void simh_free(void *p) { HEAPT(heap_del(p)); if (!alias_free(p)) free(p); }
char *simh_strdup(const char *s) { char *p = strdup(s); HEAPT(heap_add(p, strlen(s) + 1)); return p; }
int simh_posix_memalign(void **p, size_t a, size_t n) { int rc = posix_memalign(p, a, n); if (!rc) { HEAPT(heap_add(*p, n)); } return rc; }

static inline bool in_slab(const void *p) { return S && g_rank >= 0 && (uint64_t)p - (uint64_t)slab_local_base() < S->cfg.slab; }
static inline void mem_preempt(const void *a, const void *b) { if (S && g_task >= 0 && !g_insim && S->cfg.preempt && (in_slab(a) || (b && in_slab(b)))) { InSim _; if (S->rng.below(4) == 0) s_yield(); } }
void *simh_memcpy(void *d, const void *s, size_t n) { mem_preempt(d, s); return memcpy(d, s, n); }
void *simh_memmove(void *d, const void *s, size_t n) { mem_preempt(d, s); return memmove(d, s, n); }
void *simh_memset(void *d, int c, size_t n) { mem_preempt(d, nullptr); return memset(d, c, n); }

int simh_mutex_lock(pthread_mutex_t *m) {
  if (!S || g_task < 0) return pthread_mutex_lock(m);
  int rc = 0; InSim _;
  if (S->cfg.preempt) s_yield();
  s_block("pthread_mutex_lock", [&] { rc = pthread_mutex_trylock(m); return rc != EBUSY; });
  return rc;
}
int simh_mutex_unlock(pthread_mutex_t *m) { int rc = pthread_mutex_unlock(m); if (S && g_task >= 0) { InSim _; s_bump(); if (S->cfg.preempt) s_yield(); } return rc; }
int simh_mutex_trylock(pthread_mutex_t *m) { int rc = pthread_mutex_trylock(m); if (S && g_task >= 0) { InSim _; s_yield(); } return rc; }
static unsigned long g_cond_gen;                      // any signal may wake any waiter: POSIX allows spurious wake-ups
int simh_cond_signal(pthread_cond_t *c) { int rc = pthread_cond_signal(c); if (S && g_task >= 0) { InSim _; g_cond_gen++; s_bump(); } return rc; }
int simh_cond_broadcast(pthread_cond_t *c) { int rc = pthread_cond_broadcast(c); if (S && g_task >= 0) { InSim _; g_cond_gen++; s_bump(); } return rc; }
int simh_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!S || g_task < 0) return pthread_cond_wait(c, m);
  { InSim _; unsigned long g = g_cond_gen; pthread_mutex_unlock(m); s_bump(); s_block("pthread_cond_wait", [&] { return g_cond_gen != g; }); }
  return simh_mutex_lock(m);
}
int simh_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!S || g_task < 0) return pthread_cond_timedwait(c, m, ts);
  unsigned long g; { InSim _; g = g_cond_gen; pthread_mutex_unlock(m); s_bump(); for (int i = 0; i < 20 && g_cond_gen == g; i++) s_yield(); }
  int to = g_cond_gen == g; simh_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
#define SIM_TRY(name, what, expr, type) int name(type *l) { if (!S || g_task < 0) { while ((expr) == EBUSY) sched_yield(); return 0; } InSim _; if (S->cfg.preempt) s_yield(); int rc = 0; s_block(what, [&] { rc = (expr); return rc != EBUSY; }); return rc; }
SIM_TRY(simh_rdlock, "pthread_rwlock_rdlock", pthread_rwlock_tryrdlock(l), pthread_rwlock_t)
SIM_TRY(simh_wrlock, "pthread_rwlock_wrlock", pthread_rwlock_trywrlock(l), pthread_rwlock_t)
SIM_TRY(simh_spin_lock, "pthread_spin_lock", pthread_spin_trylock(l), pthread_spinlock_t)
int simh_rwunlock(pthread_rwlock_t *l) { int rc = pthread_rwlock_unlock(l); if (S && g_task >= 0) { InSim _; s_bump(); if (S->cfg.preempt) s_yield(); } return rc; }
int simh_spin_unlock(pthread_spinlock_t *l) { int rc = pthread_spin_unlock(l); if (S && g_task >= 0) { InSim _; s_bump(); if (S->cfg.preempt) s_yield(); } return rc; }
int simh_clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *rem) { return simh_nanosleep(ts, rem); }

struct ThStart { void *(*fn)(void *); void *arg; int task; };
static std::map<pthread_t, int> *g_threads;
static pthread_key_t g_key; static int g_key_ok;
static void key_dtor(void *) { task_exit(); }
static void *th_main(void *a) {
  ThStart st = *(ThStart *)a; { InSim _; free(a); }
  g_task = st.task; pthread_setspecific(g_key, (void *)1);
  { InSim _; wait_go(g_task); }
  void *r = st.fn(st.arg);
  return r;      // key destructor releases the token
}
int simh_pcreate(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!S || g_task < 0) return pthread_create(t, at, fn, arg);
  InSim _;
  if (!g_key_ok) { pthread_key_create(&g_key, key_dtor); g_key_ok = 1; }
  if (!g_threads) g_threads = new std::map<pthread_t, int>;
  ThStart *st = (ThStart *)malloc(sizeof *st); st->fn = fn; st->arg = arg; st->task = task_new(g_rank);
  int task = st->task;
  int rc = pthread_create(t, at, th_main, st);
  if (rc) { S->tasks[task].state = T_EXITED; free(st); return rc; }
  (*g_threads)[*t] = task; s_bump(); s_yield();
  return 0;
}
int simh_pjoin(pthread_t t, void **r) {
  if (S && g_task >= 0 && g_threads && g_threads->count(t)) { InSim _; int task = (*g_threads)[t]; g_threads->erase(t); s_block("pthread_join", [&] { return S->tasks[task].state == T_EXITED; }); }
  return pthread_join(t, r);
}
int simh_nanosleep(const struct timespec *ts, struct timespec *) {
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0)) { errno = EINVAL; if (S && g_task >= 0) { InSim _; s_yield(); } return -1; }
  if (S && g_task >= 0) { InSim _; s_yield(); } return 0; }
int simh_usleep(useconds_t) { if (S && g_task >= 0) { InSim _; s_yield(); } return 0; }
unsigned simh_sleep(unsigned) { if (S && g_task >= 0) { InSim _; s_yield(); } return 0; }
int simh_sched_yield(void) { if (S && g_task >= 0) { InSim _; s_yield(); } return 0; }

static std::vector<pthread_t> *g_dthreads;
int sim_thread_create(void *(*fn)(void *), void *arg) { if (!g_dthreads) g_dthreads = new std::vector<pthread_t>; pthread_t t; if (simh_pcreate(&t, nullptr, fn, arg)) return -1; g_dthreads->push_back(t); return (int)g_dthreads->size() - 1; }
void sim_thread_join(int i) { simh_pjoin((*g_dthreads)[i], nullptr); }

// ---- coverage / preemption at instrumented edges of the library
static uint8_t *g_cov; static size_t g_covn; static uint32_t g_nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *p = a; p < b; p++) *p = ++g_nguards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (g_cov && *g < g_covn) g_cov[*g] = 1;
  if (S && g_task >= 0 && !g_insim && S->cfg.preempt && (int)S->rng.below(1000) < S->cfg.preempt) { InSim _; s_yield(); }
}
static inline void ls_preempt(void *a) {      // threads: any access of the library can be a preemption point
  if (in_slab(a)) { mem_preempt(a, nullptr); return; }
  if (S && g_task >= 0 && !g_insim && S->cfg.preempt && (int)S->rng.below(4000) < S->cfg.preempt) { InSim _; s_yield(); }
}
#define LS(N) void __sanitizer_cov_load##N(void *a) { ls_preempt(a); } void __sanitizer_cov_store##N(void *a) { ls_preempt(a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
void sim_cov_init(uint8_t *m, size_t n) { g_cov = m; g_covn = n; }
size_t sim_cov_total() { return g_nguards; }

// ---------------------------------------------------------------- case set-up and supervision
static int g_memfd = -1; static uint64_t g_memsz;
void sim_setup(const SimCfg &c) {
  void *p = mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("arena"); exit(2); }
  S = (Arena *)p; S->cfg = c; S->rng.s = sim_mix(c.seed, 11); S->rrng.s = sim_mix(c.seed, 22);
  S->heap_off = (sizeof(Arena) + 4095) & ~4095ull; S->heap_end = ARENA_SZ; S->next_ctx = 10; S->prio_next = 0;
  g_memfd = memfd_create("simslab", 0);
  g_memsz = c.slab * (uint64_t)c.nranks;
  if (g_memfd < 0 || ftruncate(g_memfd, (off_t)g_memsz)) { perror("memfd"); exit(2); }
  void *r = mmap((void *)REMOTE_BASE, g_memsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, g_memfd, 0);
  if (r != (void *)REMOTE_BASE) { perror("slab map"); exit(2); }
  if (c.win_separate) { r = mmap((void *)PUBLIC_BASE, 2 * g_memsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != (void *)PUBLIC_BASE) { perror("public map"); exit(2); } }
}
void sim_teardown() {
  if (S->cfg.win_separate) munmap((void *)PUBLIC_BASE, 2 * g_memsz);
  munmap((void *)REMOTE_BASE, g_memsz); close(g_memfd); g_memfd = -1; munmap(S, ARENA_SZ); S = nullptr;
}
void simmpi_rank_start();
static void on_term(int) { _exit(73); }
void sim_run(void (*rank_main)(int, void *), void *arg, double wall, SimOutcome &out) {
  int n = S->cfg.nranks; pid_t pid[SIM_MAXR]; bool live[SIM_MAXR];
  int ofd = memfd_create("simout", 0);
  for (int i = 0; i < n; i++) { S->ranks[i].task_main = task_new(i); }
  S->starve = (int)S->rrng.below(n);
  fflush(NULL);
  for (int i = 0; i < n; i++) {
    pid[i] = fork();
    if (pid[i] == 0) {
      struct rlimit rl = {(rlim_t)S->cfg.cpu_limit, (rlim_t)S->cfg.cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      fcntl(ofd, F_SETFL, O_APPEND);
      dup2(ofd, 1); dup2(ofd, 2); setvbuf(stdout, nullptr, _IOLBF, 4096);
      signal(SIGTERM, on_term);
      g_rank = i; g_insim = 1;
      void *l = mmap(slab_local_base(), S->cfg.slab, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, g_memfd, (off_t)(S->cfg.slab * (uint64_t)i));
      if (l != slab_local_base()) { perror("local slab"); _exit(2); }
#ifdef SIM_ASAN
      if (S->cfg.slab <= (256ull << 20)) __asan_poison_memory_region(l, S->cfg.slab);
#endif
      simmpi_rank_start();
      g_task = S->ranks[i].task_main;
      wait_go(g_task);
      g_insim = 0;
      rank_main(i, arg);
      g_insim = 1;
      S->ranks[i].exit_ok = 1;
      fflush(NULL);
      task_exit();
      _exit(0);
    }
    if (pid[i] < 0) { perror("fork"); exit(2); }
    live[i] = true;
  }
  hand((int)S->rng.below(n));
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  int nlive = n; bool killed = false;
  int spins = 0;
  while (nlive) {
    bool any = false;
    for (int i = 0; i < n; i++) if (live[i]) {
      int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r == pid[i]) {
        live[i] = false; nlive--; any = true;
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->ranks[i].exit_ok;
        if (!ok && !killed) {
          out.died = true; out.dead_rank = i; out.status = st; killed = true;
          for (int j = 0; j < n; j++) if (live[j]) kill(pid[j], SIGKILL);
        }
      }
    }
    if (!nlive) break;
    if (!any) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
      if (el > wall && !killed) { out.timeout = true; killed = true; for (int j = 0; j < n; j++) if (live[j]) kill(pid[j], SIGKILL); }
      struct timespec d = {0, spins++ < 20 ? 200000 : 1000000}; nanosleep(&d, nullptr);
    }
  }
  out.aborted = S->aborted; out.abort_code = S->abort_code; out.abort_rank = S->abort_rank;
  out.deadlock = S->deadlock; out.steplimit = S->steplimit; out.deadlock_info = S->deadlock_info;
  out.steps = S->steps; out.sched_hash = S->sched_hash; out.switches = S->switches;
  out.n_mpi = S->n_mpi; out.n_rma = S->n_rma; out.n_deferred = S->n_deferred; out.n_reordered = S->n_reordered; out.n_p2p = S->n_p2p; out.n_coll = S->n_coll;
  out.nreports = S->nreports; out.reports = S->reports;
  off_t sz = lseek(ofd, 0, SEEK_END); if (sz > 200000) sz = 200000;
  out.output.resize(sz); if (sz) { ssize_t k = pread(ofd, &out.output[0], sz, 0); (void)k; }
  close(ofd);
}
