// Initialisation and finalisation, resource census over cycles, rejection of invalid requests, configuration (C14, C21, C22, C23).
#include "h.h"
#include <limits.h>
#include "util.h"
#include "engine.h"
#include <unistd.h>
extern "C" {
#include <message.h>
}
void check_identity(int me, int n);
static void census_equal(const SimCensus &a, const SimCensus &b, const char *when) {
#define CE(f) CHECK(a.f == b.f, "growth-" #f, "%s: %ld object(s) of kind '" #f "' held, %ld before", when, b.f, a.f)
  CE(comm); CE(group); CE(type); CE(req); CE(op); CE(info); CE(win); CE(mem); CE(heap);
}
static void census_zero(const char *when) { SimCensus s, z; memset(&z, 0, sizeof z); sim_census(&s);
#define CZZ(f) CHECK(s.f == 0, "leak-" #f, "%s: %ld object(s) of kind '" #f "' still held", when, s.f)
  CZZ(comm); CZZ(group); CZZ(type); CZZ(req); CZZ(op); CZZ(info); CZZ(win); CZZ(mem); CZZ(heap); }
// a bit of everything, all released again
void kitchen(int me, int n, Rng shared, Case &c) {
  Rng r = shared; bool nonc = c.on("ARMCI_NONCOLLECTIVE_GROUPS"); std::vector<int> l = subset(r, n); if (nonc) std::sort(l.begin(), l.end()); bool in = std::find(l.begin(), l.end(), me) != l.end();
  ARMCI_Group g, w, d, s; ARMCI_Group_get_world(&w); ARMCI_Group_create((int)l.size(), l.data(), &g); ARMCIX_Group_dup(&w, &d); ARMCIX_Group_split(&w, me % 2, -me, &s);
  std::vector<void *> a(n), b(n), e(n); size_t za = 64 + 8 * r.below(20); int how = (int)r.below(4);
  CHECK(ARMCI_Malloc(a.data(), za + (me % 3) * 16) == 0, "rc", "malloc"); if (in) CHECK(ARMCI_Malloc_group(b.data(), 128, &g) == 0, "rc", "malloc group"); CHECK(ARMCI_Malloc_group_memdev(e.data(), me == 0 ? 0 : 48, &d, "x") == 0, "rc", "memdev");
  void *loc = ARMCI_Malloc_local(100); CHECK(loc != nullptr, "rc", "malloc local"); memset(loc, me, 100); memset(a[me], 0, za); ARMCI_Barrier();
  int t = (me + 1) % n; double one = 1, sc = 2.5; double v[8] = {1, 2, 3, 4, 5, 6, 7, 8}; long q[8]; armci_hdl_t h, ag; ARMCI_INIT_HANDLE(&h); ARMCI_INIT_HANDLE(&ag); ARMCI_SET_AGGREGATE_HANDLE(&ag);
  ARMCI_NbPut(v, a[t], 64, t, &h); ARMCI_Wait(&h); ARMCI_NbGet(a[t], q, 64, t, &ag); ARMCI_NbAcc(ARMCI_ACC_DBL, r.chance(50) ? &one : &sc, v, a[t], 64, t, &ag); ARMCI_Wait(&ag); ARMCI_UNSET_AGGREGATE_HANDLE(&ag); ARMCI_NbPut(v, a[t], 32, t, nullptr); ARMCI_WaitAll();
  int st[1] = {16}, ct[2] = {8, 3}; ARMCI_PutS(v, st, a[t], st, ct, 1, t); ARMCI_GetS(a[t], st, q, st, ct, 1, t); ARMCI_AccS(ARMCI_ACC_DBL, &sc, v, st, a[t], st, ct, 1, t);
  void *sp[3] = {v, v + 2, v + 4}, *dp[3] = {(char *)a[t] + 0, (char *)a[t] + 24, (char *)a[t] + 48}; armci_giov_t iov = {sp, dp, 8, 3}; ARMCI_PutV(&iov, 1, t); ARMCI_AccV(ARMCI_ACC_DBL, &sc, &iov, 1, t); armci_giov_t gio = {dp, sp, 8, 3}; ARMCI_GetV(&gio, 1, t); ARMCI_INIT_HANDLE(&h); ARMCI_NbAccV(ARMCI_ACC_DBL, &sc, &iov, 1, t, &h); ARMCI_Wait(&h); ARMCI_NbGetV(&gio, 1, t, nullptr); ARMCI_WaitProc(t);
  int iv = 3; ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &iv, a[t], 1, t); ARMCI_Fence(t); ARMCI_AllFence();
  ARMCI_Create_mutexes(1 + (me == 0)); ARMCI_Lock(0, t); ARMCI_Unlock(0, t); ARMCI_Destroy_mutexes(); armcix_mutex_hdl_t mh = ARMCIX_Create_mutexes_hdl(2, &d); ARMCIX_Lock_hdl(mh, 1, t); ARMCIX_Unlock_hdl(mh, 1, t); ARMCIX_Destroy_mutexes_hdl(mh);
  long keys[4] = {me, 2, 3, 4}; armci_msg_sel(keys, 32, (char *)"max", ARMCI_LONG, 1); double dd[3] = {1.0 * me, -2, 3}; armci_msg_dgop(dd, 3, (char *)"absmax"); armci_msg_bcast(keys, 32, 0); if (in) armci_msg_group_dgop(dd, 3, (char *)"+", &g); armci_msg_barrier(); ARMCI_Access_begin(a[me]); ARMCI_Access_end(a[me]);
  ARMCI_Barrier(); ARMCI_Free_local(loc); if (how & 1) ARMCI_Free(a[me]); if (in) ARMCI_Free_group(b[std::find(l.begin(), l.end(), me) - l.begin()], &g); if (how == 2) CHECK(ARMCI_Free_memdev(a[me]) == 0, "rc", "free memdev"); if (how == 0) ARMCI_Free_group(a[me], &w); ARMCI_Free_group(e[me], &d);
  ARMCI_Group_free(&g); ARMCI_Group_free(&d); ARMCI_Group_free(&s);
}
// ---------------------------------------------------------------- resource cycles (C14)
struct CycPlan { int cycles, reps; std::shared_ptr<void> eng; std::vector<int> kinds; int leaks; };
static void cyc_plan(Case &c) {
  auto P = std::make_shared<CycPlan>(); Focus f; f.ngroups = 1; f.env = 2; f.phases = 2; f.maxops = 4; f.p_global = 20; f.p_big = 2; engine_plan(c, f); P->eng = c.plan; c.plan = P; Rng &r = c.rng;
  P->cycles = 2 + (int)r.below(3); P->kinds.clear(); for (int i = 0; i < 2; i++) P->kinds.push_back((int)r.below(2)); P->leaks = r.chance(50) ? (int)r.below(5) : 0; c.desc = "resource cycles: " + c.desc;
}
static void cyc_run(int me, Case &c) {
  auto P = std::static_pointer_cast<CycPlan>(c.plan); c.plan = P->eng; armci_start(c); SimCensus s0, s; long base = -1; (void)base;
  for (int k = 0; k < P->cycles; k++) {
    if (sim_mix(c.seed, 4000 + k) % 4 == 0) { unsigned long lim[] = {0, 1, 4096, 1ul << 20, ULONG_MAX}; ARMCI_Set_shm_limit(lim[sim_mix(c.seed, 4100 + k) % 5]); }     // advisory: nothing may be refused
    for (size_t i = 0; i < P->kinds.size(); i++) if (P->kinds[i]) { engine_body(me, c); } else { Rng sh{sim_mix(c.seed, 4711 + i)}; kitchen(me, c.n, sh, c); }
    ARMCI_Barrier(); sim_census(&s); if (k) census_equal(s0, s, fmt("after cycle %d of the same workload", k + 1).c_str()); s0 = s; cnt(CN_COLL); feat(fh({110, (uint64_t)k, (uint64_t)P->kinds[0], (uint64_t)P->kinds[1]}));
  }
  for (int i = 0; i < P->leaks; i++) { std::vector<void *> b(c.n); CHECK(ARMCI_Malloc(b.data(), 16 + 8 * i) == 0, "rc", "malloc"); }
  armci_stop(c);
}
static void cyc_post(Case &c, SimOutcome &o) { auto P = std::static_pointer_cast<CycPlan>(c.plan); bool w = o.output.find("leaked") != std::string::npos; if (P->leaks && !w) post_fail("ORACLE", "leak-warning", "%d allocations were left to finalize without a warning", P->leaks); if (!P->leaks && w) post_fail("ORACLE", "leak-warning", "finalize warned about leaked allocations although all were freed"); }
static ScnReg r_cyc("CYCLE", cyc_plan, cyc_run, cyc_post);
// ---------------------------------------------------------------- init / finalize (C21)
struct InitCycle { std::vector<int> procs; int kind, level, nest, nest_kind, body, leaks, gleak; std::shared_ptr<void> eng; std::vector<std::pair<std::string, std::string>> env; uint64_t seed; int extra_fin; bool pid_queries; };
struct InitPlan { std::vector<InitCycle> cy; int total; };
static void init_plan(Case &c) {
  auto P = std::make_shared<InitPlan>(); Rng &r = c.rng; Case base = c; cfg_sim(c, 1, 6, 12); P->total = c.n; int nc = 1 + (int)r.below(c.thorough ? 5 : 3); std::string d;
  c.thread_level = r.chance(30) ? MPI_THREAD_MULTIPLE : MPI_THREAD_SINGLE;
  for (int k = 0; k < nc; k++) { InitCycle y; y.kind = (int)r.below(5); y.procs = range_vec(c.n); if (y.kind >= 3 && r.chance(75)) { shuffle(r, y.procs); if (r.chance(60)) y.procs.resize(1 + r.below(c.n)); }
    y.level = c.thread_level == MPI_THREAD_MULTIPLE ? (int)r.pick({MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE}) : MPI_THREAD_SINGLE; y.nest = r.chance(50) ? (int)r.below(4) : 0; y.nest_kind = (int)r.below(5); y.body = (int)r.below(3); y.leaks = r.chance(30) ? (int)r.below(4) : 0; y.gleak = r.chance(20) ? 1 + (int)r.below(2) : 0; y.seed = r.next(); y.extra_fin = r.chance(30); y.pid_queries = r.chance(70);
    Case k2 = base; k2.rng.s = r.next(); k2.env.clear(); Focus f; f.nmin = f.nmax = (int)y.procs.size(); f.env = 1; f.ngroups = 1; f.phases = 2; f.maxops = 4; engine_plan(k2, f); y.eng = k2.plan; y.env = k2.env; d += fmt(" [init kind %d level %d on %zu of %d processes, nested %d, body %d, leaks %d+%d]", y.kind, y.level, y.procs.size(), c.n, y.nest, y.body, y.leaks, y.gleak); P->cy.push_back(y); }
  c.plan = P; c.desc = fmt("%d ranks,%s", c.n, d.c_str());
}
int do_init(int kind, int level, MPI_Comm comm) { static int argc = 1; static char nm[] = "x"; static char *av[2] = {nm, nullptr}; static char **argv = av; cnt(CN_INIT); switch (kind) { case 0: return ARMCI_Init(); case 1: return ARMCI_Init_args(&argc, &argv); case 2: return ARMCI_Init_thread(level); case 3: return ARMCI_Init_thread_comm(level, comm); default: return ARMCI_Init_mpi_comm(comm); } }
static void init_run(int me, Case &c) {
  auto P = std::static_pointer_cast<InitPlan>(c.plan); int prov; if (c.thread_level > MPI_THREAD_SINGLE) MPI_Init_thread(nullptr, nullptr, c.thread_level, &prov); else MPI_Init(nullptr, nullptr);
  CHECK(!ARMCI_Initialized(), "initialized-query", "ARMCI_Initialized() is true before any initialisation");
  for (auto &y : P->cy) {
    for (auto &e : y.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    int w = -1; for (size_t i = 0; i < y.procs.size(); i++) if (y.procs[i] == me) w = (int)i;
    MPI_Comm comm = MPI_COMM_WORLD; bool split = y.kind >= 3 && y.procs != range_vec(P->total); if (split) MPI_Comm_split(MPI_COMM_WORLD, w < 0 ? MPI_UNDEFINED : 0, w, &comm);
    if (w >= 0) {
      Rng r{y.seed}; Case k = c; k.n = (int)y.procs.size(); k.barslot = 62; k.rmap = y.procs; k.plan = y.eng; k.env = y.env; int n = k.n;
      int rc = do_init(y.kind, y.level, comm); CHECK(rc == 0, "init-rc", "initialisation of kind %d returned %d", y.kind, rc); CHECK(ARMCI_Initialized(), "initialized-query", "not initialized after init"); UserTraffic ut; if (split && r.chance(50)) { MPI_Comm_free(&comm); split = false; } else ut.start(y.seed, w, n, comm);
      if (y.pid_queries) check_identity(w, n);
      std::vector<void *> b(n); CHECK(ARMCI_Malloc(b.data(), 64) == 0, "rc", "malloc failed"); long v = 1000 + w; ARMCI_Barrier();
      for (int i = 0; i < y.nest; i++) { rc = do_init(y.nest_kind, y.level, split ? comm : MPI_COMM_WORLD); CHECK(rc == 0, "nested-init", "nested initialisation returned %d", rc); CHECK(ARMCI_Initialized(), "initialized-query", "not initialized after a nested init"); }
      int t = (w + 1) % n; ARMCI_Put(&v, b[t], 8, t); ARMCI_Barrier(); CHECK(*(long *)b[w] == 1000 + (w + n - 1) % n, "cycle-data", "value %ld from the ring neighbour, expected %d", *(long *)b[w], 1000 + (w + n - 1) % n);
      for (int i = 0; i < y.nest; i++) { rc = ARMCI_Finalize(); CHECK(rc == 0, "nested-finalize", "nested finalize returned %d", rc); CHECK(ARMCI_Initialized(), "initialized-query", "not initialized after finalize %d of %d", i + 1, y.nest + 1); long g = -1; CHECK(ARMCI_Get(b[t], &g, 8, t) == 0 && g == 1000 + w, "nested-finalize", "library does not work after an inner finalize: read %ld", g); }
      if (y.body == 0) engine_body(w, k); else if (y.body == 1) { Rng sh{y.seed + 1}; kitchen(w, n, sh, k); }
      ARMCI_Barrier(); bool leakb = y.leaks > 0; if (!leakb) CHECK(ARMCI_Free(b[w]) == 0, "free-rc", "free failed");
      for (int i = 1; i < y.leaks; i++) { std::vector<void *> x(n); ARMCI_Malloc(x.data(), 8 * i); }
      ARMCI_Group lg[2]; for (int i = 0; i < y.gleak; i++) { std::vector<int> l = range_vec(n); Rng q{y.seed + 50 + i}; for (size_t j = l.size(); j-- > 0;) if (l.size() > 1 && q.chance(40)) l.erase(l.begin() + j); bool in = std::find(l.begin(), l.end(), w) != l.end(); ARMCI_Group_create((int)l.size(), l.data(), &lg[i]); if (in) { std::vector<void *> x(l.size()); ARMCI_Malloc_group(x.data(), 24, &lg[i]); } }
      // (the leaked groups themselves belong to the user: released after finalize is not possible, so release them before when nothing was allocated)
      long pend = 5; if (n > 1 && leakb) ARMCI_NbPut(&pend, b[t], 8, t, nullptr);          // unfinished operation on a leaked allocation
      ut.finish(); SimCensus before; sim_census(&before); (void)before;
      rc = ARMCI_Finalize(); CHECK(rc == 0, "finalize-rc", "finalize returned %d", rc); CHECK(!ARMCI_Initialized(), "initialized-query", "still initialized after the outermost finalize");
      if (split) MPI_Comm_free(&comm);
      for (int i = 0; i < y.gleak; i++) ARMCI_Group_free(&lg[i]);
      census_zero("after the outermost finalize"); cnt(CN_COLL); feat(fh({111, (uint64_t)y.kind, (uint64_t)y.nest, (uint64_t)y.procs.size(), (uint64_t)y.body, (uint64_t)y.leaks, (uint64_t)y.level}));
      if (y.extra_fin) { CHECK(ARMCI_Finalize() == 0 && !ARMCI_Initialized(), "finalize-when-down", "finalize of a finalized library"); }
    } else CHECK(!ARMCI_Initialized(), "initialized-query", "initialized on a process outside the communicator");
    rank_barrier(c); for (auto &e : y.env) unsetenv(e.first.c_str());
  }
  MPI_Finalize();
}
static ScnReg r_init("INIT", init_plan, init_run);
// ---------------------------------------------------------------- invalid requests (C22)
enum { RB_OK, RB_PAST, RB_FAR, RB_BEFORE, RB_END, RB_NOWHERE, RB_FREED, RB_NULL, RB_LATERSEG, RB_N };
enum { RO_PUT, RO_GET, RO_ACC, RO_NBPUT, RO_NBGET, RO_NBACC, RO_PUTS, RO_GETS, RO_ACCS, RO_NBPUTS, RO_NBGETS, RO_NBACCS, RO_PUTV, RO_GETV, RO_ACCV, RO_NBPUTV, RO_NBGETV, RO_NBACCV, RO_RMW, RO_PUTVAL, RO_GETVAL, RO_FLAG, RO_FLAGS, RO_MUTEX, RO_ACCTYPE, RO_RMWOP, RO_GOP, RO_FATAL, RO_N };
static const char *RON[] = {"Put", "Get", "Acc", "NbPut", "NbGet", "NbAcc", "PutS", "GetS", "AccS", "NbPutS", "NbGetS", "NbAccS", "PutV", "GetV", "AccV", "NbPutV", "NbGetV", "NbAccV", "Rmw", "PutValue", "GetValue", "Put_flag", "PutS_flag", "mutex", "accumulate type", "rmw operation", "reduction", "fatal error call"};
static const char *RBN[] = {"valid up to the last byte", "past the end", "far past the end", "starting before the base", "starting at the end", "outside every allocation", "freed allocation", "NULL", "second segment past the end"};
struct RejPlan { int op, bad, who, target; std::vector<long> size; int over; int seg; int variant; };
static void rej_plan(Case &c) {
  cfg_sim(c, 1, 4); cfg_env(c, 1); auto P = std::make_shared<RejPlan>(); c.plan = P; Rng &r = c.rng; RejPlan &p = *P; c.sim.gap = (int)r.pick({64, 256}); if (r.chance(50)) env_set(c, "ARMCI_IOV_CHECKS", "1"); if (r.chance(40)) env_set(c, "ARMCI_STRIDED_METHOD", r.pick({"IOV", "DIRECT"}));
  p.op = (int)r.below(RO_N); p.bad = r.chance(30) ? RB_OK : 1 + (int)r.below(RB_N - 1); p.who = (int)r.below(c.n); p.target = (int)r.below(c.n); if (c.n > 1 && r.chance(60)) while (p.target == p.who) p.target = (int)r.below(c.n);
  for (int i = 0; i < c.n; i++) p.size.push_back(64 + 8 * (long)r.below(8)); p.over = (int)r.pick({1, 2, 4, 8, 8, 16, 40}); p.seg = 2 + (int)r.below(4); p.variant = (int)r.below(4);
  bool multi = (p.op >= RO_PUTS && p.op <= RO_NBACCV) || p.op == RO_FLAGS; if (p.bad == RB_LATERSEG && !multi) p.bad = RB_PAST;
  if (multi && p.bad == RB_NULL) p.bad = RB_NOWHERE;
  if ((p.op == RO_RMW || p.op == RO_PUTVAL || p.op == RO_GETVAL) && p.bad == RB_PAST) p.over = (int)r.pick({4, 4, 2, 1});
  if (p.op == RO_FATAL) p.bad = RB_NULL;
  c.expect_abort = p.bad != RB_OK; c.desc = fmt("%s: %s, process %d to %d of %d, slice %ld, variant %d", RON[p.op], RBN[p.bad], p.who, p.target, c.n, p.size[p.target], p.variant);
}
static int fatal_code(const Case &c) { static const int K[] = {1, 2, 42, 127, 255, -1, 1000, 77}; return K[(c.seed >> 30) % 8]; }
static std::string fatal_msg(const Case &c) { static const char *M[] = {"giving up", "", "a message with % and %s and %n in it", "0123456789abcdefghijklmnopqrstuvwxyz"}; std::string m; for (uint64_t i = 0; i <= (c.seed >> 33) % 6; i++) m += M[(c.seed >> 36) % 4]; return m; }
static void rej_run(int me, Case &c) {
  RejPlan &p = *plan_of<RejPlan>(c); armci_start(c); std::vector<void *> a(c.n), z(c.n), d(c.n); ARMCI_Malloc(d.data(), 64); ARMCI_Malloc(a.data(), p.size[me]); ARMCI_Malloc(z.data(), 64); memset(a[me], 0, p.size[me]); memset(z[me], 0x33, 64); void *dead = d[p.target]; ARMCI_Free(d[me]);
  std::vector<int> mc(c.n); for (int i = 0; i < c.n; i++) mc[i] = (int)((c.seed >> (4 * i)) % 3); if (p.op == RO_MUTEX) { mc[p.target] = std::max(mc[p.target], p.bad == RB_OK ? 1 : 0); int mx = 0; for (int x : mc) mx = std::max(mx, x); if (!mx) mc[0] = 1; ARMCI_Create_mutexes(mc[me]); }
  ARMCI_Barrier();
  if (me == p.who) {
    int t = p.target; char *base = (char *)a[t]; long S = p.size[t]; bool bad = p.bad != RB_OK; int rc = 0; bool done = true; cnt(bad ? CN_REJECT : CN_ACCEPT);
    bool acc = p.op == RO_ACCTYPE || p.op == RO_ACC || p.op == RO_NBACC || p.op == RO_ACCS || p.op == RO_NBACCS || p.op == RO_ACCV || p.op == RO_NBACCV; int es = acc ? 8 : 1; long L = acc ? 16 : 1 + (long)(c.seed % 24);      // bytes per segment
    int over = acc ? (p.over + 7) / 8 * 8 : p.over;
    auto place = [&](long len) -> char * { switch (p.bad) { case RB_OK: return base + S - len; case RB_PAST: return base + S - len + std::min((long)over, len - (acc ? 8 : 1) > 0 ? std::max((long)(acc ? 8 : 1), std::min((long)over, len - (acc ? 8 : 1))) : (long)over); case RB_FAR: return base + S - len + (1 << 16); case RB_BEFORE: return base - std::min((long)over, std::max(1L, len - 1)); case RB_END: return base + S; case RB_NOWHERE: return (char *)0x1000; case RB_FREED: return (char *)dead; case RB_NULL: return nullptr; default: return base + S - len; } };
    double one = 1.0; std::vector<char> buf(4096, 7); double *db = (double *)buf.data(); for (int i = 0; i < 64; i++) db[i] = 1 + i; char *b = buf.data(); armci_hdl_t h; ARMCI_INIT_HANDLE(&h); armci_hdl_t *hp = p.variant & 1 ? &h : nullptr;
    // strided: seg segments of L bytes; valid placement ends exactly at the slice end
    int rs = (int)((S - L) / (p.seg - 1) / es * es); if (rs < L) { p.seg = 2; rs = (int)((S - L) / es * es); } long ext = (long)rs * (p.seg - 1) + L; int st[1] = {rs}, lst[1] = {(int)((L + 7) / 8 * 8)}, ct[2] = {(int)L, p.seg}; char *sb = p.bad == RB_LATERSEG ? base + S - ext + over : p.bad == RB_PAST ? base + S - ext + std::min((long)over, std::max((long)es, L - es)) : place(ext);
    if (p.bad == RB_LATERSEG) sb = base + S - ext + L;       // the last segment starts exactly at the end of the slice
    if (p.bad == RB_FAR && (c.seed >> 13) % 2 && p.op >= RO_PUTS && p.op <= RO_NBACCS) { static const int W[] = {0x40000000, 0x7ffffff8, 0x2aaaaab0, 0x55555558}; p.seg = (int)((c.seed >> 15) % 2) + 3; st[0] = W[(c.seed >> 17) % 4]; ct[1] = p.seg; sb = base; }   // valid first row, the others gigabytes away: the extent does not fit in an int
    // vector: the last listed segment is the badly placed one unless the first is
    std::vector<void *> lp, rp; for (int i = 0; i < p.seg; i++) { lp.push_back(b + i * ((L + 7) / 8 * 8)); rp.push_back(base + i * es * ((L + es - 1) / es)); } int badi = p.bad == RB_LATERSEG ? p.seg - 1 : p.variant & 2 ? p.seg - 1 : 0; if (p.seg * ((L + es - 1) / es * es) > S - L) { rp.resize(1); lp.resize(1); badi = 0; } rp[badi] = p.bad == RB_LATERSEG ? base + S - L + es * ((L / es + 1) / 2) : place(L); if (p.bad == RB_LATERSEG && (char *)rp[badi] + L <= base + S) rp[badi] = base + S;
    armci_giov_t pv = {lp.data(), rp.data(), (int)L, (int)lp.size()}, gv = {rp.data(), lp.data(), (int)L, (int)lp.size()};
    feat(fh({112, (uint64_t)p.op, (uint64_t)p.bad, (uint64_t)(p.target == me), (uint64_t)p.variant}));
    switch (p.op) {
    case RO_PUT: rc = ARMCI_Put(b, place(L), L, t); break;
    case RO_GET: rc = ARMCI_Get(place(L), b, L, t); break;
    case RO_ACC: rc = ARMCI_Acc(ARMCI_ACC_DBL, &one, b, place(L), L, t); break;
    case RO_NBPUT: rc = ARMCI_NbPut(b, place(L), L, t, hp); break;
    case RO_NBGET: rc = ARMCI_NbGet(place(L), b, L, t, hp); break;
    case RO_NBACC: rc = ARMCI_NbAcc(ARMCI_ACC_DBL, &one, b, place(L), L, t, hp); break;
    case RO_PUTS: rc = ARMCI_PutS(b, lst, sb, st, ct, 1, t); break;
    case RO_GETS: rc = ARMCI_GetS(sb, st, b, lst, ct, 1, t); break;
    case RO_ACCS: rc = ARMCI_AccS(ARMCI_ACC_DBL, &one, b, lst, sb, st, ct, 1, t); break;
    case RO_NBPUTS: rc = ARMCI_NbPutS(b, lst, sb, st, ct, 1, t, hp); break;
    case RO_NBGETS: rc = ARMCI_NbGetS(sb, st, b, lst, ct, 1, t, hp); break;
    case RO_NBACCS: rc = ARMCI_NbAccS(ARMCI_ACC_DBL, &one, b, lst, sb, st, ct, 1, t, hp); break;
    case RO_PUTV: rc = ARMCI_PutV(&pv, 1, t); break;
    case RO_GETV: rc = ARMCI_GetV(&gv, 1, t); break;
    case RO_ACCV: rc = ARMCI_AccV(ARMCI_ACC_DBL, &one, &pv, 1, t); break;
    case RO_NBPUTV: rc = ARMCI_NbPutV(&pv, 1, t, hp); break;
    case RO_NBGETV: rc = ARMCI_NbGetV(&gv, 1, t, hp); break;
    case RO_NBACCV: rc = ARMCI_NbAccV(ARMCI_ACC_DBL, &one, &pv, 1, t, hp); break;
    case RO_RMW: { int i4 = 5; long i8 = 5; bool lg = p.variant & 1; char *q = place(lg ? 8 : 4); if (p.bad == RB_PAST) q = base + S - (lg ? 4 : 2); if (p.bad == RB_BEFORE) q = base - 4; rc = ARMCI_Rmw(p.variant == 0 ? ARMCI_FETCH_AND_ADD : p.variant == 1 ? ARMCI_FETCH_AND_ADD_LONG : p.variant == 2 ? ARMCI_SWAP : ARMCI_SWAP_LONG, lg ? (void *)&i8 : (void *)&i4, q, 1, t); break; }
    case RO_PUTVAL: { bool lg = p.variant & 1; char *q = place(lg ? 8 : 4); if (p.bad == RB_PAST) q = base + S - (lg ? 4 : 2); rc = p.variant == 0 ? ARMCI_PutValueInt(5, q, t) : p.variant == 1 ? ARMCI_PutValueLong(5, q, t) : p.variant == 2 ? ARMCI_PutValueFloat(5, q, t) : ARMCI_PutValueDouble(5, q, t); break; }
    case RO_GETVAL: { bool lg = p.variant & 1; char *q = place(lg ? 8 : 4); if (p.bad == RB_PAST) q = base + S - (lg ? 4 : 2); if (p.variant == 0) (void)ARMCI_GetValueInt(q, t); else if (p.variant == 1) (void)ARMCI_GetValueLong(q, t); else if (p.variant == 2) (void)ARMCI_GetValueFloat(q, t); else (void)ARMCI_GetValueDouble(q, t); break; }
    case RO_FLAG: if (bad && (p.variant & 1)) rc = ARMCI_Put_flag(b, base, 8, (int *)(p.bad == RB_PAST ? base + S - 2 : place(4)), 1, t); else rc = ARMCI_Put_flag(b, place(L), L, (int *)base, 1, t); break;
    case RO_FLAGS: if (bad && (p.variant & 1)) rc = ARMCI_PutS_flag(b, lst, base + S - ext, st, ct, 1, (int *)(p.bad == RB_PAST || p.bad == RB_LATERSEG ? base + S - 2 : place(4)), 1, t); else rc = ARMCI_PutS_flag(b, lst, sb, st, ct, 1, (int *)base, 1, t); break;
    case RO_MUTEX: { int idx = bad ? (p.variant == 0 ? -1 : p.variant == 1 ? mc[t] : p.variant == 2 ? mc[t] + 1 : 1000000) : (int)(c.seed % mc[t]); ARMCI_Lock(idx, t); if (!bad) ARMCI_Unlock(idx, t); break; }
    case RO_ACCTYPE: { int ty = bad ? (p.variant == 0 ? -1 : p.variant == 1 ? 999 : p.variant == 2 ? 77 : 0x7fffffff) : ARMCI_ACC_DBL; rc = (c.seed >> 20) % 3 == 0 ? ARMCI_Acc(ty, &one, b, base, 16, t) : (c.seed >> 20) % 3 == 1 ? ARMCI_NbAcc(ty, &one, b, base, 16, t, hp) : ARMCI_AccS(ty, &one, b, lst, base, st, ct, 1, t); break; }
    case RO_RMWOP: { long v = 1; rc = ARMCI_Rmw(bad ? (p.variant == 0 ? -1 : p.variant == 1 ? 4 + (int)(c.seed % 50) : p.variant == 2 ? 0x7fffffff : 99) : (int)ARMCI_SWAP_LONG, &v, base, 1, t); break; }
    case RO_GOP: { ARMCI_Group w; ARMCI_Group_get_world(&w); long v[2] = {1, 2}; static const char *bo[] = {"plus", "", "%", "mix"}; if (c.n == 1 || bad) armci_msg_group_gop_scope(c.n == 1 ? SCOPE_ALL : SCOPE_NODE, v, 2, (char *)(bad && (c.seed >> 9) % 3 ? bo[p.variant] : "+"), bad && (c.seed >> 9) % 3 == 0 ? 77 + p.variant : (int)ARMCI_LONG, &w); break; }
    case RO_FATAL: { int code = fatal_code(c); if (p.variant & 1) armci_msg_abort(code); else ARMCI_Error(fatal_msg(c).c_str(), code); break; }
    }
    (void)done;
    if (bad && rc == 0) sim_fatal("ORACLE", fmt("not-rejected-%s", RON[p.op]).c_str(), "invalid request was accepted: %s", c.desc.c_str());
    if (!bad) { CHECK(rc == 0, "valid-rejected", "valid request returned %d: %s", rc, c.desc.c_str()); ARMCI_WaitAll(); if (hp) ARMCI_Wait(hp); ARMCI_AllFence();
      if (p.op == RO_PUT || p.op == RO_NBPUT) { std::vector<char> g(S); ARMCI_Get(base, g.data(), (int)S, t); for (long i = 0; i < S; i++) CHECK(g[i] == (i < S - L ? 0 : b[i - (S - L)]), "boundary-data", "byte %ld of %ld is %d", i, S, g[i]); } }
  }
  ARMCI_Barrier(); for (int i = 0; i < 64; i++) CHECK(((char *)z[me])[i] == 0x33, "bystander", "a bystander allocation changed");
  if (p.op == RO_MUTEX) ARMCI_Destroy_mutexes(); ARMCI_Free(a[me]); ARMCI_Free(z[me]); armci_stop(c);
}
static void rej_post(Case &c, SimOutcome &o) { RejPlan &p = *plan_of<RejPlan>(c);
  if (p.op == RO_FATAL) { cnt(CN_EVAL, 4); std::string line = fmt("[%d] ARMCI Error: ", p.who) + fatal_msg(c) + "\n"; if (!o.aborted) {} else if (o.abort_code != fatal_code(c)) post_fail("ORACLE", "abort-code", "the run was ended with code %d instead of %d", o.abort_code, fatal_code(c)); else if (o.abort_rank != p.who) post_fail("ORACLE", "abort-rank", "rank %d ended the run instead of %d", o.abort_rank, p.who); else if (!(p.variant & 1) && o.output.find(line) == std::string::npos) post_fail("ORACLE", "abort-message", "the message is missing in the output: %s", o.output.substr(0, 300).c_str()); return; }
  if (o.aborted) { bool diag = o.output.find("ARMCI") != std::string::npos; if (!diag) post_fail("ORACLE", "no-diagnostic", "aborted without a diagnostic: %s", c.desc.c_str()); } if (p.bad == RB_OK && o.aborted) post_fail("ORACLE", "valid-rejected", "valid request aborted: %s: %s", c.desc.c_str(), o.output.substr(0, 300).c_str()); }
static ScnReg r_rej("REJECT", rej_plan, rej_run, rej_post);
