// Several threads per process, with and without the progress thread (C25).
#include "h.h"
#include "util.h"
enum { TH_SLOT = 64, TH_NSLOT = 8, TH_AREA = TH_SLOT * TH_NSLOT, TH_HOT = 8, TH_MTX = 12, TH_MAXP = 4, TH_MAXT = 5, TH_SEEN = 4096 };
struct ThPlan { int T, ops, churn, mcount, regs; bool nested, implicit; };
struct ThShm { uint8_t model[TH_MAXP][TH_MAXT][TH_MAXP][TH_AREA]; uint8_t seen[TH_MAXP][TH_HOT][TH_SEEN]; long hot[TH_MAXP][TH_HOT], acc[TH_MAXP][TH_HOT]; int holder[TH_MAXP][TH_MTX]; long guarded[TH_MAXP][TH_MTX]; };
struct ThArg { Case *c; int me, k; std::vector<void *> *g; std::vector<std::vector<void *>> *own; };
static void th_plan(Case &c) {
  cfg_sim(c, 1, TH_MAXP); cfg_env(c, 1); auto P = std::make_shared<ThPlan>(); c.plan = P; Rng &r = c.rng; ThPlan &p = *P; c.thread_level = MPI_THREAD_MULTIPLE; c.sim.thread_level = MPI_THREAD_MULTIPLE;
  p.T = 2 + (int)r.below(c.n > 2 ? 2 : 3); p.ops = 4 + (int)r.below(c.thorough ? 30 : 14); p.churn = r.chance(60) ? 1 + (int)r.below(4) : 0; p.mcount = (int)r.below(4); p.regs = 1 + (int)r.below(3); p.nested = r.chance(30); p.implicit = r.chance(50);
  if (r.chance(40)) { env_set(c, "ARMCI_PROGRESS_THREAD", "1"); if (r.chance(50)) env_set(c, "ARMCI_PROGRESS_USLEEP", r.pick({"1", "100", "1500000", "-3"})); }
  if (r.chance(15)) { p.T = 1; p.churn = 0; c.thread_level = c.sim.thread_level = r.pick({MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED}); env_set(c, "ARMCI_PROGRESS_THREAD", "1"); env_set(c, "ARMCI_PROGRESS_USLEEP", "1"); }   // levels at which no second thread may enter MPI
  c.sim.preempt = (int)r.pick({0, 5, 20, 60, 200}); c.sim.slab = 4ull << 20; c.shm_size = sizeof(ThShm); c.wall = 60;
  c.desc = fmt("%d processes of %d threads, %d operations each, %d allocation rounds, %d mutexes per process%s, preemption %d", c.n, p.T, p.ops, p.churn, p.mcount, p.nested ? " (nested)" : "", c.sim.preempt);
}
#define TW ((ThShm *)c.shm)
static void th_hold(Case &c, int q, int m, int who) { int old = -1; CHECK(__atomic_compare_exchange_n(&TW->holder[q][m], &old, who, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED), "two-holders", "mutex %d at process %d granted to process %d thread %d while held by process %d thread %d", m, q, who / 100, who % 100, old / 100, old % 100); }
static void th_drop(Case &c, int q, int m, int who) { int old = who; CHECK(__atomic_compare_exchange_n(&TW->holder[q][m], &old, -1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED), "holder-changed", "mutex %d at process %d: holder became %d while %d held it", m, q, old, who); }
static void *th_body(void *a) {
  ThArg &A = *(ThArg *)a; Case &c = *A.c; ThPlan &p = *plan_of<ThPlan>(c); int n = c.n, me = A.me, k = A.k; Rng r{sim_mix(c.seed, 3000 + me * 16 + k)}; std::vector<void *> &g = *A.g; const long base0 = 1024;
  std::vector<std::vector<uint8_t>> model(n, std::vector<uint8_t>(TH_AREA, 0)); std::vector<std::vector<int>> dirty(n, std::vector<int>(TH_NSLOT, 0)); auto at = [&](int t, int slot, long off) { return (uint8_t *)g[t] + base0 + (long)(me * TH_MAXT + k) * TH_AREA + slot * TH_SLOT + off; };
  auto clean = [&](int t, int slot) { if (dirty[t][slot]) { if (r.chance(70)) { ARMCI_Fence(t); std::fill(dirty[t].begin(), dirty[t].end(), 0); } else { ARMCI_AllFence(); for (auto &d : dirty) std::fill(d.begin(), d.end(), 0); } cnt(CN_FENCE); } };
  struct Out { armci_hdl_t h; std::vector<uint8_t> buf, exp; bool get; int t, slot; bool used; bool imp; }; std::vector<Out> out(3); for (auto &o : out) { ARMCI_INIT_HANDLE(&o.h); o.used = false; }
  auto finish = [&](Out &o) { if (!o.used) return; if (o.imp) { if (r.chance(50)) ARMCI_WaitAll(); else ARMCI_WaitProc(o.t); } else { if (r.chance(30)) for (int i = 0; i < 200 && ARMCI_Test(&o.h); i++) sim_yield(); CHECK(ARMCI_Wait(&o.h) == 0, "rc", "ARMCI_Wait"); } cnt(CN_WAIT); if (o.get) for (int i = 0; i < TH_SLOT; i++) CHECK(o.buf[i] == o.exp[i], "nb-get-data", "process %d thread %d: byte %d of a completed nonblocking get from %d is %d, expected %d", me, k, i, o.t, o.buf[i], o.exp[i]); o.used = false; };
  auto busy = [&](int t, int slot) { for (auto &o : out) if (o.used && o.t == t && o.slot == slot) finish(o); };
  std::vector<std::pair<int, int>> mine; for (int q = 0; q < n; q++) for (int m = 0; m < p.mcount; m++) if ((m * n + q) % p.T == k) mine.push_back({q, m});   // distinct mutexes for distinct threads
  for (int op = 0; op < p.ops; op++) {
    int t = (int)r.below(n), slot = (int)r.below(TH_NSLOT), kind = (int)r.below(12); std::vector<uint8_t> v(TH_SLOT); for (auto &x : v) x = (uint8_t)r.next(); feat(fh({140, (uint64_t)kind, (uint64_t)(t == me), (uint64_t)k, (uint64_t)p.T, (uint64_t)(p.churn > 0)}));
    busy(t, slot); uint8_t *m = model[t].data() + slot * TH_SLOT;
    switch (kind) {
    case 0: case 1: clean(t, slot); CHECK(ARMCI_Put(v.data(), at(t, slot, 0), TH_SLOT, t) == 0, "rc", "ARMCI_Put"); memcpy(m, v.data(), TH_SLOT); dirty[t][slot] = 1; cnt(CN_PUT); break;
    case 2: { clean(t, slot); int st[1] = {16}, ct[2] = {8, 4}; CHECK(ARMCI_PutS(v.data(), st, at(t, slot, 0), st, ct, 1, t) == 0, "rc", "ARMCI_PutS"); for (int i = 0; i < 4; i++) memcpy(m + 16 * i, v.data() + 16 * i, 8); dirty[t][slot] = 1; cnt(CN_PUT); break; }
    case 3: { clean(t, slot); void *s[3], *d[3]; for (int i = 0; i < 3; i++) { s[i] = v.data() + 20 * i; d[i] = at(t, slot, 20 * i); } armci_giov_t v1 = {s, d, 12, 3}; CHECK(ARMCI_PutV(&v1, 1, t) == 0, "rc", "ARMCI_PutV"); for (int i = 0; i < 3; i++) memcpy(m + 20 * i, v.data() + 20 * i, 12); dirty[t][slot] = 1; cnt(CN_PUT); break; }
    case 4: { clean(t, slot); long one = 1, add[8], cur; for (int i = 0; i < 8; i++) { add[i] = (long)r.next(); memcpy(&cur, m + 8 * i, 8); cur = (long)((uint64_t)cur + (uint64_t)add[i]); memcpy(m + 8 * i, &cur, 8); } int st[1] = {32}, ct[2] = {32, 2}; if (r.chance(50)) CHECK(ARMCI_Acc(ARMCI_ACC_LNG, &one, add, at(t, slot, 0), TH_SLOT, t) == 0, "rc", "ARMCI_Acc"); else CHECK(ARMCI_AccS(ARMCI_ACC_LNG, &one, add, st, at(t, slot, 0), st, ct, 1, t) == 0, "rc", "ARMCI_AccS"); dirty[t][slot] = 1; cnt(CN_ACC); break; }
    case 5: { clean(t, slot); std::vector<uint8_t> b(TH_SLOT, 0x77); int w = (int)r.below(3); if (w == 0) ARMCI_Get(at(t, slot, 0), b.data(), TH_SLOT, t); else if (w == 1) { int st[1] = {16}, ct[2] = {16, 4}; ARMCI_GetS(at(t, slot, 0), st, b.data(), st, ct, 1, t); } else { void *s[2] = {at(t, slot, 0), at(t, slot, 32)}, *d[2] = {b.data(), b.data() + 32}; armci_giov_t v1 = {s, d, 32, 2}; ARMCI_GetV(&v1, 1, t); } cnt(CN_GET); for (int i = 0; i < TH_SLOT; i++) CHECK(b[i] == m[i], "get-data", "process %d thread %d: byte %d fetched from %d is %d, expected %d", me, k, i, t, b[i], m[i]); cnt(CN_BYTES, TH_SLOT); break; }
    case 6: { int h = (int)r.below(TH_HOT); long x = -1; int y = -1; bool lg = h & 1; int add = 1; void *ad = (uint8_t *)g[t] + 8 * h; CHECK(ARMCI_Rmw(lg ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_FETCH_AND_ADD, lg ? (void *)&x : (void *)&y, ad, add, t) == 0, "rc", "ARMCI_Rmw"); long old = lg ? x : y; CHECK(old >= 0 && old < TH_SEEN, "rmw-range", "fetch-and-add returned %ld", old); CHECK(__atomic_exchange_n(&TW->seen[t][h][old], 1, __ATOMIC_RELAXED) == 0, "rmw-lost", "two fetch-and-add operations on counter %d of process %d both returned %ld", h, t, old); __atomic_fetch_add(&TW->hot[t][h], 1, __ATOMIC_RELAXED); cnt(CN_RMW); break; }
    case 7: { int h = (int)r.below(TH_HOT); long one = 1, x = 1 + (long)r.below(100); CHECK(ARMCI_Acc(ARMCI_ACC_LNG, &one, &x, (uint8_t *)g[t] + 128 + 8 * h, 8, t) == 0, "rc", "ARMCI_Acc"); __atomic_fetch_add(&TW->acc[t][h], x, __ATOMIC_RELAXED); cnt(CN_ACC); break; }
    case 8: case 9: { Out *o = nullptr; for (auto &x : out) if (!x.used) o = &x; if (!o) { o = &out[r.below(out.size())]; finish(*o); } clean(t, slot); o->used = true; o->t = t; o->slot = slot; o->get = r.chance(50); o->imp = p.implicit && r.chance(40); cnt(CN_NB); armci_hdl_t *hp = o->imp ? nullptr : &o->h; if (!o->imp) ARMCI_INIT_HANDLE(&o->h);
      if (o->get) { o->buf.assign(TH_SLOT, 0x66); o->exp.assign(m, m + TH_SLOT); CHECK(ARMCI_NbGet(at(t, slot, 0), o->buf.data(), TH_SLOT, t, hp) == 0, "rc", "ARMCI_NbGet"); }
      else { o->buf = v; if (r.chance(50)) CHECK(ARMCI_NbPut(o->buf.data(), at(t, slot, 0), TH_SLOT, t, hp) == 0, "rc", "ARMCI_NbPut"); else { int st[1] = {16}, ct[2] = {16, 4}; CHECK(ARMCI_NbPutS(o->buf.data(), st, at(t, slot, 0), st, ct, 1, t, hp) == 0, "rc", "ARMCI_NbPutS"); } memcpy(m, v.data(), TH_SLOT); dirty[t][slot] = 1; }
      break; }
    case 10: if (!mine.empty()) { auto x = mine[r.below(mine.size())]; int q = x.first, mm = x.second, who = me * 100 + k; std::pair<int, int> y = x; if (p.nested) y = mine[r.below(mine.size())]; bool two = y > x; if (y < x) { std::swap(x, y); two = true; q = x.first; mm = x.second; }
      ARMCI_Lock(mm, q); cnt(CN_LOCK); th_hold(c, q, mm, who); if (two) { ARMCI_Lock(y.second, y.first); th_hold(c, y.first, y.second, who); }
      for (int i = (int)r.below(3); i > 0; i--) sim_yield(); long cur = -1; uint8_t *ad = (uint8_t *)g[q] + 256 + 8 * mm; ARMCI_Get(ad, &cur, 8, q); long exp = __atomic_load_n(&TW->guarded[q][mm], __ATOMIC_RELAXED); CHECK(cur == exp, "guarded-data", "data guarded by mutex %d of process %d is %ld, the previous holder left %ld", mm, q, cur, exp); cur++; ARMCI_Put(&cur, ad, 8, q); ARMCI_Fence(q); __atomic_store_n(&TW->guarded[q][mm], cur, __ATOMIC_RELAXED);
      if (two && r.chance(50)) { th_drop(c, q, mm, who); ARMCI_Unlock(mm, q); th_drop(c, y.first, y.second, who); ARMCI_Unlock(y.second, y.first); } else { if (two) { th_drop(c, y.first, y.second, who); ARMCI_Unlock(y.second, y.first); } th_drop(c, q, mm, who); ARMCI_Unlock(mm, q); } } break;
    case 11: { int w = (int)r.below(4); if (w == 0) { void *l = ARMCI_Malloc_local(40); CHECK(l != nullptr, "rc", "Malloc_local"); memset(l, k, 40); ARMCI_Free_local(l); } else if (w == 1) ARMCIX_Progress(); else if (w == 2) ARMCI_WaitAll(); else { ARMCI_AllFence(); for (auto &d : dirty) std::fill(d.begin(), d.end(), 0); }
      for (auto &o : out) if (w >= 2 && false) finish(o); break; }
    }
  }
  for (auto &o : out) finish(o); for (int t = 0; t < n; t++) { ARMCI_Fence(t); memcpy(TW->model[me][k][t], model[t].data(), TH_AREA); } return nullptr;
}
static void th_churn(Case &c, int me) {
  ThPlan &p = *plan_of<ThPlan>(c); Rng s{sim_mix(c.seed, 60)}; int n = c.n; std::vector<std::vector<void *>> live;
  for (int i = 0; i < p.churn; i++) {
    int what = (int)s.below(4); bool fr = s.chance(60); long z = 16 + 8 * (long)s.below(40); std::vector<int> l = subset(s, n); std::sort(l.begin(), l.end());
    if (what < 2) { std::vector<void *> b(n); CHECK(ARMCI_Malloc(b.data(), z) == 0, "rc", "malloc"); memset(b[me], i, z); ARMCI_Barrier(); uint8_t x[16]; int t = (me + 1) % n; ARMCI_Get(b[t], x, 16, t); for (int j = 0; j < 16; j++) CHECK(x[j] == i, "churn-data", "byte %d of a new allocation is %d, expected %d", j, x[j], i); cnt(CN_ALLOC); ARMCI_Barrier(); if (fr) ARMCI_Free(b[me]); else live.push_back(b); }
    else if (what == 2) { ARMCI_Group g; ARMCI_Group_create((int)l.size(), l.data(), &g); auto it = std::find(l.begin(), l.end(), me); if (it != l.end()) { std::vector<void *> b(l.size()); CHECK(ARMCI_Malloc_group(b.data(), z, &g) == 0, "rc", "malloc group"); int j = (int)(it - l.begin()), q = (int)((j + 1) % l.size()); long v = 5 + me; ARMCI_Put(&v, b[q], 8, l[q]); ARMCI_Fence(l[q]); ARMCI_Free_group(b[j], &g); } ARMCI_Group_free(&g); cnt(CN_GROUP); }
    else if (!live.empty()) { ARMCI_Free(live.back()[me]); live.pop_back(); cnt(CN_FREE); } else ARMCI_Barrier();
  }
  for (auto &b : live) ARMCI_Free(b[me]);
}
static void th_run(int me, Case &c) {
  ThPlan &p = *plan_of<ThPlan>(c); int n = c.n; Rng s{sim_mix(c.seed, 61)}; if (me == 0) for (int q = 0; q < TH_MAXP; q++) for (int m = 0; m < TH_MTX; m++) TW->holder[q][m] = -1;
  armci_start(c); std::vector<std::vector<void *>> pre; for (int i = 0; i < p.regs; i++) { std::vector<void *> b(n); CHECK(ARMCI_Malloc(b.data(), 64) == 0, "rc", "malloc"); pre.push_back(b); }
  std::vector<void *> g(n); long sz = 1024 + (long)TH_MAXP * TH_MAXT * TH_AREA; CHECK(ARMCI_Malloc(g.data(), sz) == 0, "rc", "malloc"); memset(g[me], 0, sz); if (p.mcount) CHECK(ARMCI_Create_mutexes(p.mcount) == 0, "rc", "mutexes"); ARMCI_Barrier();
  std::vector<ThArg> args(p.T); std::vector<int> id; for (int k = 0; k < p.T; k++) { args[k] = {&c, me, k, &g, nullptr}; }
  bool main_works = !p.churn; for (int k = main_works ? 1 : 0; k < p.T; k++) { int t = sim_thread_create(th_body, &args[k]); if (t < 0) sim_fatal("HARNESS", "thread", "no thread"); id.push_back(t); }
  if (main_works) th_body(&args[0]); else th_churn(c, me);
  for (int t : id) sim_thread_join(t);
  ARMCI_Barrier();
  for (int q = 0; q < n; q++) for (int k = 0; k < p.T; k++) { uint8_t *a = (uint8_t *)g[me] + 1024 + (long)(q * TH_MAXT + k) * TH_AREA; for (int i = 0; i < TH_AREA; i++) CHECK(a[i] == TW->model[q][k][me][i], "final-data", "byte %d written by thread %d of process %d at process %d is %d, expected %d", i, k, q, me, a[i], TW->model[q][k][me][i]); cnt(CN_BYTES, TH_AREA); }
  for (int h = 0; h < TH_HOT; h++) { long v = h & 1 ? *(long *)((uint8_t *)g[me] + 8 * h) : *(int *)((uint8_t *)g[me] + 8 * h); CHECK(v == TW->hot[me][h], "rmw-sum", "counter %d is %ld after %ld additions of 1", h, v, TW->hot[me][h]); v = *(long *)((uint8_t *)g[me] + 128 + 8 * h); CHECK(v == TW->acc[me][h], "acc-sum", "accumulated total %ld, contributions sum to %ld", v, TW->acc[me][h]); }
  for (int m = 0; m < p.mcount; m++) { long v = *(long *)((uint8_t *)g[me] + 256 + 8 * m); CHECK(v == TW->guarded[me][m], "guarded-data", "guarded counter %ld, expected %ld", v, TW->guarded[me][m]); }
  ARMCI_Barrier(); if (p.mcount) ARMCI_Destroy_mutexes(); for (auto &b : pre) ARMCI_Free(b[me]); ARMCI_Free(g[me]); armci_stop(c);
}
static ScnReg r_th("THREADS", th_plan, th_run);
