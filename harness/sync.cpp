// Synchronisation workloads: mutexes, read-modify-write, fences, flags, hot accumulates, program order, direct access.
#include "h.h"
#include "util.h"
// ------------------------------------------------------------------ mutexes (C07, C08)
struct MtxLoc { int h, m, p; };
struct MtxPlan { int mode = 0, pattern = 0, rounds = 4, cycles = 1, ngrp = 0; std::vector<std::vector<int>> members; std::vector<std::vector<int>> counts; std::vector<MtxLoc> locs; bool msgs = false, data = false; };
struct MtxShm { int holder[256]; int wanted[256]; long value[256]; long acq[256]; int flag[8]; };
static void mtx_plan(Case &c) {
  cfg_sim(c, 1, 6, 12); cfg_env(c, 1); auto P = std::make_shared<MtxPlan>(); c.plan = P; Rng &r = c.rng; MtxPlan &p = *P;
  p.mode = (int)r.below(3); p.pattern = r.chance(25) && c.n >= 2 ? 1 : r.chance(30) ? 2 : 0; p.rounds = 2 + (int)r.below(c.thorough ? 14 : 6); p.cycles = r.chance(25) ? 2 : 1; p.msgs = r.chance(30); p.data = r.chance(60);
  int nh = p.mode == 0 ? 1 : 1 + (int)r.below(3);
  for (int h = 0; h < nh; h++) {
    std::vector<int> all(c.n); for (int i = 0; i < c.n; i++) all[i] = i;
    std::vector<int> mem = all; if (p.mode == 2 && c.n > 1) { shuffle(r, all); int k = 1 + (int)r.below(c.n); mem.assign(all.begin(), all.begin() + k); if (r.chance(50)) std::sort(mem.begin(), mem.end()); }
    std::vector<int> cn(mem.size()); bool any = false; for (auto &x : cn) { x = r.chance(25) ? 0 : 1 + (int)r.below(4); any |= x; } if (!any) cn[r.below(cn.size())] = 1 + (int)r.below(3);
    if (p.pattern == 2) { int big = (int)r.below(cn.size()); for (auto &x : cn) x = r.chance(50) ? 0 : 1; cn[big] = 1; }
    p.members.push_back(mem); p.counts.push_back(cn);
    for (size_t i = 0; i < mem.size(); i++) for (int m = 0; m < cn[i]; m++) p.locs.push_back({h, m, mem[i]});
  }
  if (p.pattern == 2) { std::vector<MtxLoc> q; q.push_back(p.locs[r.below(p.locs.size())]); p.locs = q; p.rounds += 4; }
  c.shm_size = sizeof(MtxShm); c.desc = fmt("%d ranks, interface %d, pattern %d, %d handle(s), %zu mutexes, %d rounds, %d cycle(s)", c.n, p.mode, p.pattern, nh, p.locs.size(), p.rounds, p.cycles);
}
static int fl_ge(void *a) { long *x = (long *)a; return *(int *)x[0] >= (int)x[1]; }
static void oob_wait(int *f, int v) { long a[2] = {(long)f, v}; sim_block_until(fl_ge, a, "harness signal"); }
static void oob_set(int *f, int v) { *f = v; sim_bump(); sim_yield(); }
static void mtx_run(int me, Case &c) {
  MtxPlan &p = *plan_of<MtxPlan>(c); MtxShm *S = (MtxShm *)c.shm; Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c); UserTraffic ut; ut.start(c.seed, me, c.n, MPI_COMM_WORLD);
  std::vector<void *> ptr(c.n); int L = (int)p.locs.size(); std::vector<void *> &gp = ptr;
  CHECK(ARMCI_Malloc(gp.data(), 8 * 256) == 0, "malloc-rc", "ARMCI_Malloc failed"); memset(gp[me], 0, 8 * 256);
  if (me == 0) for (int i = 0; i < 256; i++) S->holder[i] = -1;
  ARMCI_Barrier();
  for (int cyc = 0; cyc < p.cycles; cyc++) {
    std::vector<armcix_mutex_hdl_t> H(p.members.size(), nullptr); std::vector<ARMCI_Group> G(p.members.size()); std::vector<int> in(p.members.size(), 0);
    for (size_t h = 0; h < p.members.size(); h++) {
      auto &mem = p.members[h]; int slot = -1; for (size_t i = 0; i < mem.size(); i++) if (mem[i] == me) slot = (int)i;
      if (p.mode == 0) { in[h] = 1; CHECK(ARMCI_Create_mutexes(p.counts[h][slot]) == 0, "create-rc", "ARMCI_Create_mutexes returned nonzero"); }
      else {
        if (p.mode == 1) { ARMCI_Group_get_world(&G[h]); in[h] = 1; } else { ARMCI_Group_create((int)mem.size(), mem.data(), &G[h]); in[h] = slot >= 0; }
        if (in[h]) { H[h] = ARMCIX_Create_mutexes_hdl(p.counts[h][slot], &G[h]); CHECK(H[h] != nullptr, "create-rc", "mutex handle creation returned NULL"); }
      }
    }
    auto lockit = [&](int l, bool tr) { MtxLoc x = p.locs[l]; S->wanted[l]++; int rc = 0; bool other = S->holder[l] >= 0 || S->wanted[l] > 1;
      if (p.mode == 0) ARMCI_Lock(x.m, x.p); else if (tr) rc = ARMCIX_Trylock_hdl(H[x.h], x.m, x.p); else ARMCIX_Lock_hdl(H[x.h], x.m, x.p);
      cnt(CN_LOCK); S->wanted[l]--; 
      if (rc) { CHECK(other || S->holder[l] >= 0 || S->wanted[l], "trylock-fails-free", "trylock of mutex %d at process %d failed while nobody held or wanted it", x.m, x.p); return false; }
      CHECK(S->holder[l] < 0, "two-holders", "mutex %d at process %d (handle %d): granted to %d while held by %d", x.m, x.p, x.h, me, S->holder[l]);
      S->holder[l] = me; S->acq[l]++; feat(fh({70, (uint64_t)p.mode, (uint64_t)l, (uint64_t)me, (uint64_t)S->wanted[l]})); return true; };
    auto unlockit = [&](int l) { MtxLoc x = p.locs[l]; CHECK(S->holder[l] == me, "holder-changed", "mutex %d at process %d: holder became %d while %d held it", x.m, x.p, S->holder[l], me); S->holder[l] = -1; if (p.mode == 0) ARMCI_Unlock(x.m, x.p); else ARMCIX_Unlock_hdl(H[x.h], x.m, x.p); };
    auto critical = [&](int l) {
      for (int i = (int)r.below(4); i > 0; i--) { sim_yield(); CHECK(S->holder[l] == me, "holder-changed", "mutex %d at process %d: holder became %d while %d held it", p.locs[l].m, p.locs[l].p, S->holder[l], me); }
      if (p.data) { int home = (l * 7 + 3) % c.n; long v = -1; uint8_t *a = (uint8_t *)gp[home] + 8 * l; CHECK(ARMCI_Get(a, &v, 8, home) == 0, "rc", "ARMCI_Get failed"); CHECK(v == S->value[l], "guarded-data", "data guarded by mutex %d at process %d: holder %d read %ld, the previous holder left %ld", p.locs[l].m, p.locs[l].p, me, v, S->value[l]);
        long nv; if (r.chance(60)) { nv = (long)r.next(); ARMCI_Put(&nv, a, 8, home); } else { long one = 1, inc = 1 + (long)r.below(1000); nv = v + inc; ARMCI_Acc(ARMCI_ACC_LNG, &one, &inc, a, 8, home); } ARMCI_Fence(home); S->value[l] = nv; cnt(CN_READBACK); }
    };
    rank_barrier(c);
    std::vector<int> mine; for (int l = 0; l < L; l++) if (in[p.locs[l].h]) mine.push_back(l);
    if (p.pattern == 1 && L >= 2) {      // two distinct mutexes never wait for each other
      for (int k = 0; k < p.rounds; k++) { Rng q{sim_mix(c.seed, 5000 + k + 100 * cyc)}; int A = (int)q.below(L), B = (int)q.below(L); if (A == B) B = (A + 1) % L; 
        auto &ma = p.members[p.locs[A].h], &mb = p.members[p.locs[B].h]; int pa = ma[q.below(ma.size())], pb = mb[q.below(mb.size())]; if (pa == pb) pb = mb[(q.below(mb.size()) + 1) % mb.size()]; if (pa == pb) continue;
        int base = cyc * 1000 + k * 3;
        if (me == pa) { lockit(A, false); oob_set(&S->flag[0], base + 1); oob_wait(&S->flag[1], base + 1); critical(A); unlockit(A); oob_set(&S->flag[2], base + 1); }
        if (me == pb) { oob_wait(&S->flag[0], base + 1); lockit(B, q.chance(30)); critical(B); unlockit(B); oob_set(&S->flag[1], base + 1); oob_wait(&S->flag[2], base + 1); }
        rank_barrier(c); if (me == 0 && k == p.rounds - 1) { }
      }
    } else for (int k = 0; k < p.rounds; k++) {
      if (!mine.empty()) {
        int depth = 1 + (r.chance(30) ? (int)r.below(3) : 0); std::set<int> s; for (int i = 0; i < depth; i++) s.insert(mine[r.below(mine.size())]);
        std::vector<int> held; for (int l : s) if (lockit(l, r.chance(25))) { held.push_back(l); critical(l); }
        if (r.chance(30)) shuffle(r, held); for (size_t i = held.size(); i-- > 0;) { critical(held[i]); unlockit(held[i]); }
      }
      if (p.msgs) { int peer = me ^ 1; if (peer < c.n) { long v = me * 1000 + k, w = -1; int len = -1; int tag = 100 + k % 3; if (me < peer) { armci_msg_snd(tag, &v, 8, peer); armci_msg_rcv(tag, &w, 8, &len, peer); } else { armci_msg_rcv(tag, &w, 8, &len, peer); armci_msg_snd(tag, &v, 8, peer); } CHECK(w == peer * 1000 + k && len == 8, "msg-data", "user message during locking: got %ld length %d from %d", w, len, peer); cnt(CN_MSG); } }
    }
    rank_barrier(c);
    for (size_t h = 0; h < p.members.size(); h++) { if (p.mode == 0) CHECK(ARMCI_Destroy_mutexes() == 0, "destroy-rc", "ARMCI_Destroy_mutexes returned nonzero"); else { if (in[h]) CHECK(ARMCIX_Destroy_mutexes_hdl(H[h]) == 0, "destroy-rc", "mutex handle destruction returned nonzero"); if (p.mode == 2) ARMCI_Group_free(&G[h]); } }
  }
  ARMCI_Barrier(); CHECK(ARMCI_Free(gp[me]) == 0, "free-rc", "ARMCI_Free failed"); ut.finish(); armci_stop(c);
}
static ScnReg r_mtx("MUTEX", mtx_plan, mtx_run);

// ------------------------------------------------------------------ mutex fairness (C08): nobody is overtaken forever
struct FairPlan { int mode, idx, home, rounds, count; std::vector<int> mem, victim; };
struct FairShm { int holder, wanted[SIM_MAXR], in, done, grants; };
static void fair_plan(Case &c) {
  cfg_sim(c, 3, 6, 12); cfg_env(c, 1); c.sim.strat = STRAT_RANDOM; auto P = std::make_shared<FairPlan>(); c.plan = P; Rng &r = c.rng; FairPlan &p = *P; p.mode = (int)r.below(3); p.mem = range_vec(c.n);
  if (p.mode == 2) { shuffle(r, p.mem); if (c.n > 3) p.mem.resize(3 + r.below(c.n - 2)); } if (c.on("ARMCI_NONCOLLECTIVE_GROUPS")) std::sort(p.mem.begin(), p.mem.end());
  p.count = 1 + (int)r.below(3); p.idx = (int)r.below(p.count); p.home = p.mem[r.below(p.mem.size())]; p.rounds = 2 + (int)r.below(c.thorough ? 6 : 2); for (int i = 0; i < p.rounds; i++) p.victim.push_back(p.mem[r.below(p.mem.size())]);
  c.shm_size = sizeof(FairShm); c.desc = fmt("%d ranks, interface %d, %zu members, mutex %d at %d, %d rounds", c.n, p.mode, p.mem.size(), p.idx, p.home, p.rounds);
}
static void fair_run(int me, Case &c) {
  FairPlan &p = *plan_of<FairPlan>(c); volatile FairShm *S = (FairShm *)c.shm; Rng r{sim_mix(c.seed, 3100 + me)}; armci_start(c); if (me == 0) S->holder = -1; rank_barrier(c);
  bool in = std::find(p.mem.begin(), p.mem.end(), me) != p.mem.end(); ARMCI_Group g; armcix_mutex_hdl_t h = nullptr; int slot = (int)(std::find(p.mem.begin(), p.mem.end(), p.home) - p.mem.begin()); (void)slot;
  if (p.mode == 0) ARMCI_Create_mutexes(p.count); else { if (p.mode == 1) ARMCI_Group_get_world(&g); else ARMCI_Group_create((int)p.mem.size(), p.mem.data(), &g); if (in) h = ARMCIX_Create_mutexes_hdl(p.count, &g); }
  auto lock = [&] { cnt(CN_LOCK); if (p.mode == 0) ARMCI_Lock(p.idx, p.home); else ARMCIX_Lock_hdl(h, p.idx, p.home); CHECK(S->holder < 0, "two-holders", "mutex granted to %d while held by %d", me, S->holder); S->holder = me; };
  auto unlock = [&] { CHECK(S->holder == me, "holder-changed", "holder became %d while %d held the mutex", S->holder, me); S->holder = -1; if (p.mode == 0) ARMCI_Unlock(p.idx, p.home); else ARMCIX_Unlock_hdl(h, p.idx, p.home); };
  for (int k = 0; k < p.rounds; k++) {
    rank_barrier(c); if (me == 0) { S->in = S->done = S->grants = 0; } rank_barrier(c);
    if (in && me == p.victim[k]) {
      int delay = (int)r.below(400); for (int i = 0; i < delay; i++) sim_yield();
      S->in = 1; sim_bump(); lock(); S->done = 1; feat(fh({75, (uint64_t)p.mode, (uint64_t)S->grants, (uint64_t)p.mem.size()})); unlock();
    } else if (in) while (!S->done) {
      S->wanted[me] = 1; lock(); S->wanted[me] = 0; if (S->in && !S->done) { S->grants = S->grants + 1; CHECK(S->grants < 100, "starved", "process %d has been waiting for mutex %d at process %d while the others were granted it %d times", p.victim[k], p.idx, p.home, S->grants); }
      auto others = [&] { for (int m : p.mem) if (m != me && m != p.victim[k] && S->wanted[m]) return true; return false; };
      for (int i = 0; i < 400 && !others() && !S->done; i++) sim_yield();
      for (int i = 0; i < 150; i++) sim_yield();
      unlock();
    }
  }
  rank_barrier(c); if (p.mode == 0) ARMCI_Destroy_mutexes(); else { if (in) ARMCIX_Destroy_mutexes_hdl(h); if (p.mode == 2) ARMCI_Group_free(&g); } armci_stop(c);
}
static ScnReg r_fair("MUTEXFAIR", fair_plan, fair_run);

// ------------------------------------------------------------------ read-modify-write (C06)
struct RmwEv { int loc, op, rank; long val, res; uint64_t t0, t1; };
struct RmwPlan { int nloc; std::vector<int> lng, home, reg; std::vector<long> init; int ops, nreg; std::vector<std::vector<int>> members; bool spin; int plockind; int tight; std::vector<std::vector<long>> size; };
struct RmwShm { int n; int holder; long fin[32]; RmwEv ev[4096]; };
static void rmw_plan(Case &c) {
  cfg_sim(c, 1, 6, 12); cfg_env(c, 1); auto P = std::make_shared<RmwPlan>(); c.plan = P; Rng &r = c.rng; RmwPlan &p = *P;
  p.nreg = 1 + (int)r.below(2); for (int g = 0; g < p.nreg; g++) p.members.push_back(g == 0 ? range_vec(c.n) : subset(r, c.n));
  p.nloc = 1 + (int)r.below(r.chance(40) ? 2 : 6); p.ops = 2 + (int)r.below(c.thorough ? 24 : 9); p.spin = r.chance(20); p.plockind = (int)r.below(3);
  if (p.spin) { c.sim.strat = r.chance(50) ? STRAT_RANDOM : STRAT_RR; p.members.resize(p.nreg = 1); p.nloc = 2; }
  for (int i = 0; i < p.nloc; i++) { p.lng.push_back(r.chance(50)); int g = (int)r.below(p.nreg); p.reg.push_back(g); p.home.push_back(p.members[g][r.below(p.members[g].size())]); p.init.push_back(p.spin ? 0 : p.lng[i] ? (long)(r.next() >> 2) * (r.chance(50) ? 1 : -1) : (long)(int)r.range(-1000000000, 1000000000)); }
  // tight slices end with the last location, down to a single counter (and to nothing where a process hosts none)
  p.tight = r.chance(35) ? 1 + (int)r.below(2) : 0; if (p.tight) { p.plockind = (int)r.below(2); if (!p.spin && r.chance(60)) { p.nloc = 1; p.lng.resize(1); p.reg.resize(1); p.home.resize(1); p.init.resize(1); } }
  p.size.assign(p.nreg, std::vector<long>(c.n, p.tight ? 0 : 16 * 40)); if (p.tight) for (int l = 0; l < p.nloc; l++) { long e = 16 * l + (p.lng[l] ? 8 : 4); for (int q : p.members[p.reg[l]]) if (p.tight == 1 || q == p.home[l]) p.size[p.reg[l]][q] = std::max(p.size[p.reg[l]][q], e); }
  c.shm_size = sizeof(RmwShm); c.desc = fmt("%d ranks, %d locations, %d ops each, %s%s", c.n, p.nloc, p.ops, p.spin ? "spin lock on swap" : "mixed", p.tight ? ", slices without slack" : "");
}
static void rmw_run(int me, Case &c) {
  RmwPlan &p = *plan_of<RmwPlan>(c); RmwShm *S = (RmwShm *)c.shm; Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c); if (me == 0) S->holder = -1;
  std::vector<ARMCI_Group> G(p.nreg); std::vector<std::vector<void *>> ptr(p.nreg, std::vector<void *>(c.n, nullptr)); std::vector<int> in(p.nreg);
  for (int g = 0; g < p.nreg; g++) { auto &m = p.members[g]; in[g] = std::count(m.begin(), m.end(), me) > 0; std::vector<void *> q(m.size());
    if (g == 0) { CHECK(ARMCI_Malloc(q.data(), p.size[0][me]) == 0, "malloc-rc", "ARMCI_Malloc failed"); } else { ARMCI_Group_create((int)m.size(), m.data(), &G[g]); if (in[g]) CHECK(ARMCI_Malloc_group(q.data(), p.size[g][me], &G[g]) == 0, "malloc-rc", "ARMCI_Malloc_group failed"); }
    if (in[g]) for (size_t i = 0; i < m.size(); i++) ptr[g][m[i]] = q[i]; }
  for (int g = 0; g < p.nreg; g++) if (in[g] && p.size[g][me]) memset(ptr[g][me], 0x5A, p.size[g][me]);
  auto addr = [&](int l) { return (uint8_t *)ptr[p.reg[l]][p.home[l]] + 16 * l; };
  for (int l = 0; l < p.nloc; l++) if (in[p.reg[l]] && p.home[l] == me) { if (p.lng[l]) memcpy(addr(l), &p.init[l], 8); else { int v = (int)p.init[l]; memcpy(addr(l), &v, 4); } }
  ARMCI_Barrier();
  uint8_t *lb = p.plockind == 2 ? (uint8_t *)ptr[0][me] + 16 * 36 : p.plockind == 1 ? (uint8_t *)ARMCI_Malloc_local(64) : (uint8_t *)malloc(64);
  memset(lb, 0x77, 40);
  auto rmw = [&](int l, bool swap, long val) -> long {
    uint8_t *pl = lb + 8; memset(lb, 0x77, 40); int op; int iv = swap ? (int)r.next() : (int)val; if (p.lng[l]) { op = swap ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG; if (swap) memcpy(pl, &val, 8); } else { op = swap ? ARMCI_SWAP : ARMCI_FETCH_AND_ADD; if (swap) { int v = (int)val; memcpy(pl, &v, 4); } }
    if (swap) iv = (int)r.below(100);        // the value argument is ignored by swap
    uint64_t t0 = sim_steps(); int rc = ARMCI_Rmw(op, pl, addr(l), iv, p.home[l]); uint64_t t1 = sim_steps(); CHECK(rc == 0, "rc", "ARMCI_Rmw returned %d", rc); cnt(CN_RMW);
    int w = p.lng[l] ? 8 : 4; for (int i = 0; i < 40; i++) if (i < 8 || i >= 8 + w) CHECK(lb[i] == 0x77, "rmw-local-stray", "ARMCI_Rmw (%d bytes wide) changed byte %d next to its local operand", w, i - 8);
    long res; if (p.lng[l]) memcpy(&res, pl, 8); else { int v; memcpy(&v, pl, 4); res = v; }
    int k = S->n++; if (k < 4096) S->ev[k] = {l, swap, me, swap ? (p.lng[l] ? val : (long)(int)val) : val, res, t0, t1}; cnt(CN_EVENT); feat(fh({71, (uint64_t)op, (uint64_t)(p.home[l] == me), (uint64_t)p.plockind, (uint64_t)p.reg[l]})); return res; };
  if (p.spin) {
    for (int k = 0; k < p.ops && k < 6; k++) { while (rmw(0, true, 1) != 0) { sim_yield(); if (S->n > 3500) break; } if (S->n > 3500) break;
      CHECK(S->holder < 0, "spin-two-holders", "swap spin lock granted to %d while %d holds it", me, S->holder); S->holder = me; for (int i = (int)r.below(3); i > 0; i--) sim_yield(); CHECK(S->holder == me, "spin-two-holders", "swap spin lock lost by %d", me); S->holder = -1; rmw(0, true, 0); rmw(1, false, 1); }
  } else for (int k = 0; k < p.ops; k++) { std::vector<int> can; for (int l = 0; l < p.nloc; l++) if (in[p.reg[l]]) can.push_back(l); if (can.empty()) break; int l = can[r.below(can.size())]; bool swap = r.chance(35); long v = swap ? (p.lng[l] ? (long)r.next() >> 1 : (long)(int)r.range(-1000000000, 1000000000)) : (long)r.range(-30000000, 30000000); rmw(l, swap, v); if (r.chance(30)) sim_yield(); }
  if (p.plockind == 0) free(lb); else if (p.plockind == 1) ARMCI_Free_local(lb); else memset((uint8_t *)ptr[0][me] + 16 * 36, 0x5A, 40);
  ARMCI_Barrier();
  for (int l = 0; l < p.nloc; l++) if (in[p.reg[l]] && p.home[l] == me) { if (p.lng[l]) memcpy(&S->fin[l], addr(l), 8); else { int v; memcpy(&v, addr(l), 4); S->fin[l] = v; } }
  for (int g = 0; g < p.nreg; g++) if (in[g]) for (long b = 0; b < p.size[g][me]; b++) { int l = (int)(b / 16); int w = l < p.nloc && p.reg[l] == g && p.home[l] == me ? (p.lng[l] ? 8 : 4) : 0; if (b % 16 >= w) CHECK(((uint8_t *)ptr[g][me])[b] == 0x5A, "rmw-remote-stray", "byte %ld of the slice was changed by atomics on location %d of width %d", b, l, w); }
  ARMCI_Barrier();
  for (int g = p.nreg - 1; g >= 0; g--) { if (g == 0) ARMCI_Free(ptr[0][me]); else { if (in[g]) ARMCI_Free_group(ptr[g][me], &G[g]); ARMCI_Group_free(&G[g]); } }
  armci_stop(c);
}
static bool lin_dfs(std::vector<RmwEv *> &e, uint64_t done, long st, bool lng, long fin, std::set<std::pair<uint64_t, long>> &seen, int &budget) {
  size_t n = e.size(); if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return st == fin;
  if (budget-- < 0) return true; if (!seen.insert({done, st}).second) return false;
  uint64_t lim = ~0ull; for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) lim = std::min(lim, e[i]->t1);
  for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && e[i]->t0 < lim && e[i]->res == st) { long ns = e[i]->op ? e[i]->val : lng ? (long)((unsigned long)st + (unsigned long)e[i]->val) : (long)(int)((unsigned)st + (unsigned)e[i]->val); if (lin_dfs(e, done | 1ull << i, ns, lng, fin, seen, budget)) return true; }
  return false;
}
static void rmw_post(Case &c, SimOutcome &) {
  RmwPlan &p = *plan_of<RmwPlan>(c); RmwShm *S = (RmwShm *)c.shm; if (S->n > 4096) return;
  for (int l = 0; l < p.nloc; l++) { std::vector<RmwEv *> e; for (int k = 0; k < S->n; k++) if (S->ev[k].loc == l) e.push_back(&S->ev[k]);
    cnt(CN_EVAL); if (e.size() > 60) {   // too long for the full search: the operations, as steps from the fetched to the stored value, must form one walk from the initial to the final value
      std::map<long, long> deg; std::map<long, std::vector<long>> adj; for (auto x : e) { long ns = x->op ? x->val : p.lng[l] ? (long)((unsigned long)x->res + (unsigned long)x->val) : (long)(int)((unsigned)x->res + (unsigned)x->val); deg[x->res]++; deg[ns]--; adj[x->res].push_back(ns); adj[ns].push_back(x->res); }
      deg[p.init[l]]--; deg[S->fin[l]]++; std::set<long> seen{p.init[l]}; std::vector<long> q{p.init[l]}; while (!q.empty()) { long v = q.back(); q.pop_back(); for (long w : adj[v]) if (seen.insert(w).second) q.push_back(w); }
      for (auto &d : deg) if (d.second) { post_fail("ORACLE", "rmw-no-walk", "location %d, %zu operations from %ld to %ld: value %ld was left %ld time(s) more often than it was reached", l, e.size(), p.init[l], S->fin[l], d.first, d.second); break; } for (auto x : e) if (!seen.count(x->res)) { post_fail("ORACLE", "rmw-no-walk", "location %d: value %ld was fetched but is not reachable from the initial value", l, x->res); break; } continue; }
    std::set<std::pair<uint64_t, long>> seen; int budget = 200000; if (!lin_dfs(e, 0, p.init[l], p.lng[l], S->fin[l], seen, budget)) { std::string h; for (auto x : e) h += fmt("[%d %s %ld -> %ld @%llu-%llu] ", x->rank, x->op ? "swap" : "add", x->val, x->res, (unsigned long long)x->t0, (unsigned long long)x->t1); post_fail("ORACLE", "rmw-not-linearizable", "%s location %d, initial %ld, final %ld: %s", p.lng[l] ? "long" : "int", l, p.init[l], S->fin[l], h.substr(0, 800).c_str()); } }
}
static ScnReg r_rmw("RMW", rmw_plan, rmw_run, rmw_post);

// ------------------------------------------------------------------ lanes: fence, flag and direct-access publication (C09, C10, C30)
// Each writer owns lanes of global memory at various targets.  A message = new lane contents + publication
// (fence + out-of-band signal, or a flag in global memory, or direct access + signal); the reader must see the contents.
enum { PB_FENCE, PB_ALLFENCE, PB_FLAG, PB_SFLAG, PB_DIRECT, PB_BARRIERLESS };
struct Lane { int writer, target, reader, region; long off, len; int flagoff; };
struct LanePlan { int focus; int msgs; std::vector<Lane> lanes; std::vector<std::vector<int>> regm; long slice; int decoys; bool tiny; long sb; };
struct LaneShm { int posted[64], acked[64], kind[64]; int done; uint8_t exp[64][256]; };
static void lane_plan(Case &c, int focus) {
  cfg_sim(c, 1, 5, 12); cfg_env(c, 1); if (focus == 1 && c.n == 1 && c.rng.chance(80)) c.n = 2; auto P = std::make_shared<LanePlan>(); c.plan = P; Rng &r = c.rng; LanePlan &p = *P; p.focus = focus;
  p.msgs = 2 + (int)r.below(c.thorough ? 12 : 5); int nr = 1 + (int)r.below(3); for (int g = 0; g < nr; g++) p.regm.push_back(g == 0 || r.chance(40) ? range_vec(c.n) : subset(r, c.n));
  std::vector<std::vector<long>> used(nr, std::vector<long>(c.n, 16)); p.slice = 16 * 300; p.decoys = (int)r.below(4); if (focus == 2 && r.chance(40)) { c.sim.win_separate = 1; env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY"); }
  // some writers send from buffers that lie in global memory themselves
  p.sb = !c.sim.win_separate && r.chance(45) ? 16384 : 0; if (p.sb && r.chance(60)) env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY");
  int nl = 1 + (int)r.below(2 * c.n + 2); p.tiny = focus == 2 && r.chance(25); if (p.tiny) p.slice = 1 + (long)r.below(r.chance(70) ? 7 : 24);
  if (p.tiny) for (int i = 0; i < nl && i < 40; i++) { int g = (int)r.below(nr); auto &m = p.regm[g]; int t = m[r.below(m.size())]; if (used[g][t] == 0) continue; used[g][t] = 0; p.lanes.push_back({r.chance(60) ? t : m[r.below(m.size())], t, m[r.below(m.size())], g, 0, p.slice, -1}); }
  else for (int i = 0; i < nl && i < 40; i++) { int g = (int)r.below(nr); auto &m = p.regm[g]; Lane l; l.region = g; l.target = m[r.below(m.size())]; l.writer = focus == 2 && r.chance(60) ? l.target : m[r.below(m.size())]; l.reader = focus != 1 || r.chance(25) ? m[r.below(m.size())] : l.target; l.len = 8 * (1 + (long)r.below(r.chance(30) ? 30 : 8));
    long &u = used[g][l.target]; l.flagoff = (int)u; l.off = u + 16; if (u + 32 + l.len > p.slice) continue; u += 32 + (l.len + 15) / 16 * 16; p.lanes.push_back(l); }
  if (p.lanes.empty()) p.lanes.push_back({0, 0, 0, 0, 32, 8, 16});
  c.shm_size = sizeof(LaneShm); c.desc = fmt("%d ranks, %zu lanes in %d allocations of %ld bytes, %d messages each", c.n, p.lanes.size(), nr, p.slice, p.msgs);
}
static void lane_run(int me, Case &c) {
  LanePlan &p = *plan_of<LanePlan>(c); LaneShm *S = (LaneShm *)c.shm; Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c); int nr = (int)p.regm.size(), nl = (int)p.lanes.size();
  std::vector<ARMCI_Group> G(nr); std::vector<std::vector<void *>> ptr(nr, std::vector<void *>(c.n, nullptr)); std::vector<int> in(nr), world(nr);
  for (int g = 0; g < nr; g++) { auto &m = p.regm[g]; world[g] = (int)m.size() == c.n && g == 0; in[g] = std::count(m.begin(), m.end(), me) > 0; std::vector<void *> q(m.size());
    if (world[g]) { CHECK(ARMCI_Malloc(q.data(), p.slice) == 0, "malloc-rc", "ARMCI_Malloc failed"); } else { ARMCI_Group_create((int)m.size(), m.data(), &G[g]); if (in[g]) CHECK(ARMCI_Malloc_group(q.data(), p.slice, &G[g]) == 0, "malloc-rc", "ARMCI_Malloc_group failed"); }
    if (in[g]) { for (size_t i = 0; i < m.size(); i++) ptr[g][m[i]] = q[i]; memset(ptr[g][me], 0x11, p.slice); } }
  for (int l = 0; l < nl; l++) if (in[p.lanes[l].region] && p.lanes[l].target == me) { if (!p.tiny) memset((uint8_t *)ptr[p.lanes[l].region][me] + p.lanes[l].flagoff, 0, 4); memset((uint8_t *)ptr[p.lanes[l].region][me] + p.lanes[l].off, 0, p.lanes[l].len); }
  ARMCI_Barrier(); ARMCI_AllFence(); rank_barrier(c);
  std::vector<void *> sbp(c.n, nullptr); if (p.sb) { CHECK(ARMCI_Malloc(sbp.data(), p.sb) == 0, "malloc-rc", "ARMCI_Malloc failed"); } long sbo = 0;
  auto stage = [&](long n, std::vector<void *> *own) -> uint8_t * { n = (n + 15) / 16 * 16; if (p.sb && sbo + n <= p.sb && r.chance(60)) { uint8_t *q = (uint8_t *)sbp[me] + sbo; sbo += n; return q; } uint8_t *q = (uint8_t *)malloc(n); own->push_back(q); return q; };
  std::vector<int> sent(nl, 0), seen(nl, 0); std::vector<std::vector<uint8_t>> cur(nl); for (int l = 0; l < nl; l++) cur[l].assign(p.lanes[l].len, 0);
  auto base_of = [&](int l) { return (void *)ptr[p.lanes[l].region][p.lanes[l].target]; }; auto P = [&](int l) { return (uint8_t *)ptr[p.lanes[l].region][p.lanes[l].target] + p.lanes[l].off; };
  auto F = [&](int l) { return (int *)((uint8_t *)ptr[p.lanes[l].region][p.lanes[l].target] + p.lanes[l].flagoff); };
  auto poll = [&]() {
    for (int l = 0; l < nl; l++) { Lane &L = p.lanes[l]; if (L.reader != me || S->posted[l] <= seen[l]) continue; int kind = S->kind[l]; int k = seen[l] + 1; const char *how = kind == PB_FLAG || kind == PB_SFLAG ? "flag" : kind == PB_DIRECT ? "direct write" : "fence";
      if (kind == PB_FLAG || kind == PB_SFLAG) { int f = -1; if (me == L.target) f = *(volatile int *)F(l); else { CHECK(ARMCI_Get(F(l), &f, 4, L.target) == 0, "rc", "ARMCI_Get failed"); }
        CHECK(f == k || f == k - 1, "flag-value", "flag holds %d: neither the previous value %d nor the new value %d", f, k - 1, k); if (f != k) { sim_yield(); continue; } }
      std::vector<uint8_t> b(L.len, 0xEE); bool direct = me == L.target && (r.chance(60) || c.sim.win_separate);
      if (direct) { bool br = r.chance(60) || c.sim.win_separate; void *ap = r.chance(40) ? base_of(l) : (void *)P(l); if (br) ARMCI_Access_begin(ap); memcpy(b.data(), P(l), L.len); if (br) ARMCI_Access_end(ap); cnt(CN_DIRECT); } else { CHECK(ARMCI_Get(P(l), b.data(), (int)L.len, L.target) == 0, "rc", "ARMCI_Get failed"); cnt(CN_GET); }
      for (long i = 0; i < L.len; i++) CHECK(b[i] == S->exp[l][i], "published-data", "%s by %d at %d: byte %ld read %s by %d is %02x, expected %02x (message %d of the lane)", how, L.writer, L.target, i, direct ? "directly" : "with get", me, b[i], S->exp[l][i], k);
      cnt(CN_READBACK); feat(fh({72, (uint64_t)kind, (uint64_t)(L.writer == L.target), (uint64_t)(L.reader == L.target), (uint64_t)L.region, (uint64_t)direct})); seen[l] = k; S->acked[l] = k; sim_bump(); }
  };
  // nothing obliges the library to make an unfenced flag visible while its sender idles: idle senders fence now and then
  int idle = 0, todo = 0; for (int l = 0; l < nl; l++) if (p.lanes[l].writer == me) todo += p.msgs;
  std::vector<armci_hdl_t> pend; std::vector<void *> pbuf;
  while (todo > 0) {
    std::vector<int> can; for (int l = 0; l < nl; l++) if (p.lanes[l].writer == me && sent[l] < p.msgs && S->acked[l] == sent[l]) can.push_back(l);
    poll(); if (can.empty()) { if (++idle % 24 == 0) ARMCI_AllFence(); sim_yield(); continue; }
    int l = can[r.below(can.size())]; Lane &L = p.lanes[l]; int k = ++sent[l]; todo--; int kind = p.focus == 1 ? (r.chance(60) ? PB_FLAG : PB_SFLAG) : p.focus == 2 && L.writer == L.target && (r.chance(80) || c.sim.win_separate) ? PB_DIRECT : (r.chance(50) ? PB_FENCE : PB_ALLFENCE);
    std::vector<uint8_t> nw = cur[l]; int n8 = (int)(L.len / 8);
    if (kind == PB_FLAG || kind == PB_SFLAG) { for (auto &x : nw) x = (uint8_t)r.next(); memcpy(S->exp[l], nw.data(), L.len); S->kind[l] = kind; int rc;
      // the reader may look at the flag from now on
      S->posted[l] = k; sim_bump();
      uint8_t *src = nw.data(); if (p.sb && r.chance(70)) { src = (uint8_t *)sbp[me] + 16 * r.below(8); memcpy(src, nw.data(), L.len); }
      if (kind == PB_FLAG) rc = ARMCI_Put_flag(src, P(l), (int)L.len, F(l), k, L.target); else { int lev = n8 % 2 == 0 ? 1 : 0; int cn[2] = {lev ? 8 * (n8 / 2) : (int)L.len, 2}; int st[1] = {8 * (n8 / 2)}; rc = ARMCI_PutS_flag(src, st, P(l), st, cn, lev, F(l), k, L.target); }
      CHECK(rc == 0, kind == PB_FLAG ? "rc-putflag" : "rc-putsflag", "flagged put returned %d", rc); cnt(CN_PUT); cur[l] = nw; continue; }
    if (kind == PB_DIRECT) { bool br = true; void *ap = r.chance(40) ? base_of(l) : (void *)P(l); if (br) ARMCI_Access_begin(ap); for (auto &x : nw) x = (uint8_t)r.next(); memcpy(P(l), nw.data(), L.len); if (br) ARMCI_Access_end(ap); cnt(CN_DIRECT); }
    else {
      if (p.tiny) { uint8_t one[32]; for (auto &x : nw) x = (uint8_t)r.next(); memcpy(one, nw.data(), L.len); CHECK(ARMCI_Put(one, P(l), (int)L.len, L.target) == 0, "rc", "ARMCI_Put failed"); cnt(CN_PUT); n8 = 0; }
      int pieces = 1 + (int)r.below(3); std::vector<int> cuts{0, n8}; for (int i = 1; i < pieces; i++) cuts.push_back((int)r.below(n8 + 1)); std::sort(cuts.begin(), cuts.end());
      for (size_t q = 0; q + 1 < cuts.size(); q++) { int a = cuts[q], b = cuts[q + 1]; if (a == b) continue; long n = 8 * (b - a); uint8_t *dst = P(l) + 8 * a; bool nb = r.chance(50); bool imp = r.chance(30); armci_hdl_t h; ARMCI_INIT_HANDLE(&h); uint8_t *buf = stage(n, &pbuf); int rc = 0, form = (int)r.below(5); long one = 1;
        if (form == 4 || form == 3) { for (int i = 0; i < b - a; i++) { long inc = (long)r.below(100000), old; memcpy(buf + 8 * i, &inc, 8); memcpy(&old, &nw[8 * (a + i)], 8); old = (long)((unsigned long)old + (unsigned long)inc); memcpy(&nw[8 * (a + i)], &old, 8); } }
        else for (long i = 0; i < n; i++) nw[8 * a + i] = buf[i] = (uint8_t)r.next();
        armci_hdl_t *hp = imp ? nullptr : &h;
        std::vector<void *> sp, dp; for (int i = 0; i < b - a; i++) { sp.push_back(buf + 8 * i); dp.push_back(dst + 8 * i); } shuffle2(r, sp, dp); armci_giov_t v{sp.data(), dp.data(), 8, b - a}; int cn[2] = {8, b - a}, st[1] = {8};
        switch (form) {
          case 0: rc = nb ? ARMCI_NbPut(buf, dst, (int)n, L.target, hp) : ARMCI_Put(buf, dst, (int)n, L.target); break;
          case 1: rc = nb ? ARMCI_NbPutS(buf, st, dst, st, cn, 1, L.target, hp) : ARMCI_PutS(buf, st, dst, st, cn, 1, L.target); break;
          case 2: rc = nb ? ARMCI_NbPutV(&v, 1, L.target, hp) : ARMCI_PutV(&v, 1, L.target); break;
          case 3: rc = nb ? ARMCI_NbAcc(ARMCI_ACC_LNG, &one, buf, dst, (int)n, L.target, hp) : ARMCI_Acc(ARMCI_ACC_LNG, &one, buf, dst, (int)n, L.target); break;
          default: rc = nb ? ARMCI_NbAccV(ARMCI_ACC_LNG, &one, &v, 1, L.target, hp) : ARMCI_AccV(ARMCI_ACC_LNG, &one, &v, 1, L.target); break; }
        CHECK(rc == 0, "rc", "one-sided call (form %d, nb %d) returned %d", form, nb, rc); cnt(nb ? CN_NB : CN_PUT); feat(fh({73, (uint64_t)form, (uint64_t)nb, (uint64_t)imp, (uint64_t)kind}));
        if (nb && hp) { if (r.chance(30)) ARMCI_Wait(&h); else pend.push_back(h); } }
      for (int d = (int)r.below(p.decoys + 1); d > 0; d--) { long x; int q = (int)r.below(nl); if (in[p.lanes[q].region]) { uint8_t *a = (uint8_t *)ptr[p.lanes[q].region][p.lanes[q].target]; ARMCI_Get(a, &x, (int)std::min(8L, p.slice), p.lanes[q].target); } }
      if (kind == PB_FENCE) ARMCI_Fence(L.target); else ARMCI_AllFence(); cnt(CN_FENCE);
      if (r.chance(40)) { for (auto &h : pend) ARMCI_Wait(&h); pend.clear(); ARMCI_WaitAll(); for (void *b : pbuf) free(b); pbuf.clear(); sbo = 0; }
    }
    cur[l] = nw; memcpy(S->exp[l], nw.data(), L.len); S->kind[l] = kind; S->posted[l] = k; sim_bump();
    if (r.chance(50)) sim_yield();
  }
  for (auto &h : pend) ARMCI_Wait(&h); ARMCI_WaitAll(); for (void *b : pbuf) free(b);
  S->done++; sim_bump(); for (;;) { poll(); bool all = S->done >= c.n; for (int l = 0; l < nl; l++) if (S->acked[l] < p.msgs) all = false; if (all) break; if (++idle % 24 == 0) ARMCI_AllFence(); sim_yield(); }
  rank_barrier(c);
  if (c.sim.win_separate) for (int g = 0; g < nr; g++) if (in[g]) ARMCI_Access_begin(ptr[g][me]);
  for (int g = 0; g < nr; g++) if (in[g]) { std::vector<uint8_t> m(p.slice, 0x11); for (int l = 0; l < nl; l++) if (p.lanes[l].region == g && p.lanes[l].target == me) { memcpy(&m[p.lanes[l].off], S->exp[l], p.lanes[l].len); if (p.tiny) continue; int fv; memcpy(&fv, (uint8_t *)ptr[g][me] + p.lanes[l].flagoff, 4); CHECK(p.focus == 1 ? fv == p.msgs : fv == 0, "flag-value", "flag holds %d at the end", fv); memcpy(&m[p.lanes[l].flagoff], &fv, 4); } 
    for (long i = 0; i < p.slice; i++) CHECK(m[i] == ((uint8_t *)ptr[g][me])[i], "memory-stray", "byte %ld of the slice of %d (allocation %d) changed although nobody wrote it", i, me, g); }
  ARMCI_Barrier(); if (p.sb) CHECK(ARMCI_Free(sbp[me]) == 0, "free-rc", "ARMCI_Free failed");
  for (int g = nr - 1; g >= 0; g--) { if (world[g]) ARMCI_Free(ptr[g][me]); else { if (in[g]) ARMCI_Free_group(ptr[g][me], &G[g]); ARMCI_Group_free(&G[g]); } }
  armci_stop(c);
}
static ScnReg r_fence("FENCE", [](Case &c) { lane_plan(c, 0); }, lane_run), r_flag("PUTFLAG", [](Case &c) { lane_plan(c, 1); }, lane_run), r_access("ACCESS", [](Case &c) { lane_plan(c, 2); }, lane_run);

// ------------------------------------------------------------------ barriers as synchronisation of direct access (C30, C19)
// Every round writes slices directly or remotely, passes a barrier and reads directly (without brackets) or remotely.
struct SynPlan { int rounds, len; bool syncs; std::vector<std::vector<int>> regm; std::vector<std::vector<int>> bgrp; uint64_t seed; };
static void syn_plan(Case &c) {
  cfg_sim(c, 1, 6, 12); cfg_env(c, 1); auto P = std::make_shared<SynPlan>(); c.plan = P; Rng &r = c.rng; SynPlan &p = *P; p.rounds = 3 + (int)r.below(c.thorough ? 12 : 6); p.len = 8 << r.below(5); p.seed = r.next();
  p.syncs = r.chance(75); env_set(c, "ARMCI_MSG_BARRIER_SYNCS", p.syncs ? r.pick({"1", "y", "TRUE"}) : "0"); if (r.chance(70)) { c.sim.win_separate = 1; env_set(c, "ARMCI_SHR_BUF_METHOD", "COPY"); }
  int nr = 1 + (int)r.below(3); for (int g = 0; g < nr; g++) p.regm.push_back(g == 0 || r.chance(40) ? range_vec(c.n) : subset(r, c.n)); int nb = 1 + (int)r.below(2); for (int i = 0; i < nb; i++) { auto m = r.chance(30) ? range_vec(c.n) : subset(r, c.n); std::sort(m.begin(), m.end()); p.bgrp.push_back(m); } for (auto &m : p.regm) std::sort(m.begin(), m.end());
  c.desc = fmt("%d ranks, %d rounds over %d allocations, message barriers %s, %s windows", c.n, p.rounds, nr, p.syncs ? "synchronise" : "do not synchronise", c.sim.win_separate ? "separate" : "default");
}
static void syn_run(int me, Case &c) {
  SynPlan &p = *plan_of<SynPlan>(c); armci_start(c); int nr = (int)p.regm.size(), nb = (int)p.bgrp.size(); bool sep = c.sim.win_separate; std::vector<ARMCI_Group> G(nr), B(nb); ARMCI_Group W; ARMCI_Group_get_world(&W); std::vector<std::vector<void *>> ptr(nr, std::vector<void *>(c.n, nullptr)); auto has = [](const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  for (int g = 0; g < nr; g++) { auto &m = p.regm[g]; std::vector<void *> q(m.size()); if (g == 0) CHECK(ARMCI_Malloc(q.data(), p.len) == 0, "malloc-rc", "ARMCI_Malloc failed"); else { ARMCI_Group_create((int)m.size(), m.data(), &G[g]); if (has(m, me)) CHECK(ARMCI_Malloc_group(q.data(), p.len, &G[g]) == 0, "malloc-rc", "ARMCI_Malloc_group failed"); } if (has(m, me)) for (size_t i = 0; i < m.size(); i++) ptr[g][m[i]] = q[i]; }
  for (int i = 0; i < nb; i++) ARMCI_Group_create((int)p.bgrp[i].size(), p.bgrp[i].data(), &B[i]);
  Rng sh{p.seed};
  for (int k = 0; k < p.rounds; k++) {
    int kind = (int)sh.below(4); if (sep && !p.syncs) kind = 0; int bg = (int)sh.below(nb); std::vector<int> part = kind == 3 ? p.bgrp[bg] : range_vec(c.n); bool synced = kind == 0 || p.syncs || !sep, in = has(part, me); (void)synced;
    struct W1 { int g, owner, writer, reader; bool get2; }; std::vector<W1> w; for (int g = 0; g < nr; g++) for (int o : p.regm[g]) { if (!has(part, o)) continue; std::vector<int> can; for (int x : p.regm[g]) if (has(part, x)) can.push_back(x); W1 a{g, o, sh.chance(50) ? o : can[sh.below(can.size())], sh.chance(60) ? o : can[sh.below(can.size())], sh.chance(30)}; if (!sh.chance(25)) w.push_back(a); }
    uint64_t rs = sh.next(); auto pat = [&](const W1 &a, int i) { return (uint8_t)sim_mix(rs + a.g * 64 + a.owner, i); }; Rng r{sim_mix(rs, me)};
    if (in) {
      for (auto &a : w) if (a.writer == me) { uint8_t *q = (uint8_t *)ptr[a.g][a.owner]; if (r.chance(20)) { for (int i = 0; i < p.len; i += 8) { long v; uint8_t t8[8]; for (int j = 0; j < 8; j++) t8[j] = pat(a, i + j); memcpy(&v, t8, 8); CHECK(ARMCI_Rmw(ARMCI_SWAP_LONG, &v, q + i, 0, a.owner) == 0, "rc", "ARMCI_Rmw failed"); } cnt(CN_RMW); if (kind) ARMCI_Fence(a.owner); } else if (a.owner == me) { bool br = kind == 0 ? sep || r.chance(50) : r.chance(30); if (br) ARMCI_Access_begin(q); for (int i = 0; i < p.len; i++) q[i] = pat(a, i); if (br) ARMCI_Access_end(q); cnt(CN_DIRECT); }
        else { std::vector<uint8_t> b(p.len); for (int i = 0; i < p.len; i++) b[i] = pat(a, i); if (r.chance(30)) { ARMCI_NbPut(b.data(), q, p.len, a.owner, nullptr); ARMCI_WaitAll(); } else CHECK(ARMCI_Put(b.data(), q, p.len, a.owner) == 0, "rc", "ARMCI_Put failed"); cnt(CN_PUT); if (kind) { if (r.chance(50)) ARMCI_Fence(a.owner); else ARMCI_AllFence(); cnt(CN_FENCE); } } }
      switch (kind) { case 0: ARMCI_Barrier(); break; case 1: armci_msg_barrier(); break; case 2: armci_msg_group_barrier(&W); break; default: armci_msg_group_barrier(&B[bg]); } cnt(CN_COLL);
      for (auto &a : w) if (a.reader == me) { uint8_t *q = (uint8_t *)ptr[a.g][a.owner]; std::vector<uint8_t> b(p.len, 0xA7); bool direct = a.owner == me && !a.get2; if (direct) { memcpy(b.data(), q, p.len); cnt(CN_DIRECT); } else { CHECK(ARMCI_Get(q, b.data(), p.len, a.owner) == 0, "rc", "ARMCI_Get failed"); cnt(CN_GET); }
        for (int i = 0; i < p.len; i++) CHECK(b[i] == pat(a, i), "barrier-data", "round %d: byte %d of the slice of %d (allocation %d) written %s by %d before %s reads as %02x %s by %d after it, expected %02x", k, i, a.owner, a.g, a.writer == a.owner ? "directly" : "with put", a.writer, kind == 0 ? "ARMCI_Barrier" : kind == 1 ? "armci_msg_barrier" : kind == 2 ? "armci_msg_group_barrier of the world" : "armci_msg_group_barrier", b[i], direct ? "directly" : "with get", me, pat(a, i));
        cnt(CN_READBACK); feat(fh({75, (uint64_t)kind, (uint64_t)sep, (uint64_t)p.syncs, (uint64_t)direct, (uint64_t)(a.writer == a.owner), (uint64_t)(a.writer == me), (uint64_t)part.size()})); }
    }
    rank_barrier(c);
  }
  ARMCI_Barrier(); for (int g = nr - 1; g > 0; g--) { if (has(p.regm[g], me)) CHECK(ARMCI_Free_group(ptr[g][me], &G[g]) == 0, "free-rc", "free failed"); ARMCI_Group_free(&G[g]); } for (auto &b : B) ARMCI_Group_free(&b); CHECK(ARMCI_Free(ptr[0][me]) == 0, "free-rc", "free failed"); armci_stop(c);
}
static ScnReg r_syn("BARSYNC", syn_plan, syn_run);

// ------------------------------------------------------------------ barrier (C09) and hot accumulates (C05)
struct HotPlan { int nreg, nel, phases, ops; std::vector<int> ty; std::vector<std::vector<int>> regm; std::vector<int> selfdirect; };
struct HotShm { int entered[64]; long sum[4][16][64][2]; };
static void hot_plan(Case &c) {
  cfg_sim(c, 1, 6, 12); cfg_env(c, 1); auto P = std::make_shared<HotPlan>(); c.plan = P; Rng &r = c.rng; HotPlan &p = *P;
  p.nreg = 1 + (int)r.below(3); p.nel = 1 + (int)r.below(r.chance(50) ? 4 : 24); p.phases = 1 + (int)r.below(3); p.ops = 2 + (int)r.below(c.thorough ? 20 : 7);
  for (int i = 0; i < p.nreg; i++) { p.ty.push_back((int)r.below(6)); p.regm.push_back(i == 0 || r.chance(50) ? range_vec(c.n) : subset(r, c.n)); }
  c.shm_size = sizeof(HotShm); c.desc = fmt("%d ranks, %d allocations, %d hot elements, %d phases, %d ops", c.n, p.nreg, p.nel, p.phases, p.ops);
}
static const int HT_SZ[6] = {4, 8, 4, 8, 8, 16}, HT_ACC[6] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP};
static void el_get(int ty, const void *p, long *re, long *im) { *im = 0; switch (ty) { case 0: *re = *(const int *)p; break; case 1: *re = *(const long *)p; break; case 2: *re = (long)*(const float *)p; break; case 3: *re = (long)*(const double *)p; break; case 4: *re = (long)((const float *)p)[0]; *im = (long)((const float *)p)[1]; break; default: *re = (long)((const double *)p)[0]; *im = (long)((const double *)p)[1]; } }
static void el_set(int ty, void *p, long re, long im) { switch (ty) { case 0: *(int *)p = (int)re; break; case 1: *(long *)p = re; break; case 2: *(float *)p = (float)re; break; case 3: *(double *)p = (double)re; break; case 4: ((float *)p)[0] = (float)re; ((float *)p)[1] = (float)im; break; default: ((double *)p)[0] = (double)re; ((double *)p)[1] = (double)im; } }
static void hot_run(int me, Case &c) {
  HotPlan &p = *plan_of<HotPlan>(c); HotShm *S = (HotShm *)c.shm; Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c);
  std::vector<ARMCI_Group> G(p.nreg); std::vector<std::vector<void *>> ptr(p.nreg, std::vector<void *>(c.n, nullptr)); std::vector<int> in(p.nreg);
  for (int g = 0; g < p.nreg; g++) { auto &m = p.regm[g]; in[g] = std::count(m.begin(), m.end(), me) > 0; std::vector<void *> q(m.size()); long sz = HT_SZ[p.ty[g]] * (p.nel + 2);
    if (g == 0) CHECK(ARMCI_Malloc(q.data(), sz) == 0, "malloc-rc", "ARMCI_Malloc failed"); else { ARMCI_Group_create((int)m.size(), m.data(), &G[g]); if (in[g]) CHECK(ARMCI_Malloc_group(q.data(), sz, &G[g]) == 0, "malloc-rc", "ARMCI_Malloc_group failed"); }
    if (in[g]) { for (size_t i = 0; i < m.size(); i++) ptr[g][m[i]] = q[i]; for (int i = 0; i < p.nel + 2; i++) el_set(p.ty[g], (uint8_t *)ptr[g][me] + HT_SZ[p.ty[g]] * i, i == 0 || i == p.nel + 1 ? 77 : 0, i == 0 ? 3 : 0); } }
  ARMCI_Barrier(); rank_barrier(c);
  for (int ph = 0; ph < p.phases; ph++) {
    std::vector<armci_hdl_t> pend; std::vector<void *> bufs;
    for (int k = 0; k < p.ops; k++) {
      int g = (int)r.below(p.nreg); if (!in[g]) continue; int ty = p.ty[g], es = HT_SZ[ty]; auto &m = p.regm[g]; int slot = (int)r.below(m.size()); int t = m[slot]; if (r.chance(25)) { t = me; slot = (int)(std::find(m.begin(), m.end(), me) - m.begin()); } uint8_t *base = (uint8_t *)ptr[g][t] + es;
      long sc[2] = {1, 0}; if (r.chance(50)) { sc[0] = r.pick({2, -1, 3, 0}); if (ty >= 4) sc[1] = r.pick({0, 1, -2}); } uint8_t scale[16]; el_set(ty, scale, sc[0], sc[1]);
      int a = (int)r.below(p.nel), n = 1 + (int)r.below(p.nel - a); int step = 1, form = (int)r.below(3); if (form && r.chance(50)) { step = 2; n = (p.nel - a + 1) / 2; }
      uint8_t *b = (uint8_t *)malloc(es * n + 1); bufs.push_back(b); bool nb = r.chance(50), imp = r.chance(30); armci_hdl_t h; ARMCI_INIT_HANDLE(&h); armci_hdl_t *hp = imp ? nullptr : &h; int rc;
      for (int i = 0; i < n; i++) { long x = r.range(-20, 20), y = ty >= 4 ? r.range(-20, 20) : 0; el_set(ty, b + es * i, x, y); long *s = S->sum[g][slot][a + i * step]; s[0] += sc[0] * x - sc[1] * y; s[1] += sc[0] * y + sc[1] * x; }
      int cn[2] = {es, n}, ls[1] = {es}, rs[1] = {es * step}; std::vector<void *> sp, dp; for (int i = 0; i < n; i++) { sp.push_back(b + es * i); dp.push_back(base + es * (a + i * step)); } armci_giov_t v{sp.data(), dp.data(), es, n};
      if (form == 0) rc = nb ? ARMCI_NbAcc(HT_ACC[ty], scale, b, base + es * a, es * n, t, hp) : ARMCI_Acc(HT_ACC[ty], scale, b, base + es * a, es * n, t);
      else if (form == 1) rc = nb ? ARMCI_NbAccS(HT_ACC[ty], scale, b, ls, base + es * a, rs, cn, 1, t, hp) : ARMCI_AccS(HT_ACC[ty], scale, b, ls, base + es * a, rs, cn, 1, t);
      else rc = nb ? ARMCI_NbAccV(HT_ACC[ty], scale, &v, 1, t, hp) : ARMCI_AccV(HT_ACC[ty], scale, &v, 1, t);
      CHECK(rc == 0, "rc", "accumulate returned %d", rc); cnt(CN_ACC); feat(fh({74, (uint64_t)ty, (uint64_t)form, (uint64_t)nb, (uint64_t)imp, (uint64_t)(t == me), (uint64_t)(sc[0] == 1 && sc[1] == 0)})); if (nb && hp) pend.push_back(h); if (r.chance(20)) sim_yield();
    }
    S->entered[ph]++; int style = (int)(sim_mix(c.seed, 60 + ph) % 3); if (style == 2) { for (auto &h : pend) ARMCI_Wait(&h); pend.clear(); }
    if (style == 1) { ARMCI_AllFence(); armci_msg_barrier(); ARMCI_Barrier(); } else ARMCI_Barrier(); cnt(CN_FENCE);
    CHECK(S->entered[ph] == c.n, "barrier-early", "barrier %d returned at %d although only %d of %d processes had entered", ph, me, S->entered[ph], c.n);
    for (auto &h : pend) ARMCI_Wait(&h); ARMCI_WaitAll(); for (void *b : bufs) free(b);
    for (int g = 0; g < p.nreg; g++) if (in[g]) { auto &m = p.regm[g]; int ty = p.ty[g], es = HT_SZ[ty];
      for (size_t s = 0; s < m.size(); s++) { std::vector<uint8_t> b(es * (p.nel + 2)); bool direct = m[s] == me && r.chance(50); if (direct) memcpy(b.data(), ptr[g][me], b.size()); else CHECK(ARMCI_Get(ptr[g][m[s]], b.data(), (int)b.size(), m[s]) == 0, "rc", "get failed"); cnt(CN_READBACK);
        for (int i = 0; i < p.nel + 2; i++) { long re, im; el_get(ty, &b[es * i], &re, &im); long xr = i == 0 || i == p.nel + 1 ? 77 : S->sum[g][s][i - 1][0], xi = i == 0 ? (ty >= 4 ? 3 : 0) : i == p.nel + 1 ? 0 : S->sum[g][s][i - 1][1];
          CHECK(re == xr && im == xi, "acc-sum", "allocation %d (type %d) at process %d element %d read %s by %d: (%ld,%ld), the contributions sum to (%ld,%ld)", g, ty, m[s], i - 1, direct ? "directly" : "with get", me, re, im, xr, xi); } } }
    rank_barrier(c);
  }
  ARMCI_Barrier();
  for (int g = p.nreg - 1; g >= 0; g--) { if (g == 0) ARMCI_Free(ptr[0][me]); else { if (in[g]) ARMCI_Free_group(ptr[g][me], &G[g]); ARMCI_Group_free(&G[g]); } }
  armci_stop(c);
}
static ScnReg r_hot("HOTACC", hot_plan, hot_run);

// ------------------------------------------------------------------ program order of one process (C12)
struct OrdPlan { int mode, ops; };
static void ord_plan(Case &c) {
  cfg_sim(c, 1, 4); cfg_env(c, 1); auto P = std::make_shared<OrdPlan>(); c.plan = P; Rng &r = c.rng; P->mode = (int)r.below(3); P->ops = 6 + (int)r.below(c.thorough ? 60 : 24);
  c.sim.unordered = 1; c.sim.defer = r.pick({DEFER_RANDOM, DEFER_MAX});
  env_set(c, "ARMCI_NO_FLUSH_LOCAL", P->mode == 0 ? r.pick({"1", "yes", "T"}) : "0"); env_set(c, "ARMCI_RMA_ATOMICITY", P->mode == 1 ? r.pick({"1", "y", "true"}) : "0");
  if (P->mode == 1) env_set(c, "ARMCI_RMA_ORDERING", r.pick({"", "rar,raw,war,waw"}));
  for (size_t i = 0; i < c.env.size(); i++) if (c.env[i].second == "" && c.env[i].first == "ARMCI_RMA_ORDERING") { c.env.erase(c.env.begin() + i); break; }
  c.desc = fmt("%d ranks, mode %s, %d ops each", c.n, P->mode == 0 ? "remote flush" : P->mode == 1 ? "atomic put/get" : "fence separated", P->ops);
}
static void ord_run(int me, Case &c) {
  OrdPlan &p = *plan_of<OrdPlan>(c); Rng r{sim_mix(c.seed, 1000 + me)}; armci_start(c); const int NE = 8; std::vector<void *> g(c.n); CHECK(ARMCI_Malloc(g.data(), 8 * NE * c.n) == 0, "malloc-rc", "ARMCI_Malloc failed"); memset(g[me], 0, 8 * NE * c.n); ARMCI_Barrier(); rank_barrier(c);
  std::vector<std::vector<long>> m(c.n, std::vector<long>(NE, 0)); std::vector<int> dirty(c.n, 0);
  for (int k = 0; k < p.ops; k++) {
    int t = (int)r.below(c.n), a = (int)r.below(NE), n = 1 + (int)r.below(NE - a); uint8_t *rem = (uint8_t *)g[t] + 8 * (NE * me + a); long b[NE]; int what = (int)r.below(10), form = (int)r.below(3), rc; int cn[2] = {8, n}, st[1] = {8}; std::vector<void *> lp, rp; for (int i = 0; i < n; i++) { lp.push_back(&b[i]); rp.push_back(rem + 8 * i); }
    bool isget = what < 4, isacc = what >= 8;
    // an accumulate and a put use different MPI datatypes; without remote flushes they need a fence in between
    if (p.mode == 2 && dirty[t]) { ARMCI_Fence(t); dirty[t] = 0; }
    // contiguous transfers to oneself are plain copies, which accumulate ordering does not cover
    if (p.mode == 1 && dirty[t] && (t == me || (isacc && dirty[t] == 1) || (!isacc && dirty[t] == 2))) { ARMCI_Fence(t); dirty[t] = 0; }
    if (isget) { memset(b, 0xEE, sizeof b); armci_giov_t v{rp.data(), lp.data(), 8, n}; rc = form == 0 ? ARMCI_Get(rem, b, 8 * n, t) : form == 1 ? ARMCI_GetS(rem, st, b, st, cn, 1, t) : ARMCI_GetV(&v, 1, t); cnt(CN_GET); if (n == 1 && r.chance(40)) b[0] = ARMCI_GetValueLong(rem, t);
      for (int i = 0; i < n; i++) CHECK(b[i] == m[t][a + i], "program-order", "process %d read %ld at process %d element %d, but the last value it wrote there is %ld (operation %d, form %d)", me, b[i], t, a + i, m[t][a + i], k, form);
    } else if (!isacc) { for (int i = 0; i < n; i++) m[t][a + i] = b[i] = (long)(r.next() >> 20); armci_giov_t v{lp.data(), rp.data(), 8, n}; if (n == 1 && r.chance(30)) rc = ARMCI_PutValueLong(b[0], rem, t); else rc = form == 0 ? ARMCI_Put(b, rem, 8 * n, t) : form == 1 ? ARMCI_PutS(b, st, rem, st, cn, 1, t) : ARMCI_PutV(&v, 1, t); dirty[t] = 1; cnt(CN_PUT);
    } else { long sc = r.pick({1, 3}); for (int i = 0; i < n; i++) { b[i] = r.range(-999, 999); m[t][a + i] += sc * b[i]; } armci_giov_t v{lp.data(), rp.data(), 8, n}; rc = form == 0 ? ARMCI_Acc(ARMCI_ACC_LNG, &sc, b, rem, 8 * n, t) : form == 1 ? ARMCI_AccS(ARMCI_ACC_LNG, &sc, b, st, rem, st, cn, 1, t) : ARMCI_AccV(ARMCI_ACC_LNG, &sc, &v, 1, t); dirty[t] = 2; cnt(CN_ACC); }
    CHECK(rc == 0, "rc", "operation returned %d", rc); feat(fh({75, (uint64_t)p.mode, (uint64_t)what, (uint64_t)form, (uint64_t)(t == me), (uint64_t)n}));
  }
  ARMCI_Barrier(); for (int t = 0; t < c.n; t++) { long b[NE]; ARMCI_Get((uint8_t *)g[t] + 8 * NE * me, b, 8 * NE, t); for (int i = 0; i < NE; i++) CHECK(b[i] == m[t][i], "program-order", "final value %ld of element %d at %d is not the last one written by %d (%ld)", b[i], i, t, me, m[t][i]); }
  ARMCI_Barrier(); ARMCI_Free(g[me]); armci_stop(c);
}
static ScnReg r_ord("ORDER", ord_plan, ord_run);
