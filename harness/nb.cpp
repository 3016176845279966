// Many outstanding nonblocking operations: long aggregates, many handles, implicit floods, over several allocations and targets (C11).
#include "h.h"
#include "util.h"
struct NbmPlan { int nreg, nh, ops, maxlen, hot, p_hot, p_seg, p_agg, p_impl, p_sync, p_scaled, p_acc; long slot; std::vector<unsigned> mask; bool self; };
struct NbmShm { int dummy; };
// every region slice: n origin stripes of `ops` slots of `slot` bytes | 64 counters (long) | 4096 read-only bytes
static uint8_t ro_byte(int reg, int owner, long i) { return (uint8_t)(sim_mix(991 + reg * 131 + owner, i >> 3) >> (8 * (i & 7))); }
static void nbm_plan(Case &c) {
  cfg_sim(c, 1, 4); if (c.n == 1 && c.rng.chance(60)) c.n = 2; cfg_env(c, 1); auto P = std::make_shared<NbmPlan>(); c.plan = P; Rng &r = c.rng; NbmPlan &p = *P;
  if (r.chance(50)) c.sim.defer = DEFER_MAX; 
  p.nreg = 1 + (int)r.below(4); p.nh = (int)r.pick({1, 2, 4, 40, 300}); p.ops = r.chance(30) ? (int)r.range(20, 120) : (int)r.range(130, c.thorough ? 1500 : 420); p.maxlen = (int)r.pick({8, 24, 64, 64, 304}); p.slot = p.maxlen;
  p.p_agg = (int)r.pick({0, 50, 100, 100}); p.p_impl = (int)r.pick({0, 0, 0, 30, 100}); p.p_sync = (int)r.pick({0, 0, 1, 5, 12}); p.p_scaled = (int)r.pick({0, 0, 60}); p.p_acc = (int)r.pick({0, 20, 50}); p.self = r.chance(70) || c.n == 1; c.sim.slab = 32ull << 20; c.sim.max_steps = 8000000;
  for (int g = 0; g < p.nreg; g++) { unsigned all = (1u << c.n) - 1, m = r.chance(50) ? all : (unsigned)r.next() & all; p.mask.push_back(m ? m : all); }     // some allocations belong to a group
  p.p_seg = (int)r.pick({0, 0, 10, 60}); if (p.maxlen > 64) p.ops = std::min(p.ops, c.thorough ? 400 : p.p_seg > 10 ? 40 : 120); else if (p.p_seg > 10 && !c.thorough) p.ops = std::min(p.ops, 150);
  p.hot = (int)r.below(p.nreg); p.p_hot = (int)r.pick({0, 0, 75, 95});     // most operations may use one allocation
  c.shm_size = sizeof(NbmShm); c.desc = fmt("%d ranks, %d allocations, %d operations over %d handles (aggregate %d%%, implicit %d%%, synchronised %d%%)", c.n, p.nreg, p.ops, p.nh, p.p_agg, p.p_impl, p.p_sync);
}
struct NbmOp { int kind, reg, tgt, len, handle; long off; uint8_t *buf; bool done; };
static void nbm_run(int me, Case &c) {
  NbmPlan &p = *plan_of<NbmPlan>(c); Rng r{sim_mix(c.seed, 7100 + me)}; armci_start(c);
  long stripe = p.slot * p.ops, CO = stripe * c.n, RO = CO + 64 * 8, SZ = RO + 4096;
  std::vector<std::vector<void *>> ptr(p.nreg, std::vector<void *>(c.n));
  std::vector<ARMCI_Group> grp(p.nreg); std::vector<std::vector<int>> mem(p.nreg); std::vector<int> mine; unsigned all = (1u << c.n) - 1;
  for (int g = 0; g < p.nreg; g++) { for (int i = 0; i < c.n; i++) if (p.mask[g] >> i & 1) mem[g].push_back(i); bool in = p.mask[g] >> me & 1; if (in) mine.push_back(g);
    if (p.mask[g] == all) CHECK(ARMCI_Malloc(ptr[g].data(), SZ) == 0, "malloc-rc", "ARMCI_Malloc failed"); else { ARMCI_Group w; ARMCI_Group_get_world(&w); CHECK(ARMCIX_Group_split(&w, in, me, &grp[g]) == 0, "split-rc", "ARMCIX_Group_split failed"); if (!in) continue; std::vector<void *> q(mem[g].size()); CHECK(ARMCI_Malloc_group(q.data(), SZ, &grp[g]) == 0, "malloc-rc", "ARMCI_Malloc_group failed"); for (size_t i = 0; i < q.size(); i++) ptr[g][mem[g][i]] = q[i]; }
    uint8_t *b = (uint8_t *)ptr[g][me]; ARMCI_Access_begin(b); memset(b, 0xEE, CO); memset(b + CO, 0, 64 * 8); for (long i = 0; i < 4096; i++) b[RO + i] = ro_byte(g, me, i); ARMCI_Access_end(b); }
  ARMCI_Barrier();
  std::vector<armci_hdl_t> H(p.nh); std::vector<int> mode(p.nh, 0); std::vector<std::vector<int>> of(p.nh); for (auto &h : H) ARMCI_INIT_HANDLE(&h);
  std::vector<NbmOp> O; std::vector<int> impl; std::vector<std::vector<long>> acc(p.nreg, std::vector<long>(c.n * 64, 0)); int peak = 0, out = 0; std::vector<uint8_t> pbyte(p.ops);
  auto complete = [&](int i) {     // the operation is locally complete
    NbmOp &o = O[i]; if (o.done) return; o.done = true; out--;
    if (o.kind == 1) { for (int k = 0; k < o.len; k++) CHECK(o.buf[k] == ro_byte(o.reg, o.tgt, o.off - RO + k), "nb-get-data", "nonblocking get %d of %d (%d bytes from %d, handle %d): byte %d is 0x%02x after completion", i, p.ops, o.len, o.tgt, o.handle, k, o.buf[k]); cnt(CN_READBACK); }
    memset(o.buf, 0xBD, o.len);    // the local buffer belongs to the user again
  };
  auto wait_h = [&](int h) {
    cnt(CN_WAIT); if (mode[h] == 0) return; feat(fh({171, (uint64_t)std::min<size_t>(of[h].size(), 300) / 8, (uint64_t)mode[h]}));
    if (r.chance(40)) { int t = 0; while (ARMCI_Test(&H[h])) { if (++t > 3000) sim_fatal("ORACLE", "test-never", "ARMCI_Test on a handle carrying %zu operations never reports completion", of[h].size()); sim_yield(); } }
    else CHECK(ARMCI_Wait(&H[h]) == 0, "rc-wait", "ARMCI_Wait failed");
    for (int i : of[h]) complete(i); of[h].clear(); if (mode[h] == 2) ARMCI_UNSET_AGGREGATE_HANDLE(&H[h]); mode[h] = 0; };
  for (int i = 0; i < p.ops && !mine.empty(); i++) {
    NbmOp o; o.kind = r.chance(p.p_acc) ? 2 : (int)r.below(2); o.reg = mine[r.below(mine.size())]; if ((p.mask[p.hot] >> me & 1) && r.chance(p.p_hot)) o.reg = p.hot; do o.tgt = mem[o.reg][r.below(mem[o.reg].size())]; while (!p.self && o.tgt == me && mem[o.reg].size() > 1); o.len = 1 + (int)r.below(p.maxlen); o.done = false;
    if (o.kind == 2) { o.len = 8 * (1 + (int)r.below(3)); o.off = CO + 8 * (long)r.below(62); } else if (o.kind == 0) o.off = stripe * me + p.slot * i; else o.off = RO + (long)r.below(4096 - o.len);
    o.buf = (uint8_t *)malloc(o.len); uint8_t *rem = (uint8_t *)ptr[o.reg][o.tgt] + o.off; armci_hdl_t *hp = nullptr; o.handle = -1;
    if (!r.chance(p.p_impl)) { int h = (int)r.below(p.nh); if (mode[h] == 1) wait_h(h); if (mode[h] == 0) { ARMCI_INIT_HANDLE(&H[h]); mode[h] = 1; if (r.chance(p.p_agg)) { ARMCI_SET_AGGREGATE_HANDLE(&H[h]); mode[h] = 2; } } o.handle = h; hp = &H[h]; }
    int rc = 0; cnt(CN_NB); int form = r.chance(p.p_seg) ? 1 + (int)r.below(2) : 0, es = o.kind == 2 ? 8 : 1; int sc_n[2] = {es, o.len / es}, st[1] = {es}; std::vector<void *> vl, vr; if (form == 2) for (int k = 0; k < o.len; k += es) { vl.push_back(o.buf + k); vr.push_back(rem + k); } armci_giov_t iv; iv.bytes = es; iv.ptr_array_len = o.len / es; iv.src_ptr_array = o.kind == 1 ? vr.data() : vl.data(); iv.dst_ptr_array = o.kind == 1 ? vl.data() : vr.data();
    if (o.kind == 0) { uint8_t v = (uint8_t)(r.next() % 0xE0); pbyte[i] = v; for (int k = 0; k < o.len; k++) o.buf[k] = v + k % 8; rc = form == 0 ? ARMCI_NbPut(o.buf, rem, o.len, o.tgt, hp) : form == 1 ? ARMCI_NbPutS(o.buf, st, rem, st, sc_n, 1, o.tgt, hp) : ARMCI_NbPutV(&iv, 1, o.tgt, hp); cnt(CN_PUT); }
    else if (o.kind == 1) { memset(o.buf, 0x11, o.len); rc = form == 0 ? ARMCI_NbGet(rem, o.buf, o.len, o.tgt, hp) : form == 1 ? ARMCI_NbGetS(rem, st, o.buf, st, sc_n, 1, o.tgt, hp) : ARMCI_NbGetV(&iv, 1, o.tgt, hp); cnt(CN_GET); }
    else { long sc = r.chance(p.p_scaled) ? 2 + (long)r.below(3) : 1; for (int k = 0; k < o.len / 8; k++) { long v = (long)r.below(1000); memcpy(o.buf + 8 * k, &v, 8); acc[o.reg][o.tgt * 64 + (o.off - CO) / 8 + k] += sc * v; } rc = form == 0 ? ARMCI_NbAcc(ARMCI_ACC_LNG, &sc, o.buf, rem, o.len, o.tgt, hp) : form == 1 ? ARMCI_NbAccS(ARMCI_ACC_LNG, &sc, o.buf, st, rem, st, sc_n, 1, o.tgt, hp) : ARMCI_NbAccV(ARMCI_ACC_LNG, &sc, &iv, 1, o.tgt, hp); cnt(CN_ACC); }
    CHECK(rc == 0, "rc", "nonblocking operation %d returned %d", i, rc); O.push_back(o); out++; if (out > peak) peak = out; if (hp) of[o.handle].push_back(i); else impl.push_back(i);
    if (r.chance(p.p_sync)) { int k = (int)r.below(3); if (k == 0) wait_h((int)r.below(p.nh)); else if (k == 1) { ARMCI_WaitAll(); for (int x : impl) complete(x); impl.clear(); } else { int q = (int)r.below(c.n); ARMCI_WaitProc(q); for (size_t x = 0; x < impl.size();) if (O[impl[x]].tgt == q) { complete(impl[x]); impl.erase(impl.begin() + x); } else x++; } }
  }
  std::vector<int> hs = range_vec(p.nh); shuffle(r, hs); bool wfirst = r.chance(50); if (wfirst) { ARMCI_WaitAll(); for (int x : impl) complete(x); impl.clear(); }
  for (int h : hs) wait_h(h); if (!wfirst) { ARMCI_WaitAll(); for (int x : impl) complete(x); impl.clear(); }
  for (auto &o : O) CHECK(o.done, "plan", "unfinished operation");
  // with a fence the values are visible to everyone
  for (size_t i = 0; i < O.size(); i++) free(O[i].buf);
  feat(fh({170, (uint64_t)peak / 16, (uint64_t)p.nreg, (uint64_t)c.n, (uint64_t)sim_rreq_hwm() / 16}));
  ARMCI_Barrier();
  // the contents this process produced, read back remotely
  for (size_t i = 0; i < O.size(); i++) if (O[i].kind == 0) { std::vector<uint8_t> b(p.slot); NbmOp &o = O[i]; CHECK(ARMCI_Get((uint8_t *)ptr[o.reg][o.tgt] + o.off, b.data(), (int)p.slot, o.tgt) == 0, "rc", "ARMCI_Get failed");
    for (int k = 0; k < p.slot; k++) { uint8_t e = k < o.len ? (uint8_t)(pbyte[i] + k % 8) : 0xEE; CHECK(b[k] == e, "nb-put-data", "nonblocking put %zu of %d (%d bytes to %d): byte %d is 0x%02x, expected 0x%02x", i, p.ops, o.len, o.tgt, k, b[k], e); } }
  for (int g = 0; g < p.nreg; g++) { std::vector<long> tot(c.n * 64); tot = acc[g]; armci_msg_lgop(tot.data(), c.n * 64, (char *)"+"); if (!(p.mask[g] >> me & 1)) continue; long *q = (long *)((uint8_t *)ptr[g][me] + CO); ARMCI_Access_begin(ptr[g][me]); for (int k = 0; k < 64; k++) CHECK(q[k] == tot[me * 64 + k], "nb-acc-data", "counter %d of allocation %d at %d is %ld after all nonblocking accumulates, expected %ld", k, g, me, q[k], tot[me * 64 + k]); ARMCI_Access_end(ptr[g][me]); }
  ARMCI_Barrier(); for (int g = 0; g < p.nreg; g++) if (p.mask[g] == all) CHECK(ARMCI_Free(ptr[g][me]) == 0, "free-rc", "ARMCI_Free failed"); else { if (p.mask[g] >> me & 1) CHECK(ARMCI_Free_group(ptr[g][me], &grp[g]) == 0, "free-rc", "ARMCI_Free_group failed"); ARMCI_Group_free(&grp[g]); } armci_stop(c);
}
static ScnReg r_nbm("NBMANY", nbm_plan, nbm_run);
