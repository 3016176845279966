// Long histories and large populations: many live allocations, groups and mutexes, thousands of operations, messages and handles, many life cycles (C13, C14, C15, C17, C07, C20, C19, C01, C04, C06, C11, C21).
#include "h.h"
#include "util.h"
enum { SC_ALLOC, SC_GROUPS, SC_MUTEX, SC_MSG, SC_OPS, SC_NB, SC_CYCLES, SC_SEGS, SC_N };
static const char *SCN[] = {"allocations", "groups", "mutexes", "messages", "blocking operations", "nonblocking handles", "life cycles", "segments"};
struct ScalePlan { int mode, K; uint64_t seed; };
static void scale_plan(Case &c, int mode) {
  c.wall = 150; c.sim.cpu_limit = 150; cfg_sim(c, 1, mode == SC_GROUPS ? 6 : mode == SC_SEGS ? 2 : 4, mode == SC_SEGS ? 0 : 10); cfg_env(c, 1); auto P = std::make_shared<ScalePlan>(); c.plan = P; Rng &r = c.rng; P->mode = mode; if (mode == SC_OPS && r.chance(50)) env_set(c, "ARMCI_NO_FLUSH_LOCAL", "1"); P->seed = r.next(); c.wall = 120; c.sim.max_steps = 20000000;
  static const int lo[] = {20, 10, 50, 300, 500, 500, 6, 20000}, hi[] = {260, 110, 700, 2000, 3000, 3000, 30, 700000}; double e = (double)r.below(1000) / 1000; e *= e; P->K = (lo[mode] + (int)((hi[mode] - lo[mode]) * e)) * (c.thorough ? 2 : 1);
  if (mode == SC_SEGS) { c.sim.slab = 64ull << 20; c.sim.preempt = 0; env_set(c, "ARMCI_STRIDED_METHOD", r.pick({"IOV", "DIRECT"})); std::string iov = c.is_mpich() ? r.pick({"DIRECT", "AUTO", "BATCHED"}) : "BATCHED"; env_set(c, "ARMCI_IOV_METHOD", iov.c_str()); if (iov == "BATCHED") P->K = 3000 + P->K / 100; else if (iov != "BATCHED" && r.chance(60)) P->K = 450000 + (int)r.below(250000); }
  c.desc = fmt("%d %s on %d processes", P->K, SCN[mode], c.n);
}
static unsigned char pat(uint64_t s, long i) { return (unsigned char)(sim_mix(s, i >> 3) >> (8 * (i & 7))); }
static std::vector<int> members(Case &c, Rng &r, int n) { std::vector<int> l = subset(r, n); if (c.on("ARMCI_NONCOLLECTIVE_GROUPS")) std::sort(l.begin(), l.end()); return l; }
// ---- many live allocations. Every process keeps the record of every allocation, whether a member of its group or not, so the histories stay in step.
struct Al { std::vector<int> mem; std::vector<void *> p; std::vector<long> sz; uint64_t ver; int grp, me; bool in; };
static void al_check(Al &a, int who, const char *when) {
  long s = a.sz[who]; if (!a.in || !s || !a.ver) return; std::vector<unsigned char> b(s + 16, 0xee); CHECK(ARMCI_Get(a.p[who], b.data(), (int)s, a.mem[who]) == 0, "rc", "get"); cnt(CN_GET);
  for (long i = 0; i < s + 16; i++) { unsigned char w = i < s ? pat(a.ver + who, i) : 0xee; CHECK(b[i] == w, "lost-data", "%s: byte %ld of the %ld bytes of process %d is %d instead of %d", when, i, s, a.mem[who], b[i], w); }
}
static void scale_alloc(int me, Case &c, ScalePlan &P) {
  Rng sh{P.seed}, my{sim_mix(P.seed, 99 + me)}; int n = c.n; std::vector<ARMCI_Group> G(1); std::vector<std::vector<int>> GM(1, range_vec(n)); ARMCI_Group_get_world(&G[0]);
  for (int k = (int)sh.below(3); k > 0; k--) { std::vector<int> l = members(c, sh, n); ARMCI_Group g; ARMCI_Group_create((int)l.size(), l.data(), &g); G.push_back(g); GM.push_back(l); }
  std::vector<Al> L; int made = 0, maxlive = 0; size_t cap = sh.chance(30) ? 3 + sh.below(20) : 1 << 20; std::vector<size_t> fresh; int pfree = (int)sh.pick({0, 10, 40});
  auto release = [&](size_t i, Rng &r) { Al &a = L[i]; bool plain = a.grp == 0 && r.chance(60); if (a.in) { void *b = a.p[a.me]; if (b || a.sz[a.me] || true) CHECK((plain ? ARMCI_Free(b) : ARMCI_Free_group(b, &G[a.grp])) == 0, "rc", "free"); cnt(CN_FREE); } L.erase(L.begin() + i); };
  while (made < P.K) {
    if (!L.empty() && (L.size() >= cap || sh.chance(pfree))) { release(sh.chance(30) ? 0 : sh.chance(30) ? L.size() - 1 : sh.below(L.size()), sh); continue; }
    Al a; a.grp = sh.chance(70) ? 0 : (int)sh.below(G.size()); a.mem = GM[a.grp]; size_t m = a.mem.size(); long base = (long)sh.pick({1, 8, 24, 64, 200, 1000}); for (size_t i = 0; i < m; i++) a.sz.push_back(i && sh.chance(25) ? 0 : base + (long)sh.below(40)); shuffle(sh, a.sz); a.p.resize(m);
    a.me = (int)(std::find(a.mem.begin(), a.mem.end(), me) - a.mem.begin()); a.in = a.me < (int)m; a.ver = sim_mix(P.seed, made) | 1; made++;
    if (a.in) { if (a.grp == 0 && sh.below(2)) CHECK(ARMCI_Malloc(a.p.data(), a.sz[a.me]) == 0, "rc", "malloc"); else CHECK(ARMCI_Malloc_group(a.p.data(), a.sz[a.me], &G[a.grp]) == 0, "rc", "malloc group"); cnt(CN_ALLOC); } else if (a.grp == 0) sh.below(2);
    if (a.in) {
      char *b = (char *)a.p[a.me]; long s = a.sz[a.me]; for (size_t i = 0; i < m; i++) CHECK(!!a.p[i] == !!a.sz[i], "null-base", "base of process %d with %ld bytes is %p", a.mem[i], a.sz[i], a.p[i]);
      if (s) for (Al &o : L) if (o.in && o.sz[o.me]) CHECK((char *)o.p[o.me] >= b + s || b >= (char *)o.p[o.me] + o.sz[o.me], "overlap", "two live allocations share memory");
      int t = (a.me + 1) % (int)m; if (a.sz[t]) { std::vector<unsigned char> v(a.sz[t]); for (long i = 0; i < a.sz[t]; i++) v[i] = pat(a.ver + t, i); CHECK(ARMCI_Put(v.data(), a.p[t], (int)a.sz[t], a.mem[t]) == 0, "rc", "put"); cnt(CN_PUT); }
    }
    L.push_back(a); maxlive = std::max(maxlive, (int)L.size());
    if (sh.chance(12)) { ARMCI_Barrier(); for (int k = 0; k < 4; k++) { size_t i = my.below(L.size()); al_check(L[i], (int)my.below(L[i].mem.size()), "during"); } ARMCI_Barrier(); }
  }
  ARMCI_Barrier(); for (Al &a : L) al_check(a, (int)my.below(a.mem.size()), "all live"); ARMCI_Barrier();
  feat(fh({501, (uint64_t)maxlive / 8, G.size(), cap < 100}));
  int order = (int)sh.below(3); size_t quarter = L.size() / 4;
  while (!L.empty()) { release(order == 0 ? 0 : order == 1 ? L.size() - 1 : sh.below(L.size()), sh); if (L.size() == quarter && quarter) { for (Al &a : L) al_check(a, (int)my.below(a.mem.size()), "after most were freed"); } }
  for (size_t i = G.size(); i-- > 1;) ARMCI_Group_free(&G[i]);
}
// ---- many groups
static void scale_groups(int me, Case &c, ScalePlan &P) {
  Rng sh{P.seed}; int n = c.n; struct Gr { std::vector<int> mem; ARMCI_Group g; }; std::vector<Gr> L; ARMCI_Group w; ARMCI_Group_get_world(&w); int made = 0; size_t maxlive = 0, cap = sh.chance(50) ? 2 + sh.below(10) : 1 << 20;
  auto use = [&](Gr &q, long tag) { int m = (int)q.mem.size(), r = -5, s = -5; int pos = (int)(std::find(q.mem.begin(), q.mem.end(), me) - q.mem.begin()); if (pos == m) return;
    ARMCI_Group_rank(&q.g, &r); ARMCI_Group_size(&q.g, &s); CHECK(r == pos && s == m, "group-identity", "rank %d of %d instead of %d of %d", r, s, pos, m); for (int i = 0; i < m; i++) CHECK(ARMCI_Absolute_id(&q.g, i) == q.mem[i], "absolute-id", "member %d is %d", i, ARMCI_Absolute_id(&q.g, i));
    long v[2] = {tag + me, 1}, e = 0; for (int x : q.mem) e += tag + x; armci_msg_group_lgop(v, 2, (char *)"+", &q.g); CHECK(v[0] == e && v[1] == m, "group-sum", "sum over the group is %ld, %ld instead of %ld, %d", v[0], v[1], e, m); cnt(CN_COLL); };
  auto release = [&](size_t i) { ARMCI_Group_free(&L[i].g); L.erase(L.begin() + i); };
  while (made < P.K) {
    if (!L.empty() && (L.size() >= cap || sh.chance(20))) { release(sh.below(L.size())); continue; }
    Gr q; made++; int kind = (int)sh.below(8);
    if (kind == 0) { q.mem = range_vec(n); ARMCIX_Group_dup(&w, &q.g); }
    else if (kind == 1) { int k = 1 + (int)sh.below(3), back = (int)sh.below(2); ARMCIX_Group_split(&w, me % k, back ? -me : me, &q.g); for (int i = 0; i < n; i++) if (i % k == me % k) q.mem.push_back(i); if (back) std::reverse(q.mem.begin(), q.mem.end()); }
    else { q.mem = members(c, sh, n); ARMCI_Group_create((int)q.mem.size(), q.mem.data(), &q.g); }
    cnt(CN_GROUP); use(q, made); L.push_back(q); maxlive = std::max(maxlive, L.size());
    if (sh.chance(30)) use(L[sh.below(L.size())], 1000 + made);
  }
  for (Gr &q : L) use(q, 77); feat(fh({502, maxlive / 8, (uint64_t)n}));
  int order = (int)sh.below(3); while (!L.empty()) release(order == 0 ? 0 : order == 1 ? L.size() - 1 : sh.below(L.size()));
}
// ---- many mutexes
static void scale_mutex(int me, Case &c, ScalePlan &P) {
  Rng sh{P.seed}, my{sim_mix(P.seed, 7 + me)}; int n = c.n, cycles = 1 + (int)sh.below(12); std::vector<void *> a(n), tot(n);
  for (int cy = 0; cy < cycles; cy++) {
    int K = cy ? 1 + (int)sh.below(20) : P.K; std::vector<int> mc; for (int i = 0; i < n; i++) mc.push_back(sh.chance(25) ? 0 : cy && sh.chance(50) ? 1 : 1 + (int)sh.below(K)); mc[sh.below(n)] = K; std::vector<std::pair<int, int>> all; for (int i = 0; i < n; i++) for (int k = 0; k < mc[i]; k++) all.push_back({i, k});
    bool hdl = sh.chance(50); ARMCI_Group w; ARMCI_Group_get_world(&w); armcix_mutex_hdl_t h = nullptr; if (hdl) { h = ARMCIX_Create_mutexes_hdl(mc[me], &w); CHECK(h != nullptr, "rc", "create mutexes"); } else CHECK(ARMCI_Create_mutexes(mc[me]) == 0, "rc", "create mutexes");
    long mx = *std::max_element(mc.begin(), mc.end()); CHECK(ARMCI_Malloc(a.data(), mx * 8) == 0, "rc", "malloc"); CHECK(ARMCI_Malloc(tot.data(), mx * 8) == 0, "rc", "malloc"); ARMCI_Access_begin(a[me]); memset(a[me], 0, mx * 8); ARMCI_Access_end(a[me]); ARMCI_Access_begin(tot[me]); memset(tot[me], 0, mx * 8); ARMCI_Access_end(tot[me]); ARMCI_Barrier();
    std::vector<std::pair<int, int>> hot; for (int k = 0; k < 3; k++) hot.push_back(all[sh.below(all.size())]); hot.push_back(all.back()); hot.push_back(all.front());
    for (int op = cy ? 6 : 40; op > 0; op--) { auto q = my.chance(50) ? hot[my.below(hot.size())] : all[my.below(all.size())]; long v = -1; char *x = (char *)a[q.first] + 8 * q.second;
      if (hdl) ARMCIX_Lock_hdl(h, q.second, q.first); else ARMCI_Lock(q.second, q.first);
      ARMCI_Get(x, &v, 8, q.first); v++; ARMCI_Put(&v, x, 8, q.first); ARMCI_Fence(q.first);
      if (hdl) ARMCIX_Unlock_hdl(h, q.second, q.first); else ARMCI_Unlock(q.second, q.first);
      long one = 1; ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &v, (char *)tot[q.first] + 8 * q.second, (int)one, q.first); cnt(CN_LOCK); }
    ARMCI_Barrier(); std::vector<long> u(mx), v(mx); ARMCI_Get(a[me], u.data(), (int)mx * 8, me); ARMCI_Get(tot[me], v.data(), (int)mx * 8, me); for (long i = 0; i < mx; i++) CHECK(u[i] == v[i], "lost-update", "mutex %ld of process %d (of %d): %ld protected increments took effect of %ld", i, me, mc[me], u[i], v[i]);
    ARMCI_Barrier(); ARMCI_Free(tot[me]); ARMCI_Free(a[me]); if (hdl) CHECK(ARMCIX_Destroy_mutexes_hdl(h) == 0, "rc", "destroy"); else CHECK(ARMCI_Destroy_mutexes() == 0, "rc", "destroy");
  }
  feat(fh({503, (uint64_t)P.K / 20, (uint64_t)cycles}));
}
// ---- many messages and collectives
static void scale_msg(int me, Case &c, ScalePlan &P) {
  Rng sh{P.seed}; int n = c.n; std::vector<unsigned char> b(2048), e(2048); int window = 1 + (int)sh.below(4);
  for (int k = 0; k < P.K; k++) { int kind = (int)sh.below(10); uint64_t s = sh.next(); int len = 1 + (int)sh.below(sh.chance(10) ? 2000 : 40);
    if (kind < 7 && n > 1) { int from = (int)sh.below(n), to = (int)sh.below(n - 1); if (to >= from) to++; int tag = (int)(s % 5000), burst = 1 + (int)sh.below(window);
      for (int q = 0; q < burst; q++) { if (me == from) { for (int i = 0; i < len; i++) b[i] = pat(s + q, i); armci_msg_snd(tag, b.data(), len, to); cnt(CN_MSG); }
        if (me == to) { int got = -1, src = -1; memset(b.data(), 0x55, len + 8); if (s & 64) { src = armci_msg_rcvany(tag, b.data(), len + 8, &got); CHECK(src == from, "source", "message %d came from %d instead of %d", k, src, from); } else armci_msg_rcv(tag, b.data(), len + 8, &got, from); CHECK(got == len, "length", "message %d has %d bytes instead of %d", k, got, len); for (int i = 0; i < len + 8; i++) CHECK(b[i] == (i < len ? pat(s + q, i) : 0x55), "message-data", "message %d: byte %d of %d", k, i, len); } } }
    else if (kind == 7) { int root = (int)sh.below(n); for (int i = 0; i < len; i++) b[i] = me == root ? pat(s, i) : 0; armci_msg_bcast(b.data(), len, root); for (int i = 0; i < len; i++) CHECK(b[i] == pat(s, i), "bcast-data", "broadcast %d: byte %d", k, i); cnt(CN_COLL); }
    else if (kind == 8) { int v[3] = {me, k, -me}; armci_msg_igop(v, 3, (char *)"max"); CHECK(v[0] == n - 1 && v[1] == k && v[2] == 0, "gop-data", "reduction %d gave %d, %d, %d", k, v[0], v[1], v[2]); cnt(CN_COLL); }
    else { if (s & 1) armci_msg_barrier(); else ARMCI_Barrier(); cnt(CN_COLL); }
  }
  feat(fh({504, (uint64_t)P.K / 50, (uint64_t)n}));
}
// ---- thousands of operations on one allocation, each checked against the model at once. Every process owns one lane of every slice.
static void scale_ops(int me, Case &c, ScalePlan &P, bool nb) {
  Rng sh{P.seed}, my{sim_mix(P.seed, 31 + me)}; int n = c.n; const int LANE = 1024, NH = nb ? 1 + (int)sh.pick({0, 1, 7, 31, 63}) : 1, SLOT = nb ? LANE / 64 / 8 * 8 : LANE; std::vector<void *> a(n); CHECK(ARMCI_Malloc(a.data(), LANE * n) == 0, "rc", "malloc"); ARMCI_Access_begin(a[me]); memset(a[me], 0, LANE * n); ARMCI_Access_end(a[me]); ARMCI_Barrier();
  std::vector<std::vector<unsigned char>> M(n, std::vector<unsigned char>(LANE, 0)); struct H { armci_hdl_t h; bool act = false; int t, off, len; std::vector<unsigned char> buf, want; }; std::vector<H> hs(NH); bool cons = !nb && c.on("ARMCI_NO_FLUSH_LOCAL"); std::vector<std::vector<char>> dirty(n, std::vector<char>(NH, 0)); auto fence = [&](int t) { ARMCI_Fence(t); dirty[t].assign(NH, 0); cnt(CN_FENCE); }; for (auto &h : hs) ARMCI_INIT_HANDLE(&h.h); double ones[8] = {1, 1, 2, 2, 1.5, .5, -1, 1}, sc = 1, s2 = 2;
  auto finish = [&](H &h, int how) { if (!h.act) return; if (how == 0) CHECK(ARMCI_Wait(&h.h) == 0, "rc", "wait"); else if (how == 1) { while (ARMCI_Test(&h.h)) {} } h.act = false; cnt(CN_WAIT); for (size_t i = 0; i < h.want.size(); i++) CHECK(h.buf[i] == h.want[i], "get-data", "nonblocking get of %zu bytes at %d from process %d: byte %zu is %d instead of %d", h.want.size(), h.off, h.t, i, h.buf[i], h.want[i]); h.want.clear(); };
  for (int k = 0; k < P.K; k++) {
    int hi = (int)my.below(NH); H &h = hs[hi]; if (nb) finish(h, (int)my.below(2)); if (nb && my.chance(3)) { if (my.below(2)) ARMCI_WaitAll(); else for (int t = 0; t < n; t++) ARMCI_WaitProc(t); for (auto &x : hs) { if (x.act) ARMCI_Wait(&x.h); finish(x, 2); } }
    int t = (int)my.below(n), lo = nb ? hi * SLOT : 0, len = 1 + (int)my.below(SLOT), off = lo + (int)my.below(SLOT - len + 1), op = (int)my.below(nb ? 4 : 7); if (nb && my.chance(20)) op = 2; char *R = (char *)a[t] + me * LANE; unsigned char *m = M[t].data(); h.t = t; h.off = off; h.len = len; if (!cons && dirty[t][hi]) fence(t);
    if (op == 0 || op == 3) { h.buf.resize(len); for (int i = 0; i < len; i++) m[off + i] = h.buf[i] = (unsigned char)my.next(); if (nb) { CHECK(ARMCI_NbPut(h.buf.data(), R + off, len, t, &h.h) == 0, "rc", "nbput"); h.act = true; } else ARMCI_Put(h.buf.data(), R + off, len, t); cnt(CN_PUT); }
    else if (op == 1) { h.buf.assign(len, 0xee); h.want.assign(m + off, m + off + len); if (nb) { CHECK(ARMCI_NbGet(R + off, h.buf.data(), len, t, &h.h) == 0, "rc", "nbget"); h.act = true; } else { ARMCI_Get(R + off, h.buf.data(), len, t); h.act = true; finish(h, 2); } cnt(CN_GET); }
    else if (op == 2) { int e = 1 + (int)my.below(std::min(8, SLOT / 8)); off = lo + 8 * (int)my.below(SLOT / 8 - e + 1); bool dbl = my.chance(50); double d[8]; for (int i = 0; i < e; i++) d[i] = ones[(i + k) & 7]; double z[8] = {0}; for (int i = 0; i < e; i++) z[i] = my.below(100);      // give the place a well-formed value first
      (void)dbl; memcpy(m + off, z, 8 * e); ARMCI_Put(z, R + off, 8 * e, t); ARMCI_Fence(t); bool two = my.chance(50); for (int i = 0; i < e; i++) z[i] += (two ? 2 : 1) * d[i]; memcpy(m + off, z, 8 * e); h.off = off; h.buf.assign((unsigned char *)d, (unsigned char *)d + 8 * e);
      if (nb) { CHECK(ARMCI_NbAcc(ARMCI_ACC_DBL, two ? &s2 : &sc, h.buf.data(), R + off, 8 * e, t, &h.h) == 0, "rc", "nbacc"); h.act = true; } else ARMCI_Acc(ARMCI_ACC_DBL, two ? &s2 : &sc, h.buf.data(), R + off, 8 * e, t); cnt(CN_ACC); }
    else if (op == 4) { off = 8 * (int)my.below(LANE / 8); long v = 0, o, x = (long)my.below(1000); memcpy(&o, m + off, 8); bool swap = my.chance(50); v = swap ? x : -77; ARMCI_Rmw(swap ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG, &v, R + off, (int)x, t); CHECK(v == o, "rmw-old", "operation %d: read-modify-write returned %ld instead of %ld", k, v, o); long w = swap ? x : (long)((unsigned long)o + x); memcpy(m + off, &w, 8); cnt(CN_RMW); }
    else if (op == 5) { int st[1] = {40}, ct[2] = {1 + (int)my.below(40), 1 + (int)my.below(10)}; off = (int)my.below(LANE - 400); h.buf.resize(400); for (auto &x : h.buf) x = (unsigned char)my.next(); for (int i = 0; i < ct[1]; i++) memcpy(m + off + 40 * i, &h.buf[40 * i], ct[0]); ARMCI_PutS(h.buf.data(), st, R + off, st, ct, 1, t); cnt(CN_PUT); }
    else { off = 4 * (int)my.below(LANE / 4); int v = (int)my.next(); memcpy(m + off, &v, 4); ARMCI_PutValueInt(v, R + off, t); if (!cons) fence(t); int g = ARMCI_GetValueInt(R + off, t); CHECK(g == v, "value", "operation %d: value %d read back as %d", k, v, g); }
    dirty[t][hi] = 1; if (my.chance(2)) fence(t);
  }
  for (auto &h : hs) { if (h.act) ARMCI_Wait(&h.h); finish(h, 2); }
  ARMCI_Barrier(); for (int t = 0; t < n; t++) { std::vector<unsigned char> g(LANE); ARMCI_Get((char *)a[t] + me * LANE, g.data(), LANE, t); for (int i = 0; i < LANE; i++) CHECK(g[i] == M[t][i], "final-data", "after %d operations byte %d of the lane at process %d is %d instead of %d", P.K, i, t, g[i], M[t][i]); cnt(CN_READBACK); }
  ARMCI_Barrier(); ARMCI_Free(a[me]); feat(fh({505, (uint64_t)nb, (uint64_t)P.K / 50, (uint64_t)NH}));
}
// ---- one transfer of hundreds of thousands of segments
static void scale_segs(int me, Case &c, ScalePlan &P) {
  Rng sh{P.seed}; int n = c.n, K = P.K, t = (me + 1) % n, W = 8, rs = W * (1 + (int)sh.below(3)), ls = W * (1 + (int)sh.below(2)); long R = (long)rs * K, L = (long)ls * K; std::vector<void *> a(n); CHECK(ARMCI_Malloc(a.data(), R) == 0, "rc", "malloc"); ARMCI_Access_begin(a[me]); memset(a[me], 0, R); ARMCI_Access_end(a[me]); ARMCI_Barrier();
  std::vector<long> m(K, 0), v(L / 8), g(L / 8); double sc = 1; long one = 1; (void)sc; std::vector<int> ix = range_vec(K); if (sh.chance(40)) shuffle(sh, ix); std::vector<void *> lp(K), rp(K); char *base = (char *)a[t];
  for (int round = 0; round < 2; round++) { int op = round ? (int)sh.below(3) : 0, form = (int)sh.below(4); armci_hdl_t h; ARMCI_INIT_HANDLE(&h); bool iov = form & 1, nb = form & 2; for (int i = 0; i < L / 8; i++) { v[i] = (long)(sim_mix(P.seed + round, i) >> 20); g[i] = -5; }
    long *loc = op == 1 ? g.data() : v.data(); for (int i = 0; i < K; i++) { lp[i] = (char *)loc + (long)ls * ix[i]; rp[i] = base + (long)rs * ix[i]; }
    armci_giov_t d = {op == 1 ? rp.data() : lp.data(), op == 1 ? lp.data() : rp.data(), W, K}; int s1[1] = {ls}, s2[1] = {rs}, ct[2] = {W, K}; int rc;
    switch (op * 4 + form) {
      case 0: rc = ARMCI_PutS(loc, s1, base, s2, ct, 1, t); break; case 1: rc = ARMCI_PutV(&d, 1, t); break; case 2: rc = ARMCI_NbPutS(loc, s1, base, s2, ct, 1, t, &h); break; case 3: rc = ARMCI_NbPutV(&d, 1, t, &h); break;
      case 4: rc = ARMCI_GetS(base, s2, loc, s1, ct, 1, t); break; case 5: rc = ARMCI_GetV(&d, 1, t); break; case 6: rc = ARMCI_NbGetS(base, s2, loc, s1, ct, 1, t, &h); break; case 7: rc = ARMCI_NbGetV(&d, 1, t, &h); break;
      case 8: rc = ARMCI_AccS(ARMCI_ACC_LNG, &one, loc, s1, base, s2, ct, 1, t); break; case 9: rc = ARMCI_AccV(ARMCI_ACC_LNG, &one, &d, 1, t); break; case 10: rc = ARMCI_NbAccS(ARMCI_ACC_LNG, &one, loc, s1, base, s2, ct, 1, t, &h); break; default: rc = ARMCI_NbAccV(ARMCI_ACC_LNG, &one, &d, 1, t, &h); }
    CHECK(rc == 0, "rc", "transfer of %d segments returned %d", K, rc); if (nb) CHECK(ARMCI_Wait(&h) == 0, "rc", "wait"); cnt(op == 0 ? CN_PUT : op == 1 ? CN_GET : CN_ACC, K); feat(fh({507, (uint64_t)op, (uint64_t)form, (uint64_t)(K > 100000), (uint64_t)n}));
    if (op == 1) { long bad = 0; for (int i = 0; i < K; i++) bad += g[(long)i * (ls / 8)] != m[i]; CHECK(!bad, "get-data", "%ld of %d segments are wrong in the destination", bad, K); } else for (int i = 0; i < K; i++) { long x = v[(long)i * (ls / 8)]; m[i] = op == 0 ? x : m[i] + x; }
    ARMCI_Fence(t); }
  ARMCI_Barrier(); std::vector<long> w(R / 8); CHECK(ARMCI_Get(base, w.data(), (int)R, t) == 0, "rc", "get"); long bad = 0, first = -1; for (long i = 0; i < R / 8; i++) { long e = i % (rs / 8) ? 0 : m[i / (rs / 8)]; if (w[i] != e) { bad++; if (first < 0) first = i; } } CHECK(!bad, "memory-data", "%ld words of %ld are wrong after transfers of %d segments, the first at %ld", bad, R / 8, K, first);
  ARMCI_Barrier(); ARMCI_Free(a[me]);
}
// ---- many life cycles of the library in one MPI job
static void scale_cycle_body(int me, int n, uint64_t s) {
  std::vector<void *> a(n); CHECK(ARMCI_Malloc(a.data(), 64) == 0, "rc", "malloc"); int t = (me + 1) % n; long v = (long)s + me, g = 0; ARMCI_Put(&v, a[t], 8, t); ARMCI_Barrier(); ARMCI_Get(a[me], &g, 8, me); CHECK(g == (long)s + (me + n - 1) % n, "cycle-data", "value %ld", g);
  if (s & 1) { ARMCI_Create_mutexes(1 + me % 2); ARMCI_Lock(0, t); ARMCI_Unlock(0, t); ARMCI_Destroy_mutexes(); } if (s & 2) { ARMCI_Group w, q; ARMCI_Group_get_world(&w); ARMCIX_Group_dup(&w, &q); int r; ARMCI_Group_rank(&q, &r); CHECK(r == me, "cycle-rank", "rank %d", r); ARMCI_Group_free(&q); }
  int x[1] = {me}; armci_msg_igop(x, 1, (char *)"+"); CHECK(x[0] == n * (n - 1) / 2, "cycle-sum", "sum %d", x[0]); ARMCI_Barrier(); ARMCI_Free(a[me]);
}
static void scale_run(int me, Case &c) {
  ScalePlan &P = *plan_of<ScalePlan>(c);
  if (P.mode == SC_CYCLES) {
    MPI_Init(nullptr, nullptr); SimCensus s0, s;
    for (int k = 0; k < P.K; k++) { int depth = 1 + (int)(sim_mix(P.seed, k) % 3); for (int d = 0; d < depth; d++) CHECK(ARMCI_Init() == 0, "init-rc", "initialisation %d", k); CHECK(ARMCI_Initialized(), "initialized-query", "not initialised in cycle %d", k); scale_cycle_body(me, c.n, sim_mix(P.seed, 1000 + k) & 0xffff);
      for (int d = 0; d < depth; d++) { CHECK(ARMCI_Initialized(), "initialized-query", "not initialised before the last finalize in cycle %d", k); CHECK(ARMCI_Finalize() == 0, "fin-rc", "finalize %d", k); } CHECK(!ARMCI_Initialized(), "initialized-query", "still initialised after cycle %d", k);
      sim_census(&s); if (k) { CHECK(s.comm == s0.comm && s.win == s0.win && s.mem == s0.mem && s.type == s0.type && s.group == s0.group && s.req == s0.req && s.info == s0.info && s.op == s0.op && s.heap == s0.heap, "growth", "resources held after cycle %d differ from those after the one before (comm %ld/%ld win %ld/%ld mem %ld/%ld heap %ld/%ld)", k, s.comm, s0.comm, s.win, s0.win, s.mem, s0.mem, s.heap, s0.heap); } s0 = s; cnt(CN_INIT); }
    feat(fh({506, (uint64_t)P.K})); MPI_Finalize(); return;
  }
  armci_start(c);
  switch (P.mode) { case SC_ALLOC: scale_alloc(me, c, P); break; case SC_GROUPS: scale_groups(me, c, P); break; case SC_MUTEX: scale_mutex(me, c, P); break; case SC_MSG: scale_msg(me, c, P); break; case SC_OPS: scale_ops(me, c, P, false); break; case SC_NB: scale_ops(me, c, P, true); break; case SC_SEGS: scale_segs(me, c, P); break; }
  armci_stop(c);
}
#define SCALE(name, mode) static ScnReg r_##name(#name, [](Case &c) { scale_plan(c, mode); }, scale_run);
SCALE(X_ALLOC, SC_ALLOC) SCALE(X_GROUPS, SC_GROUPS) SCALE(X_MUTEX, SC_MUTEX) SCALE(X_MSG, SC_MSG) SCALE(X_OPS, SC_OPS) SCALE(X_NB, SC_NB) SCALE(X_CYCLES, SC_CYCLES) SCALE(X_SEGS, SC_SEGS)
